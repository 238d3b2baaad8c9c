// ksim: simulated descriptor table and stream sockets (TCP and Unix), with every failure a real kernel can produce.
// Not instrumented; all state is static so that the simulated heap is untouched.
#include "internal.h"
#include <arpa/inet.h>
#include <csignal>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

extern "C" void *__tsan_memcpy(void *d, const void *s, size_t n);

namespace ksim {
namespace net {
constexpr int MAXS = 48, BUF = 1 << 15, MAXFD = 1200, MAXSEG = 64, BACKLOG = 16;
struct Dir // one direction of a connection, owned by the receiver
{
    uint32_t rd, wr; // byte counters
    int nseg, seg0;
    uint32_t seg_end[MAXSEG];
    int64_t seg_at[MAXSEG];
    int64_t last_at;
    char data[BUF];
    uint32_t arrived(int64_t now)
    {
        uint32_t n = rd;
        for (int i = 0; i < nseg; i++) {
            int k = (seg0 + i) % MAXSEG;
            if (seg_at[k] > now) return n - rd;
            n = seg_end[k];
        }
        return n - rd;
    }
    int64_t next_arrival(int64_t now)
    {
        for (int i = 0; i < nseg; i++)
            if (seg_at[(seg0 + i) % MAXSEG] > now) return seg_at[(seg0 + i) % MAXSEG];
        return NEVER;
    }
};
enum Kind : uint8_t { S_FREE, S_FRESH, S_LISTEN, S_CONN };
struct Sock
{
    Kind kind;
    bool nonblock, isunix, bound;
    bool fin_in, wr_shut, closed; // fin_in: the peer will send no more
    bool reset, reset_told, told_epipe;
    int64_t fin_at;
    int peer;
    char addr[120];
    int q[BACKLOG], nq, maxq;
    uint32_t cap;
    Dir in;
};
static Sock socks[MAXS];
static int fds[MAXFD]; // socket index + 1, -1: other file, 0: closed
static int base_fd;
static bool ready;
static Stats st;

Stats &stats() { return st; }
void init()
{
    for (auto &s : socks) {
        s.kind = S_FREE;
    }
    memset(fds, 0, sizeof fds);
    fds[0] = fds[1] = fds[2] = -1;
    base_fd = 0;
    memset(&st, 0, sizeof st);
    signal(SIGPIPE, SIG_DFL); // this run decides for itself (see sigpipe)
    ready = true;
}
void open_std_fds(bool open0) { fds[0] = open0 ? -1 : 0; }
void set_base_fd(int fd) { base_fd = fd; }
int open_fd_count()
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++)
        if (fds[i] > 0) n++;
    return n;
}
bool double_close_seen() { return st.bad_close; }
static int err(int e)
{
    st.failed++;
    errno = e;
    return -1;
}
static int hard(int e)
{
    st.hard_failed++;
    return err(e);
}
static Sock *get(int fd)
{
    if (fd < 0 || fd >= MAXFD || fds[fd] <= 0) return nullptr;
    return &socks[fds[fd] - 1];
}
static int new_fd(int s)
{
    for (int i = base_fd; i < MAXFD; i++)
        if (!fds[i] && !disk::is(i)) {
            fds[i] = s + 1;
            st.opened++;
            return i;
        }
    return -1;
}
static int new_sock(bool isunix)
{
    for (int i = 0; i < MAXS; i++)
        if (socks[i].kind == S_FREE) {
            Sock &s = socks[i];
            memset((void *) &s, 0, offsetof(Sock, in));
            memset((void *) &s.in, 0, offsetof(Dir, data));
            s.kind = S_FRESH;
            s.isunix = isunix;
            s.peer = -1;
            s.cap = BUF;
            return i;
        }
    fail("harness-error", "too many simulated sockets");
}
static int idx(Sock *s) { return (int) (s - socks); }
static void changed(Sock *s)
{
    hb_release_obj(s);
    wake_addr(s, MAXF, false);
    wake_addr(socks, MAXF, false); // select / poll
}
// every call is a scheduling point
static void enter(const char *what, int fd)
{
    if (!ready) fail("harness-error", "socket call without ksim::net::init");
    sync_tick();
    drain_all_own();
    hash_event(0xA0000000u + fd, (uint64_t) what[0] * 256 + what[1]);
    tracef("%s(%d)", what, fd);
}
static void do_reset(Sock *s, bool drop)
{
    if (s->kind != S_CONN || s->reset) return;
    s->reset = true;
    if (drop) s->in.rd = s->in.wr, s->in.nseg = 0;
    changed(s);
}
// a random failure of the connection under fd
static void maybe_break(Sock *s)
{
    if (s->kind != S_CONN || s->reset) return;
    if (fault(F_CONNRESET, 1, 24)) {
        bool d1 = fault_val(F_CONNRESET, 2), d2 = fault_val(F_CONNRESET, 2);
        do_reset(s, d1);
        if (s->peer >= 0) do_reset(&socks[s->peer], d2);
        st.broken++;
    }
}
void reset_all()
{
    for (auto &s : socks)
        do_reset(&s, true);
    st.broken++;
}
static void addr_key(const struct sockaddr *a, socklen_t n, char *out, size_t cap)
{
    if (a->sa_family == AF_UNIX)
        snprintf(out, cap, "un:%.108s", ((struct sockaddr_un *) a)->sun_path);
    else
        snprintf(out, cap, "in:%d", ntohs(((struct sockaddr_in *) a)->sin_port));
}
static void free_sock(Sock *s);
static void shut_write(Sock *s)
{
    if (s->wr_shut) return;
    s->wr_shut = true;
    if (s->peer >= 0) {
        Sock *p = &socks[s->peer];
        p->fin_in = true;
        p->fin_at = p->in.last_at > G.now ? p->in.last_at : G.now;
        changed(p);
    }
}
static void free_sock(Sock *s)
{
    if (s->kind == S_LISTEN) {
        for (int i = 0; i < s->nq; i++) { // never accepted
            Sock *c = &socks[s->q[i]];
            if (c->peer >= 0) {
                do_reset(&socks[c->peer], true);
                socks[c->peer].peer = -1;
            }
            c->kind = S_FREE;
        }
        s->nq = 0;
    }
    if (s->kind == S_CONN && s->peer >= 0) {
        Sock *p = &socks[s->peer];
        if (s->in.wr != s->in.rd && !s->isunix) { // unread data: the peer gets a reset
            do_reset(p, false);
        } else
            shut_write(s);
        p->peer = -1;
        changed(p);
    }
    s->kind = S_FREE;
    // those blocked on it notice that it is gone
    wake_addr(s, MAXF, false);
    wake_addr(socks, MAXF, false);
}
static bool readable(Sock *s, int64_t &when)
{
    if (s->kind == S_LISTEN) return s->nq > 0;
    if (s->kind != S_CONN) return true;
    if (s->reset || s->in.arrived(G.now)) return true;
    if (s->in.nseg && s->in.wr != s->in.rd) {
        when = s->in.next_arrival(G.now);
        return false;
    }
    if (s->fin_in || s->peer < 0) {
        if (s->fin_at <= G.now) return true;
        when = s->fin_at;
    }
    return false;
}
static void sigpipe(int flags)
{
    if (flags & MSG_NOSIGNAL) return;
    struct sigaction sa;
    if (sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler != SIG_DFL) return;
    fail("killed-by-sigpipe", "writing to a connection whose peer is gone raised SIGPIPE, which ends the process");
}
static ssize_t do_read(int fd, char *b, size_t n, bool peek)
{
    enter("read", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (s->kind != S_CONN) return hard(s->kind == S_LISTEN ? EINVAL : ENOTCONN);
    maybe_break(s);
    if (fault(F_EINTR, 1, 8)) return err(EINTR);
    if (fault(F_EAGAIN, 1, 8)) return err(fault_val(F_EAGAIN, 4) == 0 ? ETIMEDOUT : EAGAIN);
    if (fault(F_SYSFAIL, 1, 20)) {
        static const int e[] = {EIO, ENOBUFS, ENOMEM, EHOSTUNREACH};
        return hard(e[fault_val(F_SYSFAIL, 4)]);
    }
    for (;;) {
        uint32_t a = s->in.arrived(G.now);
        if (a && n) {
            NoPreempt np; // the kernel copies in one go
            size_t k = a < n ? a : n;
            if (k > 1 && fault(F_SHORTIO, 1, 2)) k = 1 + fault_val(F_SHORTIO, k - 1);
            hb_acquire_obj(s);
            Dir &d = s->in;
            size_t at = d.rd % BUF, first = k < BUF - at ? k : BUF - at;
            __tsan_memcpy(b, d.data + at, first);
            if (k > first) __tsan_memcpy(b + first, d.data, k - first);
            if (!peek) {
                d.rd += k;
                while (d.nseg && (int32_t) (d.seg_end[d.seg0] - d.rd) <= 0) d.seg0 = (d.seg0 + 1) % MAXSEG, d.nseg--;
                if (s->peer >= 0) changed(&socks[s->peer]);
            }
            st.bytes += k;
            return k;
        }
        if (!n) return 0;
        if (s->reset) {
            if (s->reset_told) return 0;
            s->reset_told = true;
            s->in.rd = s->in.wr, s->in.nseg = 0; // nothing comes after a reset
            return err(ECONNRESET);
        }
        int64_t when = NEVER;
        if (readable(s, when)) return 0;
        if (s->nonblock) return err(EAGAIN);
        int w = block(s, "socket read", when, false, false);
        if (!get(fd) || get(fd) != s) return hard(EBADF);
        if (w == W_TIMEOUT) continue;
        if (fault(F_EINTR, 1, 8)) return err(EINTR);
    }
}
static ssize_t do_write(int fd, const char *b, size_t n, int flags)
{
    enter("write", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    maybe_break(s);
    if (s->kind != S_CONN) {
        sigpipe(flags);
        return hard(s->isunix ? ENOTCONN : EPIPE);
    }
    if (fault(F_EINTR, 1, 8)) return err(EINTR);
    if (fault(F_EAGAIN, 1, 8)) return err(EAGAIN);
    if (fault(F_SYSFAIL, 1, 20)) {
        static const int e[] = {EIO, ENOSPC, ENETDOWN, ENETUNREACH, EDQUOT, ENOBUFS, EHOSTUNREACH};
        return hard(e[fault_val(F_SYSFAIL, 7)]);
    }
    size_t want = n;
    if (want > 1 && fault(F_SHORTIO, 1, 2)) want = 1 + fault_val(F_SHORTIO, want - 1);
    size_t done = 0;
    while (done < want) {
        if (s->wr_shut) {
            sigpipe(flags);
            return hard(EPIPE);
        }
        if (s->reset) {
            if (done) break;
            if (!s->reset_told) {
                s->reset_told = true;
                return hard(ECONNRESET);
            }
            sigpipe(flags);
            return hard(EPIPE);
        }
        if (s->peer < 0) { // the peer has closed: the first bytes are lost and answered by a reset
            if (s->isunix || s->told_epipe) {
                if (done) break;
                sigpipe(flags);
                return hard(EPIPE);
            }
            s->told_epipe = true;
            st.broken++;
            return want;
        }
        Sock *p = &socks[s->peer];
        Dir &d = p->in;
        uint32_t room = p->cap - (d.wr - d.rd);
        if (!room) {
            if (s->nonblock) {
                if (done) break;
                return err(EAGAIN);
            }
            block(s, "socket write", NEVER, false, false);
            if (!get(fd) || get(fd) != s) return hard(EBADF);
            if (fault(F_EINTR, 1, 8)) {
                if (done) break;
                return err(EINTR);
            }
            continue;
        }
        NoPreempt np;
        size_t k = want - done < room ? want - done : room;
        size_t at = d.wr % BUF, first = k < BUF - at ? k : BUF - at;
        __tsan_memcpy(d.data + at, b + done, first);
        if (k > first) __tsan_memcpy(d.data, b + done + first, k - first);
        d.wr += k;
        done += k;
        int64_t t = d.last_at > G.now ? d.last_at : G.now;
        if (fault(F_NETDELAY, 1, 3)) {
            int64_t m = 1000;
            for (int64_t q = fault_val(F_NETDELAY, 5); q; q--)
                m *= 10;
            t += fault_val(F_NETDELAY, m);
        }
        d.last_at = t;
        if (d.nseg < MAXSEG) {
            int q = (d.seg0 + d.nseg++) % MAXSEG;
            d.seg_end[q] = d.wr;
            d.seg_at[q] = t;
        } else {
            int q = (d.seg0 + d.nseg - 1) % MAXSEG;
            d.seg_end[q] = d.wr;
            d.seg_at[q] = t;
        }
        changed(p);
    }
    return done;
}
// waits until one of the descriptors is readable: true when one is
template<class F>
static bool wait_ready(F any, int64_t deadline)
{
    for (;;) {
        int64_t when = NEVER;
        if (any(when)) return true;
        if (deadline <= G.now) return false;
        block(socks, "select", when < deadline ? when : deadline, false, false);
    }
}
int available(int fd)
{
    Sock *s = get(fd);
    if (!s || s->kind != S_CONN) return -1;
    int64_t when = NEVER;
    uint32_t a = s->in.arrived(G.now);
    return a ? (int) a : readable(s, when) || s->reset ? 0 : -1;
}
static int pick_port_err(Fault k)
{
    static const int e[] = {EADDRINUSE, EACCES, EADDRNOTAVAIL};
    return e[fault_val(k, 3)];
}
} // namespace net
} // namespace ksim

using namespace ksim;
using namespace ksim::net;
#define RAW(...) \
    do { \
        long r_ = raw_syscall(__VA_ARGS__); \
        if (r_ < 0 && r_ > -4096) { \
            errno = -r_; \
            return -1; \
        } \
        return r_; \
    } while (0)
static bool foreign(int fd) { return !G.active || disk::is(fd) || (fd >= 0 && fd <= 2 && fds[fd] <= 0 && (fd || fds[0])); }

extern "C" {
int socket(int dom, int type, int proto)
{
    if (!G.active) RAW(SYS_socket, dom, type, proto);
    enter("socket", 0);
    if (fault(F_SYSFAIL, 1, 6)) {
        static const int e[] = {EMFILE, ENFILE, ENOMEM, EACCES};
        return hard(e[fault_val(F_SYSFAIL, 4)]);
    }
    int s = new_sock(dom == AF_UNIX);
    socks[s].nonblock = type & SOCK_NONBLOCK;
    int fd = new_fd(s);
    if (fd < 0) {
        socks[s].kind = S_FREE;
        return hard(EMFILE);
    }
    return fd;
}
int socketpair(int, int, int, int *) { fail("harness-error", "socketpair is not simulated"); }
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
    if (!G.active) RAW(SYS_bind, fd, (long) a, n);
    enter("bind", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (fault(F_SYSFAIL, 1, 6)) return hard(pick_port_err(F_SYSFAIL));
    char k[120];
    addr_key(a, n, k, sizeof k);
    for (auto &o : socks)
        if (o.kind != S_FREE && o.bound && !strcmp(o.addr, k)) return hard(EADDRINUSE);
    if (s->bound) return hard(EINVAL);
    strcpy(s->addr, k);
    s->bound = true;
    return 0;
}
int listen(int fd, int n)
{
    if (!G.active) RAW(SYS_listen, fd, n);
    enter("listen", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (fault(F_SYSFAIL, 1, 6)) return hard(EADDRINUSE);
    s->kind = S_LISTEN;
    s->maxq = n < BACKLOG ? n + 1 : BACKLOG;
    return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t n)
{
    if (!G.active) RAW(SYS_connect, fd, (long) a, n);
    enter("connect", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (s->kind != S_FRESH) return hard(EISCONN);
    if (fault(F_EINTR, 1, 8)) return hard(EINTR);
    if (fault(F_SYSFAIL, 1, 6)) {
        static const int e[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EAGAIN};
        return hard(e[fault_val(F_SYSFAIL, 4)]);
    }
    char k[120];
    addr_key(a, n, k, sizeof k);
    Sock *l = nullptr;
    for (auto &o : socks)
        if (o.kind == S_LISTEN && !strcmp(o.addr, k)) l = &o;
    if (!l) return hard(ECONNREFUSED);
    if (l->nq >= l->maxq) return hard(s->isunix ? EAGAIN : ECONNREFUSED);
    int c = new_sock(s->isunix);
    Sock *cs = &socks[c];
    cs->kind = S_CONN;
    cs->peer = idx(s);
    s->kind = S_CONN;
    s->peer = c;
    if (fault(F_SHORTIO, 1, 2)) {
        static const int caps[] = {1, 7, 64, 1000, 4096};
        s->cap = caps[fault_val(F_SHORTIO, 5)];
        cs->cap = caps[fault_val(F_SHORTIO, 5)];
    }
    l->q[l->nq++] = c;
    changed(l);
    return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags)
{
    if (!G.active) RAW(SYS_accept4, fd, (long) a, (long) n, flags);
    enter("accept", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (s->kind != S_LISTEN) return hard(EINVAL);
    if (fault(F_EINTR, 1, 8)) return hard(EINTR);
    if (fault(F_SYSFAIL, 1, 8)) {
        static const int e[] = {EMFILE, ECONNABORTED, ENOBUFS, ENFILE};
        int v = e[fault_val(F_SYSFAIL, 4)];
        if (v == ECONNABORTED && s->nq) { // that connection is gone
            Sock *c = &socks[s->q[0]];
            if (c->peer >= 0) {
                do_reset(&socks[c->peer], true);
                socks[c->peer].peer = -1;
            }
            c->kind = S_FREE;
            s->nq--;
            for (int i = 0; i < s->nq; i++)
                s->q[i] = s->q[i + 1];
        }
        return hard(v);
    }
    while (!s->nq) {
        if (s->nonblock) return hard(EAGAIN);
        block(s, "accept", NEVER, false, false);
        if (get(fd) != s) return hard(EBADF);
    }
    hb_acquire_obj(s);
    int c = s->q[0];
    int nfd = new_fd(c);
    if (nfd < 0) return hard(EMFILE);
    s->nq--;
    for (int i = 0; i < s->nq; i++)
        s->q[i] = s->q[i + 1];
    socks[c].nonblock = flags & SOCK_NONBLOCK;
    if (a && n && *n) {
        memset(a, 0, *n);
        a->sa_family = socks[c].isunix ? AF_UNIX : AF_INET;
        *n = socks[c].isunix ? 2 : sizeof(struct sockaddr_in);
    }
    return nfd;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }
ssize_t read(int fd, void *b, size_t n)
{
    if (G.active && disk::is(fd)) return disk::do_read(fd, b, n);
    if (foreign(fd)) RAW(SYS_read, fd, (long) b, n);
    return do_read(fd, (char *) b, n, false);
}
ssize_t recv(int fd, void *b, size_t n, int flags)
{
    if (!G.active) RAW(SYS_recvfrom, fd, (long) b, n, flags, 0, 0);
    if (flags & MSG_WAITALL) {
        size_t k = 0;
        while (k < n) {
            ssize_t r = do_read(fd, (char *) b + k, n - k, false);
            if (r <= 0) return k ? (ssize_t) k : r;
            k += r;
        }
        return k;
    }
    return do_read(fd, (char *) b, n, flags & MSG_PEEK);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (foreign(fd)) RAW(SYS_write, fd, (long) b, n);
    return do_write(fd, (const char *) b, n, 0);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
    if (!G.active) RAW(SYS_sendto, fd, (long) b, n, flags, 0, 0);
    return do_write(fd, (const char *) b, n, flags);
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
    if (foreign(fd)) RAW(SYS_readv, fd, (long) v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_read(fd, (char *) v[i].iov_base, v[i].iov_len, false);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (foreign(fd)) RAW(SYS_writev, fd, (long) v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(fd, (const char *) v[i].iov_base, v[i].iov_len, 0);
    return 0;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (!G.active) RAW(SYS_sendmsg, fd, (long) m, flags);
    for (size_t i = 0; i < m->msg_iovlen; i++)
        if (m->msg_iov[i].iov_len) return do_write(fd, (const char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    if (!G.active) RAW(SYS_recvmsg, fd, (long) m, flags);
    for (size_t i = 0; i < m->msg_iovlen; i++)
        if (m->msg_iov[i].iov_len) return do_read(fd, (char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false);
    return 0;
}
int shutdown(int fd, int how)
{
    if (!G.active) RAW(SYS_shutdown, fd, how);
    enter("shutdown", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    maybe_break(s);
    if (fault(F_SYSFAIL, 1, 12)) return hard(ENOBUFS);
    if (s->kind != S_CONN || s->reset) return hard(ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) shut_write(s);
    if (how == SHUT_RD || how == SHUT_RDWR) {
        s->fin_in = true;
        changed(s);
    }
    return 0;
}
int close(int fd)
{
    if (disk::is(fd)) disk::closed(fd);
    if (foreign(fd)) RAW(SYS_close, fd);
    enter("close", fd);
    if (fd < 0) return err(EBADF);
    Sock *s = get(fd);
    if (!s) {
        st.bad_close++;
        fail("descriptor-use", "close of descriptor %d, which is not open (closed twice, or somebody else's)", fd);
    }
    fds[fd] = 0;
    st.closed++;
    free_sock(s);
    // the descriptor is gone whatever close reports
    if (fault(F_EINTR, 1, 8)) return err(EINTR);
    if (fault(F_SYSFAIL, 1, 12)) {
        st.close_failed++;
        return hard(EIO);
    }
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long v = va_arg(ap, long);
    va_end(ap);
    if (foreign(fd)) RAW(SYS_fcntl, fd, cmd, v);
    enter("fcntl", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) {
        if (fault(F_SYSFAIL, 1, 12)) return hard(EPERM);
        s->nonblock = v & O_NONBLOCK;
        return 0;
    }
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long v = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, v);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *v = va_arg(ap, void *);
    va_end(ap);
    if (foreign(fd)) RAW(SYS_ioctl, fd, (long) req, (long) v);
    enter("ioctl", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (req == FIONBIO)
        s->nonblock = *(int *) v;
    else if (req == FIONREAD)
        *(int *) v = (int) s->in.arrived(G.now);
    else
        return hard(ENOTTY);
    return 0;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
    if (!G.active) RAW(SYS_setsockopt, fd, l, o, (long) v, n);
    enter("setsockopt", fd);
    return get(fd) ? 0 : hard(EBADF);
}
int getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    if (!G.active) RAW(SYS_getsockopt, fd, l, o, (long) v, (long) n);
    enter("getsockopt", fd);
    Sock *s = get(fd);
    if (!s) return hard(EBADF);
    if (v && n && *n >= sizeof(int)) *(int *) v = 0;
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *tv)
{
    if (!G.active) RAW(SYS_select, n, (long) r, (long) w, 0, (long) tv);
    enter("select", n);
    if (n > FD_SETSIZE) fail("descriptor-range", "select on %d descriptors: FD_SET writes beyond its fd_set", n);
    if (w) fail("harness-error", "select for writing is not simulated");
    for (int i = 0; i < n; i++)
        if (r && FD_ISSET(i, r) && !get(i)) return err(EBADF);
    if (fault(F_EINTR, 1, 8)) return err(EINTR);
    int64_t dl = tv ? G.now + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : NEVER;
    bool ok = wait_ready(
        [&](int64_t &when) {
            for (int i = 0; i < n; i++)
                if (r && FD_ISSET(i, r)) {
                    Sock *s = get(i);
                    int64_t t = NEVER;
                    if (!s || readable(s, t)) return true;
                    if (t < when) when = t;
                }
            return false;
        },
        dl);
    int k = 0;
    for (int i = 0; i < n; i++)
        if (r && FD_ISSET(i, r)) {
            Sock *s = get(i);
            int64_t t;
            if (ok && (!s || readable(s, t)))
                k++;
            else
                FD_CLR(i, r);
        }
    for (int i = n; r && i % 64; i++)
        FD_CLR(i, r); // the kernel writes whole words
    return k;
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (!G.active || (n == 1 && disk::is(p->fd))) RAW(SYS_poll, (long) p, n, timeout);
    enter("poll", (int) n);
    if (fault(F_EINTR, 1, 8)) return err(EINTR);
    auto look = [&](int64_t &when) {
        int k = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            Sock *s = get(p[i].fd);
            int64_t t = NEVER;
            if (!s)
                p[i].revents = POLLNVAL;
            else {
                if ((p[i].events & POLLIN) && readable(s, t)) p[i].revents |= POLLIN;
                if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
            }
            if (t < when) when = t;
            if (p[i].revents) k++;
        }
        return k;
    };
    wait_ready([&](int64_t &when) { return look(when) > 0; }, timeout < 0 ? NEVER : G.now + timeout * 1000000LL);
    int64_t w = NEVER;
    return look(w);
}
}
