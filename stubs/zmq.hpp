// STUB of cppzmq + libzmq: PUB/SUB sockets on a simulated network. Written over simulated std::mutex and
// std::condition_variable, so the scheduler decides all interleavings; ksim::fault decides losses, delays, disconnections
// and interrupted calls. Guarantees kept from ZeroMQ: a multipart message arrives as a whole or not at all, no duplicates,
// FIFO per connection, prefix subscriptions, PUB never blocks (it drops at the high water mark), sockets are not thread safe.
#pragma once
#include "ksim.h"
#include <array>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_POLLERR 4
#define ZMQ_DONTWAIT 1
#define ZMQ_NOBLOCK 1
#define ZMQ_SNDMORE 2
#ifndef ETERM
#define ETERM (156384712 + 53)
#endif

namespace zmq {
class error_t : public std::exception
{
public:
    explicit error_t(int e = EINTR) : _e(e) {}
    const char *what() const noexcept override { return "zmq error"; }
    int num() const { return _e; }

private:
    int _e;
};

struct const_buffer
{
    const_buffer(const void *d, size_t n) : d(d), n(n) {}
    const void *data() const { return d; }
    size_t size() const { return n; }
    const void *d;
    size_t n;
};
struct mutable_buffer
{
    mutable_buffer(void *d, size_t n) : d(d), n(n) {}
    operator const_buffer() const { return const_buffer(d, n); }
    void *data() const { return d; }
    size_t size() const { return n; }
    void *d;
    size_t n;
};
inline mutable_buffer buffer(void *d, size_t n) { return mutable_buffer(d, n); }
inline const_buffer buffer(const void *d, size_t n) { return const_buffer(d, n); }
inline const_buffer buffer(const std::string &s) { return const_buffer(s.data(), s.size()); }
inline mutable_buffer buffer(std::string &s) { return mutable_buffer(&s[0], s.size()); }
template<class T> const_buffer buffer(const std::vector<T> &v) { return const_buffer(v.data(), v.size() * sizeof(T)); }
template<class T> mutable_buffer buffer(std::vector<T> &v) { return mutable_buffer(v.data(), v.size() * sizeof(T)); }
template<class T, size_t N> const_buffer buffer(const T (&a)[N]) { return const_buffer(a, N * sizeof(T)); }
template<size_t N> const_buffer str_buffer(const char (&a)[N]) { return const_buffer(a, N - 1); }
enum class send_flags { none = 0, dontwait = 1, sndmore = 2 };
enum class recv_flags { none = 0, dontwait = 1 };
inline send_flags operator|(send_flags a, send_flags b) { return send_flags(int(a) | int(b)); }
inline send_flags operator&(send_flags a, send_flags b) { return send_flags(int(a) & int(b)); }
inline recv_flags operator|(recv_flags a, recv_flags b) { return recv_flags(int(a) | int(b)); }
inline recv_flags operator&(recv_flags a, recv_flags b) { return recv_flags(int(a) & int(b)); }
enum class socket_type { pub = ZMQ_PUB, sub = ZMQ_SUB };
namespace sockopt {
struct subscribe_t {};
struct rcvmore_t {};
template<int O> struct other_t {};
static const subscribe_t subscribe{};
static const rcvmore_t rcvmore{};
static const other_t<ZMQ_LINGER> linger{};
static const other_t<ZMQ_SNDHWM> sndhwm{};
static const other_t<ZMQ_RCVHWM> rcvhwm{};
} // namespace sockopt

class message_t
{
public:
    message_t() {}
    explicit message_t(size_t n) { alloc(n); }
    message_t(const void *d, size_t n)
    {
        alloc(n);
        if (n) memcpy(_d, d, n);
    }
    template<class It> message_t(It first, It last) : message_t(std::string(first, last)) {}
    explicit message_t(const std::string &s) : message_t(s.data(), s.size()) {}
    message_t(message_t &&o) noexcept { swap(o); }
    message_t &operator=(message_t &&o) noexcept
    {
        swap(o);
        return *this;
    }
    message_t(const message_t &) = delete;
    message_t &operator=(const message_t &) = delete;
    ~message_t() { delete[] _d; }
    void swap(message_t &o)
    {
        std::swap(_d, o._d);
        std::swap(_n, o._n);
        std::swap(_more, o._more);
    }
    void rebuild()
    {
        message_t e;
        swap(e);
    }
    void rebuild(const void *d, size_t n)
    {
        message_t e(d, n);
        swap(e);
    }
    void *data() { return _d; }
    const void *data() const { return _d; }
    template<class T> T *data() { return static_cast<T *>((void *) _d); }
    template<class T> const T *data() const { return static_cast<const T *>((const void *) _d); }
    size_t size() const { return _n; }
    bool empty() const { return !_n; }
    bool more() const { return _more; }
    std::string to_string() const { return std::string(_d ? _d : "", _n); }
    std::string str() const { return to_string(); }
    void rebuild(size_t n)
    {
        message_t e(n);
        swap(e);
    }
    void rebuild(const std::string &s) { rebuild(s.data(), s.size()); }
    void copy(const message_t &o) { rebuild(o.data(), o.size()); }
    void move(message_t &o)
    {
        message_t e;
        e.swap(o);
        swap(e);
    }
    bool operator==(const message_t &o) const { return _n == o._n && (!_n || !memcmp(_d, o._d, _n)); }
    bool operator!=(const message_t &o) const { return !(*this == o); }

private:
    friend class socket_t;
    void alloc(size_t n)
    {
        if (n) _d = new char[n];
        _n = n;
    }
    char *_d = nullptr;
    size_t _n = 0;
    bool _more = false;
};

class socket_t;
namespace sim {
struct Msg
{
    std::vector<std::string> parts;
    int64_t at;
};
struct Conn // one PUB -> SUB connection
{
    socket_t *pub, *sub;
    std::deque<Msg> q;
    int64_t last_at = 0;
    int64_t down_until = 0;
};
struct Net
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::unique_ptr<Conn>> conns;
    std::vector<std::pair<std::string, socket_t *>> bound;                        // url, pub
    std::vector<std::pair<std::string, socket_t *>> wants;                        // url, sub
    uint64_t sent = 0, lost = 0, received = 0, delayed = 0, interrupted = 0;
    size_t hwm = 1000;
    bool lossless = false; // the harness has healed the network
};
inline Net &net()
{
    static Net *n = new Net;
    return *n;
}
inline std::string port_of(const std::string &url)
{
    size_t p = url.rfind(':');
    return url.substr(0, 6) == "tcp://" ? url.substr(p) : url;
}
struct NoAllocFaults
{
    // failing allocations are for the code under test; the simulated network itself never runs out of memory
    ksim::AllocPause p;
};
} // namespace sim

class context_t
{
public:
    explicit context_t(int = 1) {}
    context_t(const context_t &) = delete;
    void close() {}
};

// recv/send return something boolean, as in every version of cppzmq
struct result_t
{
    bool ok;
    size_t n;
    explicit operator bool() const { return ok; }
    bool has_value() const { return ok; }
    size_t operator*() const { return n; }
    size_t value() const { return n; }
    size_t value_or(size_t d) const { return ok ? n : d; }
};
typedef result_t recv_result_t;
typedef result_t send_result_t;

class socket_t
{
public:
    socket_t(context_t &, int type) : _type(type) {}
    socket_t(context_t &, socket_type type) : _type(int(type)) {}
    socket_t(const socket_t &) = delete;
    ~socket_t()
    {
        _forbidden = false;
        close();
    }
    void close()
    {
        Use u(*this, "close");
        sim::NoAllocFaults na;
        sim::Net &n = sim::net();
        std::lock_guard<std::mutex> l(n.m);
        _closed = true;
        for (size_t i = 0; i < n.conns.size();)
            if (n.conns[i]->pub == this || n.conns[i]->sub == this)
                n.conns.erase(n.conns.begin() + i);
            else
                i++;
        for (auto *v : {&n.bound, &n.wants})
            for (size_t i = 0; i < v->size();)
                if ((*v)[i].second == this)
                    v->erase(v->begin() + i);
                else
                    i++;
    }
    void bind(const std::string &url)
    {
        Use u(*this, "bind");
        sim::NoAllocFaults na;
        sim::Net &n = sim::net();
        std::lock_guard<std::mutex> l(n.m);
        n.bound.emplace_back(sim::port_of(url), this);
        for (auto &w : n.wants)
            if (w.first == sim::port_of(url)) link(this, w.second);
    }
    void connect(const std::string &url)
    {
        Use u(*this, "connect");
        sim::NoAllocFaults na;
        sim::Net &n = sim::net();
        std::lock_guard<std::mutex> l(n.m);
        n.wants.emplace_back(sim::port_of(url), this);
        for (auto &b : n.bound)
            if (b.first == sim::port_of(url)) link(b.second, this);
    }
    void setsockopt(int opt, const void *v, size_t len)
    {
        Use u(*this, "setsockopt");
        sim::NoAllocFaults na;
        std::lock_guard<std::mutex> l(sim::net().m);
        if (opt == ZMQ_SUBSCRIBE) _subs.emplace_back((const char *) v, len);
    }
    void setsockopt(int opt, const std::string &v) { setsockopt(opt, v.data(), v.size()); }
    void setsockopt(int opt, int v) { setsockopt(opt, &v, sizeof v); }
    void set(sockopt::subscribe_t, const std::string &v) { setsockopt(ZMQ_SUBSCRIBE, v.data(), v.size()); }
    template<int O> void set(sockopt::other_t<O>, int v) { setsockopt(O, &v, sizeof v); }
    int get(sockopt::rcvmore_t) { return more(); }
    template<class T> T getsockopt(int opt) { return opt == ZMQ_RCVMORE ? T(more()) : T(); }
    void getsockopt(int opt, void *v, size_t *len)
    {
        int64_t r = opt == ZMQ_RCVMORE ? more() : 0;
        memcpy(v, &r, *len < sizeof r ? *len : sizeof r);
    }
    result_t send(const_buffer b, send_flags f = send_flags::none)
    {
        Use u(*this, "send");
        put((const char *) b.data(), b.size(), (f & send_flags::sndmore) != send_flags::none);
        return {true, b.size()};
    }
    result_t send(message_t &m, send_flags f = send_flags::none)
    {
        Use u(*this, "send");
        size_t n = m.size();
        put((const char *) m.data(), n, (f & send_flags::sndmore) != send_flags::none);
        m.rebuild();
        return {true, n};
    }
    result_t send(message_t &&m, send_flags f = send_flags::none) { return send(m, f); }
    result_t recv(message_t &m, recv_flags f = recv_flags::none)
    {
        Use u(*this, "recv");
        ksim::point();
        sim::NoAllocFaults na;
        sim::Net &n = sim::net();
        std::unique_lock<std::mutex> l(n.m);
        while (_in.empty()) {
            sim::Conn *c = ready();
            if (c) {
                for (auto &p : c->q.front().parts)
                    _in.push_back(p);
                c->q.pop_front();
                n.received++;
                break;
            }
            if ((f & recv_flags::dontwait) != recv_flags::none) return {false, 0};
            wait(l, INT64_MAX);
        }
        message_t r(_in.front().data(), _in.front().size());
        _in.pop_front();
        r._more = !_in.empty();
        m.swap(r);
        return {true, m.size()};
    }
    // the older cppzmq interface
    bool send(message_t &m, int f) { return (bool) send(m, send_flags(f)); }
    bool send(message_t &&m, int f) { return (bool) send(m, send_flags(f)); }
    size_t send(const void *d, size_t n, int f = 0) { return *send(const_buffer(d, n), send_flags(f)); }
    bool recv(message_t *m, int f = 0) { return (bool) recv(*m, recv_flags(f)); }
    result_t recv(mutable_buffer b, recv_flags f = recv_flags::none)
    {
        message_t m;
        result_t r = recv(m, f);
        if (r) memcpy(b.data(), m.data(), m.size() < b.size() ? m.size() : b.size());
        return r;
    }
    void *handle() noexcept { return this; }
    bool connected() const { return !_closed; }
    operator void *() noexcept { return this; }
    operator void const *() const noexcept { return this; }
    // poll: waits until readable or the deadline; false on the deadline
    bool wait_readable(int64_t deadline_ns)
    {
        Use u(*this, "poll");
        ksim::point();
        sim::NoAllocFaults na;
        sim::Net &n = sim::net();
        std::unique_lock<std::mutex> l(n.m);
        for (;;) {
            if (!_in.empty() || ready()) return true;
            if (ksim::now_ns() >= deadline_ns) return false;
            if (ksim::fault(ksim::F_EINTR, 1, 12)) {
                n.interrupted++;
                throw error_t(EINTR);
            }
            wait(l, deadline_ns);
        }
    }
    void forbid() { _forbidden = true; } // harness: nobody may touch this socket from now on
    void allow() { _forbidden = false; }
    bool mid_message() const { return !_parts.empty(); }

private:
    friend struct sim::Conn;
    struct Use
    {
        socket_t &s;
        Use(socket_t &s, const char *what) : s(s)
        {
            if (s._forbidden) ksim::fail("socket-after-stop", "%s on a socket the component should have let go", what);
            ksim::NoPreempt np;
            if (s._user >= 0 && s._user != ksim::self())
                ksim::fail("socket-shared", "%s by thread %d while thread %d uses the same socket: ZeroMQ sockets are not thread safe", what, ksim::self(), s._user);
            s._user = ksim::self();
            s._depth++;
        }
        ~Use()
        {
            ksim::NoPreempt np;
            if (--s._depth == 0) s._user = -1;
        }
    };
    static void link(socket_t *pub, socket_t *sub)
    {
        std::unique_ptr<sim::Conn> c(new sim::Conn);
        c->pub = pub;
        c->sub = sub;
        sim::net().conns.push_back(std::move(c));
    }
    sim::Conn *ready()
    {
        sim::Conn *r[16];
        int k = 0;
        for (auto &c : sim::net().conns)
            if (c->sub == this && !c->q.empty() && c->q.front().at <= ksim::now_ns() && k < 16) r[k++] = c.get();
        return k ? r[k > 1 ? ksim::choose(k) : 0] : nullptr;
    }
    void wait(std::unique_lock<std::mutex> &l, int64_t deadline)
    {
        int64_t until = deadline;
        for (auto &c : sim::net().conns)
            if (c->sub == this && !c->q.empty() && c->q.front().at < until) until = c->q.front().at;
        if (until == INT64_MAX)
            sim::net().cv.wait(l);
        else {
            int64_t d = until - ksim::now_ns();
            sim::net().cv.wait_for(l, std::chrono::nanoseconds(d > 0 ? d : 1));
        }
    }
    void put(const char *d, size_t len, bool more)
    {
        ksim::point();
        sim::NoAllocFaults na;
        _parts.emplace_back(d ? d : "", len);
        if (more) return;
        sim::Net &n = sim::net();
        std::lock_guard<std::mutex> l(n.m);
        n.sent++;
        for (auto &c : n.conns) {
            if (c->pub != this) continue;
            bool match = false;
            for (auto &s : c->sub->_subs)
                if (_parts[0].compare(0, s.size(), s) == 0) match = true;
            if (!match) continue;
            int64_t now = ksim::now_ns();
            if (!n.lossless) {
                if (c->down_until > now) {
                    n.lost++;
                    continue;
                }
                if (ksim::fault(ksim::F_PARTITION, 1, 10)) {
                    c->down_until = now + 1000000 * (1 + ksim::fault_val(ksim::F_PARTITION, 200));
                    c->q.clear();
                    n.lost++;
                    continue;
                }
                if (c->q.size() >= n.hwm || ksim::fault(ksim::F_MSGLOSS, 1, 5)) {
                    n.lost++;
                    continue;
                }
            }
            int64_t at = now;
            if (ksim::fault(ksim::F_NETDELAY, 1, 3)) {
                at += 1000 * (1 + ksim::fault_val(ksim::F_NETDELAY, 1 << ksim::fault_val(ksim::F_NETDELAY, 19)));
                n.delayed++;
            }
            if (at < c->last_at) at = c->last_at;
            c->last_at = at;
            c->q.push_back({_parts, at});
        }
        _parts.clear();
        n.cv.notify_all();
    }
    bool more()
    {
        Use u(*this, "getsockopt");
        return !_in.empty();
    }
    int _type;
    bool _closed = false, _forbidden = false;
    int _user = -1, _depth = 0;
    std::vector<std::string> _subs, _parts;
    std::deque<std::string> _in;
};

struct pollitem_t
{
    void *socket;
    int fd;
    short events;
    short revents;
};

inline int poll(pollitem_t *items, size_t nitems, long timeout = -1)
{
    int64_t dl = timeout < 0 ? INT64_MAX : ksim::now_ns() + timeout * 1000000;
    int n = 0;
    if (nitems == 1) {
        bool r = static_cast<socket_t *>(items[0].socket)->wait_readable(dl);
        items[0].revents = r ? ZMQ_POLLIN : 0;
        return r ? 1 : 0;
    }
    // several items: look at each in turn, a millisecond at a time (one is all that kpsr-core polls today)
    for (;;) {
        int64_t now = ksim::now_ns();
        for (size_t i = 0; i < nitems; i++) {
            items[i].revents = 0;
            if ((items[i].events & ZMQ_POLLIN) && static_cast<socket_t *>(items[i].socket)->wait_readable(now)) {
                items[i].revents = ZMQ_POLLIN;
                n++;
            }
        }
        if (n || now >= dl) return n;
        ksim::advance(1000000);
    }
}
inline int poll(pollitem_t *items, size_t nitems, std::chrono::milliseconds t) { return poll(items, nitems, (long) t.count()); }
inline int poll(std::vector<pollitem_t> &items, long timeout = -1) { return poll(items.data(), items.size(), timeout); }
inline int poll(std::vector<pollitem_t> &items, std::chrono::milliseconds t) { return poll(items.data(), items.size(), (long) t.count()); }
template<size_t N> int poll(std::array<pollitem_t, N> &items, std::chrono::milliseconds t) { return poll(items.data(), N, (long) t.count()); }
} // namespace zmq
