// C19: descriptors are owned: closed exactly once whatever fails, and failures are reported.
#include "sock_common.h"
using namespace socktest;

namespace {
struct Obj
{
    std::unique_ptr<ServerSocket> srv;
    std::unique_ptr<ConnectSocket> con;
    std::shared_ptr<DataSocket> dat; // accepted, or moved from one
    bool holds = true;
    int port = 0;
    BaseSocket *base() { return srv ? (BaseSocket *) srv.get() : con ? (BaseSocket *) con.get() : (BaseSocket *) dat.get(); }
    DataSocket *data() { return con ? con.get() : dat.get(); }
};

struct Peek : BaseSocket
{
    static int fd(BaseSocket &b) { return (b.*(&Peek::getSocketId))(); }
};
struct World
{
    std::list<Obj> objs;
    bool shared = false; // other threads use the same descriptor table
    bool alloc = false;
    int ports = 2, first_port = 7000;

    int held()
    {
        int n = 0;
        for (auto &o : objs)
            n += o.holds;
        return n;
    }
    void audit(const char *op)
    {
        if (shared) return;
        CHECK("descriptor-leak", ksim::net::open_fd_count() == held(), "after %s %d descriptors are open, the living objects hold %d", op,
              ksim::net::open_fd_count(), held());
    }
    // runs one operation; true when it did not throw
    template<class F>
    bool attempt(const char *op, bool valid, int64_t may_time_out, F f)
    {
        auto &st = ksim::net::stats();
        int64_t failed = st.failed, hard = st.hard_failed, t0 = ksim::now_ns();
        bool nomem = false, threw = false;
        ksim::alloc_faults(alloc);
        try {
            f();
        } catch (std::bad_alloc &) {
            threw = nomem = true;
            ksim::probe("bad-alloc");
        } catch (std::exception &e) {
            threw = true;
        }
        ksim::alloc_faults(false);
        if (threw) ksim::probe("operation-failed");
        if (!valid) CHECK("socket-error", threw, "%s on a closed or moved-from socket was not refused", op);
        if (shared) return !threw;
        if (threw && valid && !nomem)
            CHECK("socket-error", st.failed > failed || (may_time_out && ksim::now_ns() - t0 >= may_time_out * 1000000000ll) || refused,
                  "%s reports an error but nothing failed", op);
        if (!threw)
            CHECK("socket-error", st.hard_failed == hard, "a system call failed in %s and nobody was told", op);
        refused = false;
        return !threw;
    }
    bool refused = false;
    Obj *any(int kind) // 0 any, 1 server, 2 data
    {
        std::vector<Obj *> v;
        for (auto &o : objs)
            if (kind == 0 || (kind == 1) == (bool) o.srv) v.push_back(&o);
        return v.empty() ? nullptr : v[ksim::choose((int) v.size())];
    }
    void drop(Obj *p)
    {
        for (auto i = objs.begin(); i != objs.end(); ++i)
            if (&*i == p) {
                objs.erase(i);
                return;
            }
    }
    void step()
    {
        bool tcp = mixed ? ksim::choose(2) : true;
        int port = first_port + ksim::choose(ports);
        std::string path = "/ksim/p" + std::to_string(port);
        Obj n;
        Obj *o;
        switch (ksim::choose(14)) {
        case 0:
        case 1:
            n.port = port;
            if (attempt("a server constructor", true, 0, [&] { n.srv.reset(tcp ? new ServerSocket(port) : new ServerSocket(path)); }))
                objs.push_back(std::move(n));
            audit("a server constructor");
            break;
        case 2:
        case 3:
            if (attempt("a connect constructor", true, 0,
                        [&] { n.con.reset(tcp ? new ConnectSocket("127.0.0.1", port) : new ConnectSocket(path)); })) {
                ksim::probe("connected");
                objs.push_back(std::move(n));
            }
            audit("a connect constructor");
            break;
        case 4:
        case 5:
            if (!(o = any(1))) break;
            refused = high;
            if (attempt("accept", o->holds, 1, [&] { n.dat = o->srv->accept(1); })) {
                ksim::probe("accepted");
                objs.push_back(std::move(n));
            }
            audit("accept");
            break;
        case 6:
            if (!(o = any(2))) break;
            if (ksim::choose(3))
                attempt("putMessageData", o->holds, 0, [&] { o->data()->putMessageData("0123456789", 1 + ksim::choose(10)); });
            else
                attempt("putMessageClose", o->holds, 0, [&] { o->data()->putMessageClose(); });
            audit("a transfer");
            break;
        case 7:
            if (!(o = any(0))) break;
            ksim::probe("explicit-close");
            if (o->holds) {
                bool ok = attempt("close", true, 0, [&] { o->base()->close(); });
                if (!ok && !shared && alloc && ksim::net::open_fd_count() == held()) break; // failed before closing
                o->holds = false;
            } else
                attempt("close", false, 0, [&] { o->base()->close(); });
            audit("close");
            break;
        case 8: { // move construction
            if (!(o = any(0))) break;
            ksim::probe("move-construction");
            bool h = o->holds;
            n.port = o->port;
            if (o->srv)
                n.srv.reset(new ServerSocket(std::move(*o->srv)));
            else if (o->con)
                n.con.reset(new ConnectSocket(std::move(*o->con)));
            else
                n.dat.reset(new DataSocket(std::move(*o->dat)));
            n.holds = h;
            o->holds = false;
            objs.push_back(std::move(n));
            audit("move construction");
            break;
        }
        case 9: { // move assignment, swap
            Obj *a = any(0), *b = any(0);
            if (!a || (bool) a->srv != (bool) b->srv || (bool) a->con != (bool) b->con) break;
            ksim::probe("move-assignment");
            int before = held();
            bool sw = ksim::choose(2), ah = a->holds, bh = b->holds;
            if (sw)
                a->base()->swap(*b->base());
            else if (a->srv)
                *a->srv = std::move(*b->srv);
            else if (a->con)
                *a->con = std::move(*b->con);
            else
                *a->dat = std::move(*b->dat);
            if (!shared)
                CHECK("descriptor-leak", ksim::net::open_fd_count() == before || (!sw && ksim::net::open_fd_count() == before - 1 && a != b && ah),
                      "%d descriptors open after a move between holders of %d", ksim::net::open_fd_count(), before);
            // the assigned-to object has the other's descriptor; what it had before is closed at once or when the source dies
            a->holds = bh;
            b->holds = ah;
            if (!sw && a != b) {
                drop(b);
                ah = false;
            }
            audit("a move and the end of the source");
            break;
        }
        case 12: { // addresses that do not fit: another address is not what was asked for
            ksim::probe("bad-address");
            std::string longpath = path + std::string(108 - path.size() + ksim::choose(3), 'x');
            int badport = ksim::choose(2) ? port + 65536 : port - 65536;
            switch (ksim::choose(4)) {
            case 0: attempt("a server on a path too long", false, 0, [&] { ServerSocket x(longpath); }); break;
            case 1: attempt("a server on no port", false, 0, [&] { ServerSocket x(badport); }); break;
            case 2: attempt("a connection to a path too long", false, 0, [&] { ConnectSocket x(longpath); }); break;
            default: attempt("a connection to no port", false, 0, [&] { ConnectSocket x("127.0.0.1", badport); });
            }
            if (ksim::choose(4) == 0) attempt("a socket of no descriptor", false, 0, [&] { DataSocket x(-1); });
            audit("a refused address");
            break;
        }
        case 13: { // read what is there
            if (!(o = any(2)) || !o->holds) break;
            int a = ksim::net::available(Peek::fd(*o->base()));
            if (a < 0 || shared) break;
            char buf[64];
            size_t want = a ? 1 + ksim::choose(std::min(a, 60)) : 1 + ksim::choose(60);
            attempt("getMessageData", true, 0, [&] {
                size_t r = o->data()->getMessageData(buf, want, [&](std::size_t n) { return n == want; });
                CHECK("socket-data", r <= want, "%zu bytes read into a buffer of %zu", r, want);
            });
            ksim::probe("read-available");
            audit("a read");
            break;
        }
        case 10:
        case 11:
            if (!(o = any(0))) break;
            drop(o);
            audit("a destructor");
            break;
        }
    }
    bool high = false, mixed = false;
    // a socket that holds a descriptor is usable, any other refuses
    void sweep()
    {
        for (auto &o : objs)
            if (!o.holds) {
                if (o.srv)
                    attempt("accept", false, 0, [&] { o.srv->accept(1); });
                else
                    switch (ksim::choose(3)) {
                    case 0: attempt("putMessageData", false, 0, [&] { o.data()->putMessageData("x", 1); }); break;
                    case 1: attempt("putMessageClose", false, 0, [&] { o.data()->putMessageClose(); }); break;
                    case 2: {
                        char c;
                        attempt("getMessageData", false, 0, [&] { o.data()->getMessageData(&c, 1, [](std::size_t) { return false; }); });
                    }
                    }
            }
    }
};
void faults(World &w)
{
    ksim::enable(ksim::F_SYSFAIL, 450);
    ksim::enable(ksim::F_EINTR, 300);
    ksim::enable(ksim::F_EAGAIN, 200);
    ksim::enable(ksim::F_CONNRESET, 300);
    ksim::enable(ksim::F_MEMREUSE, 300);
    if (ksim::chance(1, 4)) {
        ksim::enable(ksim::F_BADALLOC, 800);
        w.alloc = true;
    }
}
void alone()
{
    ksim::net::init();
    World w;
    w.high = ksim::chance(1, 10);
    if (w.high)
        ksim::net::set_base_fd(1023 + ksim::choose(3));
    else
        ksim::net::open_std_fds(!ksim::chance(1, 6));
    w.ports = ksim::range(1, 3);
    w.mixed = ksim::chance(1, 3);
    faults(w);
    int ops = sized(large_run(), 2, 24, 200);
    ksim::describe("ops=%d%s%s", ops, w.high ? " many-descriptors" : "", w.alloc ? " alloc-failure" : "");
    for (int k = 0; k < ops; k++)
        w.step();
    w.sweep();
    w.objs.clear();
    CHECK("descriptor-leak", ksim::net::open_fd_count() == 0, "every owner is gone and %d descriptors are open", ksim::net::open_fd_count());
}
// several threads with sockets of their own: nobody closes what is not his
void together()
{
    std_faults();
    ksim::net::init();
    World w;
    Pair canary = make_pair_(true, 0);
    int nt = ksim::range(2, 3), ops = ksim::range(2, 8);
    ksim::describe("threads=%d ops=%d", nt, ops);
    faults(w);
    {
        Threads t;
        for (int i = 0; i < nt; i++)
            t.go([&, i] {
                World me;
                me.shared = true;
                me.ports = 1;
                me.first_port = 7000 + i * 10;
                for (int k = 0; k < ops; k++)
                    me.step();
            });
        t.join();
    }
    ksim::quiet();
    CHECK("descriptor-leak", ksim::net::open_fd_count() == 2, "%d descriptors open, 2 are in use", ksim::net::open_fd_count());
    if (!ksim::net::stats().broken) {
        try {
            char b[4] = {0};
            canary.cli->putMessageData("abc", 3);
            CHECK("socket-data", canary.srv->getMessageData(b, 3, [](std::size_t) { return false; }) == 3 && !strcmp(b, "abc"),
                  "an untouched connection does not carry data any more");
        } catch (std::exception &e) {
            ksim::fail("socket-error", "an untouched connection fails: %s", e.what());
        }
    }
}
} // namespace
KSIM_SCENARIO(alone, 75) { alone(); }
KSIM_SCENARIO(together, 25) { together(); }
