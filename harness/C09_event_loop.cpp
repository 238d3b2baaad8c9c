// C09: event loop delivery: accepted events once, in order per publisher, one callback at a time, discards counted.
#include "test_container.h"
#include <klepsydra/high_performance/event_loop_middleware_provider.h>

namespace {
using namespace kpsr::high_performance;

struct Pub
{
    int name;
    bool shared;
    int64_t sent = 0, accepted = 0;
    std::vector<std::pair<int64_t, int64_t>> ok; // accepted (src, seq), when known
};
struct Lis
{
    int name;
    bool full = true; // registered from before the first publish until the end
    std::map<int64_t, int64_t> last;
    int64_t count = 0;
    std::set<std::pair<int64_t, int64_t>> seen;
    uint64_t reg_end = 0, rm_begin = UINT64_MAX, rm_end = UINT64_MAX;
};
template<std::size_t N>
void loop()
{
    std_faults();
    typedef EventLoopMiddlewareProvider<N> Prov;
    bool usebox = ksim::chance(1, 3);
    int nn = ksim::range(1, 2);       // event names
    int nt = ksim::range(1, 3);       // publishing threads
    int per = sized(large_run(), 1, 5, 60);
    bool shared = ksim::choose(2);    // threads share the publisher of a name
    int pool[2] = {ksim::choose(3), ksim::choose(3)};
    bool reent = ksim::chance(1, 4), dyn = ksim::chance(1, 3), slow = ksim::chance(1, 3);
    bool unsafe_mode = ksim::chance(1, 4), af = ksim::chance(1, 4);
    if (af) ksim::enable(ksim::F_BADALLOC, 1000);
    auto emtype = ksim::chance(1, 4) ? kpsr::EventEmitterType::UNSAFE_MULTI : kpsr::EventEmitterType::SAFE;
    if (!shared && nt > nn) nn = nt; // a name of its own for each thread
    if (emtype != kpsr::EventEmitterType::SAFE) dyn = false;
    pooled(pool[0] || pool[1]);
    ksim::describe("buffer=%zu names=%d threads=%d x%d%s pool=%d,%d%s%s%s%s", N, nn, nt, per, shared ? " shared" : "", pool[0],
                   pool[1], reent ? " reentrant" : "", dyn ? " dynamic" : "", usebox ? " container" : "",
                   emtype == kpsr::EventEmitterType::SAFE ? "" : " unsafe-multi");
    TestContainer box;
    {
        std::unique_ptr<Prov> pp(new Prov(usebox ? &box : nullptr, "loop", 100000000));
        Prov &prov = *pp;
        static const char *names[] = {"a", "event name longer than a small string", "c"};
        kpsr::Publisher<Ev> *pubs[3];
        EventLoopPublisher<Ev, N> *elp[3];
        kpsr::Subscriber<Ev> *subs[3];
        std::deque<Lis> ls;
        bool in = false;
        int loop_thread = -1;
        int re_left = reent ? 4 : 0;
        int64_t re_sent = 0;
        for (int i = 0; i < nn; i++) {
            pubs[i] = prov.template getPublisher<Ev>(names[i], pool[i & 1], nullptr, nullptr, unsafe_mode);
            elp[i] = dynamic_cast<EventLoopPublisher<Ev, N> *>(pubs[i]);
            subs[i] = prov.template getSubscriber<Ev>(names[i], emtype);
        }
        auto reg = [&](int name, bool full, bool sharedptr) {
            ls.emplace_back();
            Lis *l = &ls.back();
            l->name = name;
            l->full = full;
            auto cb = [&, l](const Ev &e) {
                {
                    ksim::NoPreempt np;
                    CHECK("loop-overlap", !in, "two callbacks at once");
                    in = true;
                    if (loop_thread < 0) loop_thread = ksim::self();
                    CHECK("loop-thread", loop_thread == ksim::self(), "a callback ran on another thread");
                }
                e.check("listener");
                int64_t src = e.src, q = e.seq;
                {
                    ksim::NoPreempt np;
                    CHECK("loop-name", src / 100 == l->name, "an event of %s reached a listener of %s", names[src / 100],
                          names[l->name]);
                    CHECK("loop-double", l->seen.insert({src, q}).second, "event %lld/%lld delivered twice", (long long) src,
                          (long long) q);
                    CHECK("loop-order", l->last[src] < q, "event %lld of a publisher came after %lld", (long long) q,
                          (long long) l->last[src]);
                    l->last[src] = q;
                }
                if (slow) ksim::advance(ksim::choose(4) * 2000);
                if (re_left > 0 && l->full && ksim::choose(2)) {
                    re_left--;
                    re_sent++;
                    pubs[l->name]->publish(Ev(l->name * 100 + 50, re_sent));
                }
                e.check("listener");
                CHECK("loop-content", e.src == src && e.seq == q, "the event changed during the callback");
                in = false;
                l->count++; // last: main stops the loop once all counts are reached
            };
            std::string ln = "l" + std::to_string(ls.size());
            if (sharedptr)
                dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(subs[name])
                    ->registerSharedPtrListener(ln, [cb](const std::shared_ptr<const Ev> &e) { cb(*e); });
            else
                subs[name]->registerListener(ln, cb);
            l->reg_end = ksim::step();
            return ls.size() - 1;
        };
        for (int i = 0; i < nn; i++)
            for (int k = ksim::range(1, 2); k > 0; k--)
                reg(i, true, ksim::chance(1, 4));
        prov.start();
        struct Rec
        {
            int64_t src, q;
            uint64_t begin, end;
            int acc; // 1 accepted, 0 discarded, -1 unknown
        };
        std::vector<Rec> recs;
        std::vector<std::weak_ptr<const Ev>> given;
        int64_t sent[3] = {};
        Threads t;
        for (int i = 0; i < nt; i++)
            t.go([&, i] {
                int name = shared ? i % nn : i;
                int64_t src = name * 100 + 1 + i;
                for (int64_t q = 1; q <= per; q++) {
                    uint64_t b = ksim::step();
                    int64_t d0 = elp[name]->_discardedMessages;
                    bool failed = false;
                    try {
                        std::shared_ptr<const Ev> own;
                        Ev e(src, q);
                        int how = ksim::choose(3);
                        if (how == 1) {
                            own = std::make_shared<Ev>(src, q);
                            ksim::NoPreempt np;
                            given.push_back(own);
                        }
                        ksim::alloc_faults(af);
                        switch (how) {
                        case 0: pubs[name]->publish(e); break;
                        case 1: pubs[name]->publish(own); break;
                        default: pubs[name]->processAndPublish([&](Ev &e) { e.fill(src, q); });
                        }
                    } catch (const std::bad_alloc &) {
                        failed = true;
                        ksim::probe("publish_without_memory");
                    }
                    ksim::alloc_faults(false);
                    ksim::NoPreempt np;
                    if (failed) {
                        recs.push_back({src, q, b, ksim::step(), 0});
                        continue;
                    }
                    int64_t d = elp[name]->_discardedMessages - d0;
                    bool own = !shared && !reent;
                    if (own) CHECK("loop-discard", d == 0 || d == 1, "one publish counted %lld discards", (long long) d);
                    if (own && d) ksim::probe("discarded");
                    recs.push_back({src, q, b, ksim::step(), own ? (int) (1 - d) : -1});
                    sent[name]++;
                    if (ksim::chance(1, 3)) { ksim::point(); }
                }
            });
        if (dyn)
            for (int k = ksim::range(1, 3); k > 0; k--) {
                if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 1000);
                int n = ksim::choose(nn);
                size_t x = reg(n, false, ksim::choose(2));
                if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 1000);
                if (ksim::choose(2)) {
                    ls[x].rm_begin = ksim::step();
                    subs[n]->removeListener("l" + std::to_string(x + 1));
                    ls[x].rm_end = ksim::step();
                }
            }
        t.join();
        ksim::quiet();
        auto done = [&] {
            ksim::NoPreempt np;
            for (auto &l : ls)
                if (l.full && pubs[l.name]->publicationStats.totalProcessed - (int64_t) elp[l.name]->_discardedMessages > l.count)
                    return false;
            return true;
        };
        while (!done()) ksim::advance(20000);
        prov.stop();
        for (auto &w : given)
            CHECK("loop-release", w.expired(), "an event that every listener is done with is still held (%ld references)", w.use_count());
        for (auto &l : ls) {
            int64_t acc = pubs[l.name]->publicationStats.totalProcessed - (int64_t) elp[l.name]->_discardedMessages;
            if (l.full)
                CHECK("loop-count", l.count == acc, "a listener got %lld events; %ld published, %llu counted as discarded",
                      (long long) l.count, pubs[l.name]->publicationStats.totalProcessed.load(), elp[l.name]->_discardedMessages);
            else
                CHECK("loop-count", l.count <= acc, "more deliveries than accepted events");
            for (auto &r : recs) {
                if (r.src / 100 != l.name) continue;
                bool got = l.seen.count({r.src, r.q});
                if (r.acc == 0) CHECK("loop-discard", !got, "a discarded event was delivered");
                if (r.acc == 1 && l.full) CHECK("loop-lost", got, "event %lld/%lld was accepted but not delivered",
                                                (long long) r.src, (long long) r.q);
                if (r.acc == 1 && !l.full && l.reg_end < r.begin && l.rm_begin == UINT64_MAX)
                    CHECK("loop-lost", got, "event %lld/%lld missed a listener registered before it", (long long) r.src,
                          (long long) r.q);
                if (l.rm_end < r.begin) CHECK("loop-removed", !got, "an event was delivered to a removed listener");
            }
        }
        pp.reset();
    }
    CHECK("container-use", box.att.empty(), "%zu statistics still attached", box.att.size());
}
// Many event names and event types on one loop, names alike in all ways: each listener gets the events of its own name.
void names()
{
    std_faults();
    typedef EventLoopMiddlewareProvider<8> Prov;
    static const char *const all[] = {"e", "e_external", "e_external_external", "e_", "_e", "E", "e1", "e10", "e1_2", "e1_2_3",
                                      "an event name longer than a small string", "an event name longer than a small string2",
                                      "an event name longer than a small strinh", "name with blanks", "EVENTLOOP", "x/y", "x.y", "x"};
    const int NA = sizeof all / sizeof *all;
    std::vector<std::string> n(all, all + NA);
    for (size_t i = n.size() - 1; i > 0; i--)
        std::swap(n[i], n[ksim::choose((int) i + 1)]);
    n.resize(ksim::range(1, NA));
    ksim::describe("%zu names", n.size());
    Prov prov(nullptr, "loop", 100000000);
    struct Other
    {
        int64_t a;
    };
    std::vector<kpsr::Publisher<Ev> *> pubs;
    std::vector<int64_t> sent, want;
    std::deque<std::atomic<int64_t>> got;
    pooled(true);
    auto get = [&](size_t i) { return prov.getPublisher<Ev>(n[i], ksim::choose(2), nullptr, nullptr); };
    std::atomic<int64_t> others{0};
    bool late = ksim::choose(2);
    if (late) prov.start();
    for (size_t i = 0; i < n.size(); i++) {
        pubs.push_back(get(i));
        sent.push_back(0);
        want.push_back(0);
        got.emplace_back(0);
        CHECK("loop-name", prov.getSubscriber<Ev>(n[i]) == prov.getSubscriber<Ev>(n[i]), "two subscribers for \"%s\"", n[i].c_str());
        std::atomic<int64_t> *g = &got.back();
        prov.getSubscriber<Ev>(n[i])->registerListener("l", [=, &n](const Ev &e) {
            e.check("listener");
            CHECK("loop-name", e.src == (int64_t) i, "an event of \"%s\" reached a listener of \"%s\"", n[e.src].c_str(), n[i].c_str());
            CHECK("loop-order", e.seq == *g + 1, "event %lld after %lld", (long long) e.seq, (long long) *g);
            ++*g;
        });
    }
    prov.getSubscriber<Other>("other type")->registerListener("l", [&](const Other &o) { others += o.a; });
    if (!late) prov.start();
    auto *op = prov.getPublisher<Other>("other type", 2, nullptr, nullptr);
    int64_t osum = 0;
    for (int k = sized(large_run(), 1, 30, 300); k > 0; k--) {
        size_t i = ksim::choose((int) n.size());
        CHECK("loop-name", get(i) == pubs[i], "two publishers for \"%s\"", n[i].c_str());
        auto *p = dynamic_cast<EventLoopPublisher<Ev, 8> *>(pubs[i]);
        int64_t d0 = p->_discardedMessages;
        pubs[i]->publish(Ev((int64_t) i, sent[i] + 1));
        if ((int64_t) p->_discardedMessages == d0) sent[i]++;
        if (ksim::chance(1, 5)) {
            auto *o = dynamic_cast<EventLoopPublisher<Other, 8> *>(op);
            int64_t d = o->_discardedMessages;
            op->publish(Other{k * 1000});
            if ((int64_t) o->_discardedMessages == d) osum += k * 1000;
        }
        if (ksim::chance(1, 4)) ksim::advance(10000);
    }
    ksim::quiet();
    auto done = [&] {
        ksim::NoPreempt np;
        for (size_t i = 0; i < n.size(); i++)
            if (got[i] < sent[i]) return false;
        return others >= osum;
    };
    while (!done())
        ksim::advance(20000);
    prov.stop();
    for (size_t i = 0; i < n.size(); i++)
        CHECK("loop-count", got[i] == sent[i], "\"%s\" got %lld of %lld events", n[i].c_str(), (long long) got[i], (long long) sent[i]);
    CHECK("loop-count", others == osum, "events of the other type arrived twice");
}
// Memory runs out while a loop is set up, used and torn down: what failed has left nothing behind and works when repeated.
void scarce()
{
    std_faults();
    typedef EventLoopMiddlewareProvider<8> Prov;
    bool use_box = ksim::choose(2);
    int nn = ksim::range(1, 3), tries = 0, failed = 0, pool = ksim::choose(3);
    auto emtype = ksim::chance(1, 4) ? kpsr::EventEmitterType::UNSAFE_MULTI : kpsr::EventEmitterType::SAFE;
    bool sched = ksim::choose(2), late = ksim::choose(2);
    ksim::describe("scarce names=%d%s%s%s", nn, use_box ? " container" : "", sched ? " scheduler" : "", late ? " started first" : "");
    ksim::enable(ksim::F_BADALLOC, 1000);
    pooled(pool != 0);
    TestContainer box;
    // repeats f until memory suffices
    auto persist = [&](const std::function<void()> &f, size_t slack = 0) {
        for (int k = 0;; k++) {
            size_t had = box.att.size();
            try {
                ksim::alloc_faults(k < 6);
                f();
                ksim::alloc_faults(false);
                return;
            } catch (const std::bad_alloc &) {
                ksim::alloc_faults(false);
                failed++;
            }
            CHECK("container-use", box.att.size() >= had && box.att.size() <= had + slack, "an operation that failed left %zu statistics attached instead of %zu",
                  box.att.size(), had);
        }
    };
    static const char *names[] = {"a", "event name longer than a small string", "a_external"};
    std::unique_ptr<Prov> prov(new Prov(use_box ? &box : nullptr, "loop", 100000000));
    kpsr::Publisher<Ev> *pubs[3];
    kpsr::Subscriber<Ev> *subs[3];
    std::atomic<int64_t> got[3];
    for (auto &g : got) g = 0;
    int64_t sent[3] = {};
    std::atomic<int> ran{0};
    kpsr::Scheduler *sc = nullptr;
    if (late) prov->start();
    for (int i = 0; i < nn; i++) {
        bool first = ksim::choose(2);
        auto pub = [&] {
            persist([&] { pubs[i] = prov->getPublisher<Ev>(names[i], pool, nullptr, nullptr); });
            CHECK("loop-name", prov->getPublisher<Ev>(names[i], pool, nullptr, nullptr) == pubs[i], "two publishers for one name");
        };
        if (first) pub();
        persist([&] { subs[i] = prov->getSubscriber<Ev>(names[i], emtype); });
        CHECK("loop-name", prov->getSubscriber<Ev>(names[i], emtype) == subs[i], "two subscribers for one name");
        if (!first) pub();
        persist([&] {
            subs[i]->registerListener("a listener with a long name", [&got, i](const Ev &e) {
                ksim::AllocPause ap;
                e.check("listener");
                CHECK("loop-name", e.src == i, "an event of %s reached a listener of %s", names[e.src], names[i]);
                CHECK("loop-order", e.seq == got[i] + 1, "event %lld after %lld", (long long) e.seq, (long long) got[i]);
                got[i]++;
            });
        });
    }
    if (sched) {
        persist([&] { sc = prov->getScheduler("a scheduler with a long name"); }, 2); // may have got halfway
        CHECK("loop-name", prov->getScheduler("a scheduler with a long name") == sc, "two schedulers");
    }
    size_t want = use_box ? nn * 3 + (sched ? 2 : 0) : 0;
    CHECK("container-use", box.att.size() == want, "%zu statistics attached, %zu expected", box.att.size(), want);
    if (!late) prov->start();
    for (int i = 0; i < nn; i++)
        for (int k = ksim::range(1, 3); k > 0; k--) {
            auto *p = dynamic_cast<EventLoopPublisher<Ev, 8> *>(pubs[i]);
            Ev e(i, sent[i] + 1);
            for (bool done = false; !done; ksim::advance(10000)) {
                int64_t d0 = p->_discardedMessages;
                try {
                    ksim::alloc_faults(tries++ < 20);
                    pubs[i]->publish(e);
                    ksim::alloc_faults(false);
                    done = (int64_t) p->_discardedMessages == d0;
                } catch (const std::bad_alloc &) {
                    ksim::alloc_faults(false);
                    failed++;
                }
            }
            sent[i]++;
        }
    ksim::quiet();
    for (int i = 0; i < nn; i++)
        while (got[i] < sent[i]) ksim::advance(20000);
    if (sched) sc->startScheduledTask("once", 10, false, [&] { ran++; }); // the ring has room for it
    if (sched)
        while (!ran) ksim::advance(20000);
    ksim::advance(1000000);
    ksim::unquiet();
    prov->stop();
    if (failed) ksim::probe("retried_without_memory");
    ksim::alloc_faults(true); // nobody can do anything about a destructor that fails
    prov.reset();
    ksim::alloc_faults(false);
    for (int i = 0; i < nn; i++)
        CHECK("loop-count", got[i] == sent[i], "a listener got %lld of %lld events", (long long) got[i], (long long) sent[i]);
    CHECK("loop-count", ran == (sched ? 1 : 0), "a task ran %d times", (int) ran);
    CHECK("container-use", box.att.empty(), "%zu statistics still attached", box.att.size());
}
} // namespace
KSIM_SCENARIO(scarce, 10) { scarce(); }
KSIM_SCENARIO(many_names, 10) { names(); }
KSIM_SCENARIO(buffer4, 60) { loop<4>(); }
KSIM_SCENARIO(buffer2, 20) { loop<2>(); }
KSIM_SCENARIO(buffer8, 20) { loop<8>(); }
