// C31: what the statistics of listeners and publishers say is what happened.
#include "mem_common.h"
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>

namespace {
using namespace kpsr::high_performance;
struct Box : TestContainer
{
    using TestContainer::attach;
    using TestContainer::detach;
    std::map<std::string, kpsr::SubscriptionStats *> sub;
    void attach(kpsr::SubscriptionStats *s) override
    {
        TestContainer::attach(s);
        ksim::NoPreempt np;
        sub[s->name] = s;
    }
};
struct Pubd
{
    int64_t begin = 0, end = -1; // simulated time of the publish call; -1: it has not returned
};
struct Lis
{
    std::string name;
    kpsr::SubscriptionStats *st = nullptr;
    int64_t calls = 0, total = 0;
    bool slow = false, active = true;
    int64_t *returned = nullptr; // when the thread that calls it was last done with a listener
};
struct World
{
    Box box;
    std::map<std::pair<int64_t, int64_t>, Pubd> book;
    std::deque<Lis> ls;
    std::deque<int64_t> threads;
    int64_t lo_sum = 0, hi_sum = 0; // for the first listener
    bool direct = false;
    int64_t heard = 0;

    std::shared_ptr<kpsr::SubscriptionStats> stats(kpsr::Subscriber<Ev> *s, const std::string &n)
    {
        return dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(s)->getSubscriptionStats(n);
    }
    Lis *listen(kpsr::Subscriber<Ev> *s, const std::string &name, int64_t *returned)
    {
        ls.emplace_back();
        Lis *l = &ls.back();
        l->name = name;
        l->slow = ksim::chance(1, 2);
        l->returned = returned;
        auto cb = [this, l](const Ev &e) { called(*l, e); };
        if (ksim::choose(2)) s->registerListener(name, cb);
        else dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(s)->registerSharedPtrListener(name, [cb](const std::shared_ptr<const Ev> &e) { cb(*e); });
        auto st = stats(s, name);
        CHECK("stats-kept", st && box.att.count(static_cast<kpsr::SubscriptionStats *>(st.get())), "the statistics of %s are not attached to the container", name.c_str());
        CHECK("stats-kept", st->totalEnqueuedTimeInNs == 0 && st->measureStarts == 0 && st->totalProcessed == 0 && st->totalDiscardedEvents == 0,
              "the statistics of a new listener do not start at nothing");
        l->st = st.get();
        return l;
    }
    void remove(kpsr::Subscriber<Ev> *s, Lis *l)
    {
        auto st = stats(s, l->name);
        CHECK("stats-kept", st && st.get() == l->st, "%s has other statistics now", l->name.c_str());
        CHECK("stats-calls", st->totalProcessed == l->calls, "%ld of %lld calls were measured", st->totalProcessed.load(), (long long) l->calls);
        s->removeListener(l->name);
        CHECK("stats-calls", st->totalProcessed == l->calls && (int64_t) st->totalEnqueuedTimeInNs == l->total, "removing a listener changed its statistics");
        l->active = false;
    }
    void called(Lis &l, const Ev &e)
    {
        {
            ksim::NoPreempt np;
            int64_t now = ksim::now_ns(), total = l.st->totalEnqueuedTimeInNs;
            Pubd &p = book[{e.src, e.seq}];
            int64_t lo = p.end < 0 ? 0 : std::max<int64_t>(0, *l.returned - p.end), hi = now - p.begin, d = total - l.total;
            if (direct) lo = hi = 0;
            CHECK("stats-waited", d >= lo && d <= hi, "event %lld/%lld waited between %lld and %lld ns, the statistics of %s say %lld", (long long) e.src,
                  (long long) e.seq, (long long) lo, (long long) hi, l.name.c_str(), (long long) d);
            if (lo > 1000) ksim::probe("waited");
            l.total = total;
            l.calls++;
            heard++;
            if (&l == &ls.front()) {
                lo_sum += lo;
                hi_sum += hi;
            }
            CHECK("stats-calls", l.st->measureStarts == l.calls && l.st->totalProcessed == l.calls - 1, "call %lld of %s: %ld measures were begun and %ld finished",
                  (long long) l.calls, l.name.c_str(), l.st->measureStarts.load(), l.st->totalProcessed.load());
        }
        if (l.slow && ksim::chance(1, 2)) ksim::advance(ksim::range(1, 50) * 10000);
        ksim::NoPreempt np;
        CHECK("stats-calls", l.st->totalProcessed == l.calls - 1, "the measure of a call ended before the call");
        *l.returned = ksim::now_ns();
    }
    int64_t *thread()
    {
        threads.push_back(0);
        return &threads.back();
    }
    void publish(kpsr::Publisher<Ev> *pub, int64_t src, int64_t q)
    {
        auto mark = [&](bool done) {
            ksim::NoPreempt np;
            Pubd &p = book[{src, q}];
            (done ? p.end : p.begin) = ksim::now_ns();
        };
        mark(false);
        switch (ksim::choose(3)) {
        case 0: pub->publish(Ev(src, q)); break;
        case 1: pub->publish(std::shared_ptr<const Ev>(std::make_shared<Ev>(src, q))); break;
        default:
            pub->processAndPublish([&](Ev &e) {
                if (ksim::chance(1, 4)) ksim::advance(ksim::range(1, 20) * 10000);
                e.fill(src, q);
            });
        }
        mark(true);
    }
    void publish_all(std::function<kpsr::Publisher<Ev> *(int)> pub, int nt, int per, int64_t &base)
    {
        Threads ts;
        for (int i = 0; i < nt; i++)
            ts.go([&, i] {
                for (int k = 0; k < per; k++) {
                    publish(pub(i), i + 1, base + k + 1);
                    if (ksim::chance(1, 3)) ksim::advance(ksim::choose(8) * 20000);
                }
            });
        ts.join();
        base += per;
    }
    void settle(int64_t calls) // until so many calls have been made
    {
        int64_t d = 20000;
        for (;; d += d / 4) {
            {
                ksim::NoPreempt np;
                if (heard >= calls) return;
            }
            ksim::advance(d);
        }
    }
};
void faults()
{
    std_faults();
    ksim::set_budget(600000, 4000000);
}

template<class Q>
void queued()
{
    faults();
    World w;
    bool large = large_run();
    int nl = sized(large, 1, 3, 8), nt = ksim::range(1, 3), per = sized(large, 1, 5, 30), queue = sized(large, 1, 6, 30), pool = ksim::choose(4);
    bool discard = ksim::chance(1, 3), late = ksim::chance(1, 3);
    pooled(pool);
    ksim::describe("%s listeners=%d threads=%d x%d queue=%d%s%s", Q::exact ? "basic" : "concurrent", nl, nt, per, queue, discard ? " discarding" : "", late ? " started late" : "");
    auto prov = Q::make(&w.box, queue, pool, discard);
    int64_t *t = w.thread(), base = 0;
    std::vector<Lis *> mine;
    for (int i = 0; i < nl; i++) mine.push_back(w.listen(prov->getSubscriber(), "listener" + std::to_string(i), t));
    auto start = [&] {
        try {
            prov->start();
        } catch (std::runtime_error &) {
        }
    };
    if (late && (discard || nt * per <= queue)) w.publish_all([&](int) { return prov->getPublisher(); }, nt, per, base);
    start();
    w.publish_all([&](int) { return prov->getPublisher(); }, nt, per, base);
    ksim::quiet();
    auto *ps = &prov->getPublisher()->publicationStats;
    auto all = [&] { return nl * (int64_t) (ps->totalProcessed - ps->totalDiscardedEvents); };
    w.settle(all());
    ksim::advance(5000);
    if (ksim::choose(2)) { // a listener of the same name starts anew
        prov->stop();
        w.remove(prov->getSubscriber(), mine[0]);
        w.listen(prov->getSubscriber(), mine[0]->name, t);
        start();
        w.publish_all([&](int) { return prov->getPublisher(); }, 1, 2, base);
        w.settle(all());
    }
    prov->stop();
    for (auto &l : w.ls)
        if (l.active) w.remove(prov->getSubscriber(), &l);
    destroying([&] { prov.reset(); });
    CHECK("stats-kept", w.box.att.empty(), "%zu statistics stayed in the container", w.box.att.size());
}
KSIM_SCENARIO(basic, 3) { queued<memtest::Basic>(); }
KSIM_SCENARIO(concurrent, 2) { queued<memtest::Concurrent>(); }

KSIM_SCENARIO(event_loop, 4)
{
    faults();
    World w;
    bool large = large_run();
    int type = ksim::choose(3), nl = type == 2 ? 1 : sized(large, 1, 3, 8), nt = ksim::range(1, 3), per = sized(large, 1, 5, 30), pool = ksim::choose(4);
    kpsr::EventEmitterType et = type == 0 ? kpsr::SAFE : type == 1 ? kpsr::UNSAFE_MULTI : kpsr::UNSAFE_SINGLE;
    pooled(pool);
    ksim::describe("event loop, %s emitter, listeners=%d threads=%d x%d", type == 0 ? "safe" : type == 1 ? "multi" : "single", nl, nt, per);
    {
        EventLoopMiddlewareProvider<8> prov(&w.box, "loop", 100000000);
        auto *pub = prov.getPublisher<Ev>("ev", pool, nullptr, nullptr);
        auto *sub = prov.getSubscriber<Ev>("ev", et);
        int64_t *t = w.thread(), base = 0;
        for (int i = 0; i < nl; i++) w.listen(sub, "listener" + std::to_string(i), t);
        prov.start();
        w.publish_all([&](int) { return pub; }, nt, per, base);
        ksim::quiet();
        auto all = [&] { return pub->publicationStats.totalProcessed - (int64_t) dynamic_cast<EventLoopPublisher<Ev, 8> *>(pub)->_discardedMessages; };
        w.settle(nl * all());
        auto *ext = w.box.sub["ev_external_ev_external"];
        for (int64_t want = all(); ext && ext->totalProcessed < want;)
            ksim::advance(50000);
        if (ext) { // how long the events waited for the loop itself
            int64_t sum = ext->totalEnqueuedTimeInNs;
            CHECK("stats-calls", ext->totalProcessed == w.ls[0].calls, "the loop handed on %ld events, its listener got %lld", ext->totalProcessed.load(), (long long) w.ls[0].calls);
            CHECK("stats-waited", sum <= w.hi_sum, "the events waited %lld ns for the loop, its statistics say %lld", (long long) w.hi_sum, (long long) sum);
        }
        prov.stop();
        for (auto &l : w.ls) w.remove(sub, &l);
        if (ksim::choose(2)) { // the same name anew
            int64_t before = all();
            w.listen(sub, "listener0", t);
            prov.start();
            w.publish_all([&](int) { return pub; }, 1, 2, base);
            w.settle((nl - 1) * before + all());
            prov.stop();
            w.remove(sub, &w.ls.back());
        }
    }
    CHECK("stats-kept", w.box.att.empty(), "%zu statistics stayed in the container", w.box.att.size());
}

KSIM_SCENARIO(multiplexer, 3)
{
    faults();
    World w;
    bool large = large_run();
    int ns = sized(large, 1, 3, 8), per = sized(large, 1, 8, 40);
    ksim::describe("multiplexer, subscribers=%d events=%d", ns, per);
    {
        DataMultiplexerMiddlewareProvider<Ev, 8> prov(&w.box, "mux", Ev());
        std::vector<kpsr::Subscriber<Ev> *> subs;
        for (int i = 0; i < ns; i++)
            for (int k = 0;; k++) {
                try {
                    subs.push_back(prov.getSubscriber("sub" + std::to_string(i)));
                    break;
                } catch (std::runtime_error &) {
                    if (k > 20) ksim::quiet();
                }
            }
        for (auto *s : subs) {
            int64_t *t = w.thread();
            for (int k = ksim::range(1, 2); k > 0; k--) w.listen(s, "listener" + std::to_string(k), t);
        }
        int64_t base = 0;
        w.publish_all([&](int) { return prov.getPublisher(); }, 1, per, base);
        ksim::quiet();
        for (auto &l : w.ls) // handed over or counted as discarded
            while (l.st->totalProcessed + l.st->totalDiscardedEvents < per - prov.getPublisher()->publicationStats.totalDiscardedEvents)
                ksim::advance(50000);
    }
    // the subscribers are gone; their listeners' statistics are with them
    CHECK("stats-kept", w.box.att.empty(), "%zu statistics stayed in the container", w.box.att.size());
}

// one thread, no queue: nothing waits, and every allocation can be told
KSIM_SCENARIO(direct, 2)
{
    ksim::enable(ksim::F_MEMREUSE, 250);
    World w;
    w.direct = true;
    bool large = large_run();
    int type = ksim::choose(3), pool = sized(large, 0, 4, 30), n = sized(large, 1, 30, 200);
    kpsr::EventEmitterType et = type == 0 ? kpsr::SAFE : type == 1 ? kpsr::UNSAFE_MULTI : kpsr::UNSAFE_SINGLE;
    bool cloner = ksim::choose(2), init = ksim::choose(2);
    ksim::describe("direct, pool=%d events=%d%s%s", pool, n, cloner ? " cloner" : "", init ? " initialiser" : "");
    {
        kpsr::EventEmitterMiddlewareProvider<Ev> prov(&w.box, "event", pool, init ? [](Ev &e) { e.fill(9, 9); } : std::function<void(Ev &)>(),
                                                      cloner ? [](const Ev &a, Ev &b) { b = a; } : std::function<void(const Ev &, Ev &)>(), et);
        auto *pub = prov.getPublisher();
        auto *sub = dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(prov.getSubscriber());
        int64_t now = 0;
        std::vector<std::pair<std::shared_ptr<const Ev>, bool>> held; // and whether it is of the pool
        bool pooled_now = false, hold = false;
        Lis *l = nullptr;
        w.ls.emplace_back();
        l = &w.ls.back();
        l->name = "listener";
        l->returned = &now;
        sub->registerSharedPtrListener("listener", [&](const std::shared_ptr<const Ev> &e) {
            w.called(*l, *e);
            if (hold) held.push_back({e, pooled_now});
        });
        l->st = w.stats(sub, "listener").get();
        CHECK("stats-kept", l->st, "there are no statistics");
        int64_t alloc = pool;
        int out = 0;
        auto *ps = &pub->publicationStats;
        for (int k = 1; k <= n; k++) {
            CHECK("stats-allocations", ps->_totalEventAllocations == alloc, "%lld events were allocated, the statistics say %ld", (long long) alloc,
                  ps->_totalEventAllocations.load());
            while (!held.empty() && ksim::chance(1, 3)) {
                size_t j = ksim::choose((int) held.size());
                out -= held[j].second;
                held.erase(held.begin() + j);
            }
            int how = ksim::choose(3);
            pooled_now = how != 1 && out < pool;
            hold = ksim::chance(1, 2);
            if (how != 1 && !pooled_now) alloc++;
            out += pooled_now && hold;
            if (how == 0) pub->publish(Ev(1, k));
            else if (how == 1) pub->publish(std::shared_ptr<const Ev>(std::make_shared<Ev>(1, k)));
            else pub->processAndPublish([&](Ev &e) { e.fill(1, k); });
            CHECK("stats-calls", l->calls == k && l->st->totalProcessed == k, "event %d: %lld calls, %ld measured", k, (long long) l->calls, l->st->totalProcessed.load());
        }
        CHECK("stats-allocations", ps->_totalEventAllocations == alloc, "%lld events were allocated, the statistics say %ld", (long long) alloc,
              ps->_totalEventAllocations.load());
        if (alloc > pool && pool) ksim::probe("pool-exhausted");
        held.clear();
    }
    CHECK("stats-kept", w.box.att.empty(), "%zu statistics stayed in the container", w.box.att.size());
}
} // namespace
