// C12, C13: in-memory middleware delivery, shared by both queue kinds.
#pragma once
#include "test_container.h"
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>

namespace memtest {
struct Basic
{
    static const bool exact = true; // the queue holds exactly its configured number of events
    typedef kpsr::mem::BasicMiddlewareProvider<Ev> P;
    static std::unique_ptr<P> make(kpsr::Container *c, int queue, int pool, bool discard,
                                   std::function<void(Ev &)> init = nullptr,
                                   std::function<void(const Ev &, Ev &)> cl = nullptr)
    {
        return std::unique_ptr<P>(new P(c, "event", queue, pool, init, cl, discard));
    }
};
struct Concurrent
{
    static const bool exact = false;
    typedef kpsr::mem::ConcurrentMiddlewareProvider<Ev> P;
    static std::unique_ptr<P> make(kpsr::Container *c, int queue, int pool, bool discard,
                                   std::function<void(Ev &)> init = nullptr,
                                   std::function<void(const Ev &, Ev &)> cl = nullptr)
    {
        return std::unique_ptr<P>(new P(c, "event", queue, pool, init, cl, discard, 1 + ksim::choose(3) * 500));
    }
};

struct Lis
{
    bool full = true, slow = false, throws = false;
    std::map<int64_t, int64_t> last;
    std::set<std::pair<int64_t, int64_t>> seen;
    int64_t count = 0;
    uint64_t reg_end = 0, rm_end = UINT64_MAX;
};

template<class Q>
struct World
{
    TestContainer box;
    std::unique_ptr<typename Q::P> prov;
    kpsr::Publisher<Ev> *pub = nullptr;
    std::deque<Lis> ls;
    bool in = false;
    int long_calls = 0; // so many calls of a listener take seconds
    int thread = -1;
    bool stuck = false, go = true; // the first listener waits for go
    bool may_run = true;
    bool low = false; // memory may run out while publishing
    Mine<int64_t> failed = 0;
    std::set<std::pair<int64_t, int64_t>> lost;
    int64_t disc() { return (int64_t) pub->publicationStats.totalDiscardedEvents; }
    int64_t total() { return (int64_t) pub->publicationStats.totalProcessed; }
    Lis *reg(const std::string &name, bool slow, bool throws, bool sharedptr)
    {
        ls.emplace_back();
        Lis *l = &ls.back();
        l->slow = slow;
        l->throws = throws;
        auto cb = [this, l](const Ev &e) {
            {
                ksim::NoPreempt np;
                CHECK("callback-after-stop", may_run, "a listener was called after stop had returned");
                CHECK("mem-overlap", !in, "two callbacks at once");
                in = true;
                if (thread == -1) thread = ksim::self();
                CHECK("mem-thread", thread == -2 || thread == ksim::self(), "callbacks on two threads");
            }
            e.check("listener");
            int64_t src = e.src, q = e.seq;
            {
                ksim::NoPreempt np;
                CHECK("mem-double", l->seen.insert({src, q}).second, "event %lld/%lld delivered twice", (long long) src,
                      (long long) q);
                CHECK("mem-order", l->last[src] < q, "event %lld of a publisher came after %lld", (long long) q,
                      (long long) l->last[src]);
                l->last[src] = q;
            }
            stuck = true;
            while (!go) ksim::advance(30000);
            if (l->slow) ksim::advance(ksim::choose(4) * 3000);
            if (long_calls && ksim::chance(1, 3)) {
                long_calls--;
                ksim::probe("call-of-seconds");
                ksim::advance(1000000000LL * ksim::range(1, 5));
            }
            e.check("listener");
            {
                ksim::NoPreempt np;
                CHECK("mem-content", e.src == src && e.seq == q, "the event changed during the callback");
                CHECK("callback-after-stop", may_run, "stop returned while a listener was running");
                in = false;
                l->count++;
            }
            if (l->throws && ksim::choose(3) == 1) {
                ksim::probe("listener-throws");
                throw std::runtime_error("listener");
            }
        };
        if (sharedptr)
            dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(prov->getSubscriber())
                ->registerSharedPtrListener(name, [cb](const std::shared_ptr<const Ev> &e) { cb(*e); });
        else
            prov->getSubscriber()->registerListener(name, cb);
        l->reg_end = ksim::step();
        return l;
    }
    void publish(int64_t src, int64_t q)
    {
        int how = ksim::choose(3);
        try {
            ksim::alloc_faults(low);
            switch (how) {
            case 0: pub->publish(Ev(src, q)); break;
            case 1: pub->publish(std::shared_ptr<const Ev>(std::make_shared<Ev>(src, q))); break;
            default: pub->processAndPublish([&](Ev &e) { e.fill(src, q); });
            }
            ksim::alloc_faults(false);
        } catch (std::bad_alloc &) {
            ksim::alloc_faults(false);
            ksim::probe("publish-without-memory");
            ksim::NoPreempt np;
            lost.insert({src, q});
            failed++;
        }
    }
    void start()
    {
        for (int k = 0;; k++) {
            try {
                prov->start();
                return;
            } catch (std::system_error &) {
                ksim::probe("thread-creation-failed");
            } catch (std::runtime_error &) {
                ksim::probe("start-timed-out");
                return; // it is starting
            }
            if (k > 10) ksim::quiet();
        }
    }
    bool drained()
    {
        ksim::NoPreempt np;
        if (in) return false;
        for (auto &l : ls)
            if (l.full && l.count + disc() < total()) return false;
        return true;
    }
};

struct Rec
{
    int64_t src, q;
    uint64_t begin;
};

// several publishing threads, listeners that come and go
template<class Q>
void delivery(int prefill, int queue)
{
    std_faults();
    World<Q> w;
    bool usebox = ksim::chance(1, 3), discard = ksim::chance(2, 3), dyn = ksim::chance(1, 3), slow = ksim::chance(1, 3);
    bool throws = ksim::chance(1, 5), late = ksim::chance(1, 4);
    if (throws) dyn = false; // a throwing listener ends that emit
    bool large = large_run();
    int nt = ksim::range(1, 3), per = sized(large, 1, 5, 60), pool = sized(large, 0, 3, 40);
    pooled(pool);
    // a discarding push into the locked queue that fails may have discarded an event
    w.low = ksim::chance(1, 4) && !(discard && Q::exact);
    if (w.low) ksim::enable(ksim::F_BADALLOC, 1000);
    ksim::describe("queue=%d pool=%d threads=%d x%d prefill=%d %s%s%s%s%s", queue, pool, nt, per, prefill,
                   discard ? "discarding" : "blocking", dyn ? " dynamic" : "", slow ? " slow" : "", throws ? " throwing" : "",
                   usebox ? " container" : "");
    {
        w.prov = Q::make(usebox ? &w.box : nullptr, queue, pool, discard);
        w.pub = w.prov->getPublisher();
        int nl = throws ? 1 : ksim::range(1, 2);
        for (int i = 0; i < nl; i++)
            w.reg("full" + std::to_string(i), slow && ksim::choose(2), throws, ksim::chance(1, 4));
        int pre = 0;
        if (prefill && (discard || !late)) {
            if (!discard) w.start();
            for (; pre < prefill; pre++) {
                if (discard) {
                    ksim::NoPreempt np; // only contention at the end of the queue is of interest
                    w.pub->publish(std::make_shared<Ev>(50, pre + 1));
                } else
                    w.pub->publish(std::make_shared<Ev>(50, pre + 1));
            }
        }
        if (!late) w.start();
        std::vector<Rec> recs;
        Threads t;
        for (int i = 0; i < nt; i++)
            t.go([&, i] {
                for (int q = 1; q <= per; q++) {
                    {
                        ksim::NoPreempt np;
                        recs.push_back({i + 1, q, ksim::step()});
                    }
                    w.publish(i + 1, q);
                    if (ksim::chance(1, 3)) ksim::advance(ksim::choose(4) * 2000);
                }
            });
        if (dyn)
            for (int k = ksim::range(1, 2); k > 0; k--) {
                if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 2000);
                std::string n = "dyn" + std::to_string(k);
                Lis *l = w.reg(n, false, false, ksim::choose(2));
                l->full = false;
                if (ksim::choose(2)) {
                    if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 2000);
                    w.prov->getSubscriber()->removeListener(n);
                    l->rm_end = ksim::step();
                }
            }
        if (late) w.start();
        t.join();
        ksim::quiet();
        int64_t all = (int64_t) nt * per + pre - w.failed;
        CHECK("mem-count", w.total() == all, "%lld events published, %lld counted", (long long) all, (long long) w.total());
        while (!w.drained()) ksim::advance(50000);
        ksim::advance(2000000);
        if (!discard) CHECK("mem-discard", w.disc() == 0, "blocking mode discarded %lld events", (long long) w.disc());
        if (w.disc()) ksim::probe("discarded");
        for (auto &l : w.ls) {
            if (l.full)
                CHECK("mem-conservation", (int64_t) l.seen.size() + w.disc() == all,
                      "%lld published, %zu delivered, %lld counted as discarded", (long long) all, l.seen.size(),
                      (long long) w.disc());
            for (auto &r : recs) {
                if (l.rm_end < r.begin) CHECK("mem-removed", !l.seen.count({r.src, r.q}), "an event reached a removed listener");
                if (!l.full && l.reg_end < r.begin && l.rm_end == UINT64_MAX && w.ls[0].seen.count({r.src, r.q}))
                    CHECK("mem-lost", l.seen.count({r.src, r.q}), "an event missed a listener registered before it");
            }
            for (auto &s : w.lost)
                CHECK("mem-invented", !l.seen.count(s), "an event whose publication failed was delivered");
            for (auto &s : l.seen)
                CHECK("mem-invented", s.first == 50 ? s.second <= pre : s.first >= 1 && s.first <= nt && s.second <= per,
                      "an event that was never published was delivered");
        }
        if (ksim::choose(2)) {
            w.prov->stop();
            w.may_run = false;
        }
        destroying([&] { w.prov.reset(); });
    }
    CHECK("container-use", w.box.att.empty(), "%zu statistics still attached", w.box.att.size());
}

// the listener is stuck: discarding mode must not block the publisher and keeps the newest, in order; blocking mode waits
template<class Q>
void stuck(int queue, int burst)
{
    std_faults();
    World<Q> w;
    bool discard = ksim::choose(2);
    int pool = ksim::choose(3);
    pooled(pool);
    w.prov = Q::make(nullptr, queue, pool, discard);
    w.pub = w.prov->getPublisher();
    ksim::describe("stuck listener queue=%d burst=%d %s", queue, burst, discard ? "discarding" : "blocking");
    w.reg("l", false, false, false);
    w.go = false;
    w.start();
    w.publish(1, 1);
    while (!w.stuck) ksim::advance(20000);
    int done = 1;
    std::thread t([&] {
        for (int q = 2; q <= burst; q++) {
            w.publish(1, q);
            done = q;
        }
    });
    if (discard) {
        t.join(); // deadlock or no progress otherwise
        int64_t kept = burst - 1 - w.disc();
        if (Q::exact)
            CHECK("mem-conservation", kept == std::min(burst - 1, queue), "queue of %d keeps %lld of %d events", queue,
                  (long long) kept, burst - 1);
        CHECK("mem-conservation", kept >= 1 && kept <= burst - 1, "kept %lld of %d events", (long long) kept, burst - 1);
        ksim::quiet();
        w.go = true;
        while (!w.drained()) ksim::advance(50000);
        Lis &l = w.ls[0];
        CHECK("mem-conservation", (int64_t) l.seen.size() == kept + 1, "%zu delivered", l.seen.size());
        for (int q = burst; q > burst - kept; q--)
            CHECK("mem-oldest", l.seen.count({1, q}), "event %d was discarded although older ones were kept", q);
    } else {
        ksim::quiet();
        ksim::advance(3000000);
        if (Q::exact)
            CHECK("mem-blocking", done == std::min(burst, queue + 1), "%d of %d events got into a queue of %d", done, burst, queue);
        ksim::quiet();
        w.go = true;
        t.join();
        while (!w.drained()) ksim::advance(50000);
        CHECK("mem-conservation", (int64_t) w.ls[0].seen.size() == burst && w.disc() == 0, "blocking mode lost events");
    }
    w.prov.reset();
}
} // namespace memtest
