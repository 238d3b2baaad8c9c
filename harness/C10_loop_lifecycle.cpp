// C10: event loop life cycle: any start/stop/destroy sequence completes, no callback after stop, restart delivers.
#include "test_container.h"
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <system_error>

namespace {
using namespace kpsr::high_performance;

struct State
{
    bool in = false;
    bool may_run = false; // between a start call and the return of stop
    int64_t delivered = 0, probe_last = 0;
    std::map<int64_t, int64_t> last;
    std::set<std::pair<int64_t, int64_t>> seen;
    bool slow = false, throws = false;
    int long_calls = 0; // so many calls take seconds
    void callback(const Ev &e)
    {
        {
            ksim::NoPreempt np;
            CHECK("callback-after-stop", may_run, "a callback ran after stop had returned");
            CHECK("loop-overlap", !in, "two callbacks at once");
            in = true;
        }
        e.check("listener");
        {
            ksim::NoPreempt np;
            CHECK("loop-double", seen.insert({e.src, e.seq}).second, "event %lld/%lld delivered twice", (long long) e.src,
                  (long long) e.seq);
            CHECK("loop-order", last[e.src] < e.seq, "event %lld of a publisher came after %lld", (long long) e.seq,
                  (long long) last[e.src]);
            last[e.src] = e.seq;
            if (e.src == 9) probe_last = e.seq;
        }
        if (slow && ksim::choose(2)) {
            ksim::advance(ksim::choose(4) * 50000);
            ksim::NoPreempt np;
            CHECK("callback-after-stop", may_run, "stop returned while a callback was running");
        }
        if (long_calls && ksim::chance(1, 3)) {
            long_calls--;
            ksim::probe("call-of-seconds");
            ksim::advance(1000000000LL * ksim::range(1, 12));
            ksim::NoPreempt np;
            CHECK("callback-after-stop", may_run, "stop returned while a callback was running");
        }
        {
            ksim::NoPreempt np;
            in = false;
            delivered++;
        }
        if (throws && ksim::choose(3) == 1) {
            ksim::probe("listener-throws");
            throw std::runtime_error("listener");
        }
    }
};

template<std::size_t N>
void lifecycle()
{
    std_faults();
    typedef EventLoopMiddlewareProvider<N> Prov;
    bool large = large_run();
    int nt = ksim::range(0, 2), per = sized(large, 1, 6, 60), ops = sized(large, 1, 5, 40);
    bool tfail = ksim::chance(1, 3);
    long timeout = ksim::chance(1, 2) ? 100000 : ksim::chance(1, 2) ? 0 : 300;
    State st;
    st.slow = ksim::chance(1, 3);
    st.throws = ksim::chance(1, 4);
    if (ksim::chance(1, 8)) st.long_calls = ksim::range(1, 2);
    bool unsafe_mode = ksim::chance(1, 4);
    int pool = ksim::choose(3);
    pooled(pool);
    ksim::describe("provider buffer=%zu threads=%d x%d ops=%d timeout=%ldus%s%s%s", N, nt, per, ops, timeout,
                   tfail ? " thread-failure" : "", st.slow ? " slow" : "", st.throws ? " throwing" : "");
    std::unique_ptr<Prov> prov(new Prov(nullptr, "loop", timeout));
    kpsr::Publisher<Ev> *pub[3];
    EventLoopPublisher<Ev, N> *elp[3];
    static const char *names[] = {"one", "two", "probe"};
    for (int i = 0; i < 3; i++) {
        pub[i] = prov->template getPublisher<Ev>(names[i], i == 1 ? pool : 0, nullptr, nullptr, unsafe_mode);
        elp[i] = dynamic_cast<EventLoopPublisher<Ev, N> *>(pub[i]);
        prov->template getSubscriber<Ev>(names[i])->registerListener("l", [&](const Ev &e) { st.callback(e); });
    }
    struct Rec
    {
        int64_t src, q;
        uint64_t begin;
        bool acc;
    };
    std::vector<Rec> recs;
    bool more = true;
    int64_t sent[2] = {0, 0};
    auto pub1 = [&](int i) {
        int64_t q = ++sent[i];
        uint64_t b = ksim::step();
        int64_t d0 = elp[i]->_discardedMessages;
        pub[i]->publish(Ev(i + 1, q));
        ksim::NoPreempt np;
        recs.push_back({i + 1, q, b, (int64_t) elp[i]->_discardedMessages == d0});
    };
    Threads t;
    for (int i = 0; i < nt; i++)
        t.go([&, i] {
            for (int k = 0; k < per && more; k++) {
                pub1(i);
                if (ksim::chance(1, 2)) ksim::advance(ksim::choose(5) * 30000);
            }
        });
    if (tfail) ksim::enable(ksim::F_THREADFAIL, 700);
    auto start = [&]() -> bool {
        {
            ksim::NoPreempt np;
            st.may_run = true;
        }
        try {
            prov->start();
            CHECK("loop-state", prov->isRunning(), "start returned but the loop is not running");
            return true;
        } catch (std::system_error &) {
            ksim::probe("thread-creation-failed");
            return false;
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out");
            return false;
        }
    };
    auto stop = [&] {
        prov->stop();
        ksim::NoPreempt np;
        st.may_run = false;
        CHECK("callback-after-stop", !st.in, "stop returned while a callback was running");
        CHECK("loop-state", !prov->isRunning(), "stop returned but the loop is running");
    };
    int64_t probes = 0;
    bool up = false;
    auto probe = [&] {
        // accepted within bounded time, then delivered within bounded time
        for (int64_t d = 50000;; d += d / 8) {
            int64_t d0 = elp[2]->_discardedMessages;
            pub[2]->publish(Ev(9, ++probes));
            if ((int64_t) elp[2]->_discardedMessages == d0) break;
            ksim::advance(d);
        }
        for (int64_t d = 20000; st.probe_last < probes; d += d / 8) ksim::advance(d);
    };
    for (int o = 0; o < ops; o++) {
        switch (ksim::choose(4)) {
        case 0: up = start(); break;
        case 1:
            stop();
            up = false;
            break;
        case 2: ksim::advance(ksim::choose(6) * 40000); break;
        case 3:
            if (up) {
                ksim::probe("probe-while-running");
                probe();
            }
            break;
        }
    }
    int end = ksim::choose(4);
    if (end == 0) { // restart for good and deliver everything from then on
        ksim::quiet();
        stop();
        int tries = 0;
        while (!start()) {
            CHECK("loop-start", timeout < 1000 || ++tries < 4, "start keeps failing without any fault");
            if (timeout < 1000) { // the thread may still be starting: it counts as started until stopped
                while (!prov->isRunning()) {
                    stop();
                    start();
                    CHECK("loop-start", ++tries < 4, "start keeps failing without any fault");
                }
                break;
            }
            stop();
        }
        uint64_t started = ksim::step();
        for (int k = 0; k < 3; k++) {
            int i = ksim::choose(2);
            if (i >= nt) pub1(i);
        }
        probe();
        t.join();
        probe();
        probe();
        for (auto &r : recs)
            if (r.begin > started)
                CHECK("loop-lost", st.seen.count({r.src, r.q}) == (r.acc ? 1 : 0),
                      "event %lld/%lld published after the restart was %s but %s", (long long) r.src, (long long) r.q,
                      r.acc ? "accepted" : "discarded", r.acc ? "never delivered" : "delivered");
    } else {
        more = false;
        if (end == 1) t.join();
        if (end == 2) stop();
        ksim::quiet();
        t.join();
    }
    destroying([&] { prov.reset(); }); // with the loop possibly starting, running or in a callback
    CHECK("callback-after-stop", !st.in, "the event loop was destroyed during a callback");
    st.may_run = false;
    ksim::advance(1000000);
}

// the loop on a ring buffer of its own, which outlives it
void bare()
{
    std_faults();
    typedef EventLoop<4> Loop;
    std::unique_ptr<Loop::RingBuffer> ring(new Loop::RingBuffer());
    std::shared_ptr<kpsr::EventEmitterInterface<EventloopDataWrapper>> em =
        kpsr::EventEmitterFactory::createEventEmitter<EventloopDataWrapper>(kpsr::EventEmitterType::SAFE);
    int loops = ksim::range(1, 2);
    long timeout = ksim::chance(1, 2) ? 100000 : ksim::choose(3) * 200;
    ksim::describe("bare loop x%d timeout=%ld", loops, timeout);
    int64_t got = 0;
    bool may = true;
    em->on(nullptr, "l", "a_external", [&](const EventloopDataWrapper &) {
        CHECK("callback-after-stop", may, "a callback ran after the loop was destroyed");
        got++;
    });
    EventLoopPublisher<Ev, 4> p(nullptr, *ring, "loop", "a", 0, nullptr, nullptr, false);
    for (int k = 0; k < loops; k++) {
        std::unique_ptr<Loop> l(new Loop(em, *ring, "x", timeout));
        may = true;
        bool two = ksim::choose(2);
        try {
            l->start();
            if (two) l->start();
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out");
        }
        for (int i = ksim::choose(7); i > 0; i--)
            p.publish(Ev(1, i));
        if (ksim::choose(2)) l->stop();
        destroying([&] { l.reset(); });
        may = false;
        int64_t d0 = p._discardedMessages;
        for (int i = 0; i < 5; i++)
            p.publish(Ev(1, i + 1));
        CHECK("loop-gating", (int64_t) p._discardedMessages == d0, "a destroyed event loop still holds the ring buffer back");
    }
    ksim::quiet();
}
} // namespace
KSIM_SCENARIO(buffer4, 60) { lifecycle<4>(); }
KSIM_SCENARIO(buffer2, 20) { lifecycle<2>(); }
KSIM_SCENARIO(bare, 20) { bare(); }
