// C14: in-memory pollers and providers start, stop, restart and die cleanly at any moment.
#include "mem_common.h"
using namespace memtest;

namespace {
template<class Q>
void lifecycle()
{
    std_faults();
    World<Q> w;
    bool discard = ksim::chance(2, 3), tfail = ksim::chance(1, 3);
    bool large = large_run();
    int nt = ksim::range(0, 2), per = sized(large, 1, 4, 40), ops = sized(large, 1, 6, 40), queue = sized(large, 1, 3, 50);
    ksim::describe("queue=%d %s threads=%d x%d ops=%d%s", queue, discard ? "discarding" : "blocking", nt, per, ops,
                   tfail ? " thread-failure" : "");
    int pool = ksim::choose(3);
    pooled(pool);
    w.prov = Q::make(nullptr, queue, pool, discard);
    w.pub = w.prov->getPublisher();
    w.reg("l", ksim::chance(1, 2), ksim::chance(1, 5), false);
    w.may_run = false;
    if (discard && ksim::chance(1, 8)) w.long_calls = ksim::range(1, 2);
    bool more = true;
    Threads t;
    for (int i = 0; i < nt; i++)
        t.go([&, i] {
            for (int q = 1; q <= per && more; q++) {
                w.publish(i + 1, q);
                if (ksim::choose(2)) ksim::advance(ksim::choose(4) * 30000);
            }
        });
    if (tfail) ksim::enable(ksim::F_THREADFAIL, 700);
    bool late = false;
    auto start = [&] {
        w.may_run = true;
        try {
            w.prov->start();
            CHECK("mem-state", late || w.prov->isRunning(), "start returned but the poller is not running");
            return true;
        } catch (std::system_error &) {
            ksim::probe("thread-creation-failed");
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out");
            late = true; // it counts as started while its thread is still starting
        }
        return false;
    };
    auto stop = [&] {
        w.prov->stop();
        late = false;
        ksim::NoPreempt np;
        CHECK("callback-after-stop", !w.in, "stop returned while a listener was running");
        CHECK("mem-state", !w.prov->isRunning(), "stop returned but the poller is running");
        w.may_run = false;
    };
    // the thread id check is for one run of the poller only
    w.thread = -2;
    int64_t probes = 0;
    bool up = false;
    auto probe = [&] {
        int64_t q = ++probes;
        w.publish(9, q);
        while (!w.ls[0].seen.count({9, q})) {
            ksim::advance(w.in ? 2000000 : 100000); // nobody polls during a call
            if (discard) { // it may have been discarded for another one
                ksim::NoPreempt np;
                if (!w.in && w.ls[0].count + w.disc() >= w.total()) break;
            }
        }
    };
    auto body = [&] {
        for (int o = 0; o < ops; o++)
            switch (ksim::choose(4)) {
            case 0: up = start(); break;
            case 1:
                stop();
                up = false;
                break;
            case 2: ksim::advance(ksim::choose(6) * 40000); break;
            case 3:
                if (up) {
                    ksim::probe("probe-while-running");
                    probe();
                }
                break;
            }
    };
    body();
    int end = ksim::choose(4);
    if (end == 0 || (!discard && nt)) {
        ksim::quiet();
        stop();
        for (int k = 0; !start(); k++) {
            CHECK("mem-start", k < 3, "start keeps failing without any fault");
            stop();
        }
        probe();
        t.join();
        probe();
        while (!w.drained()) ksim::advance(w.in ? 2000000 : 50000);
        CHECK("mem-conservation", (int64_t) w.ls[0].seen.size() + w.disc() == w.total(),
              "%lld published, %zu delivered, %lld discarded", (long long) w.total(), w.ls[0].seen.size(), (long long) w.disc());
    } else {
        more = false;
        if (end == 1) t.join();
        if (end == 2) stop();
        ksim::quiet();
        t.join();
    }
    destroying([&] { w.prov.reset(); });
    CHECK("callback-after-stop", !w.in, "destroyed while a listener was running");
    w.may_run = false;
    ksim::advance(1000000);
}

// a poller of one's own, with any timeout
struct Own : kpsr::mem::InMemoryQueuePoller
{
    Mine<bool> alive = true, in = false;
    Mine<int64_t> n = 0;
    Own(long timeout) : InMemoryQueuePoller("own", 100, timeout) {}
    ~Own()
    {
        stop();
        alive = false;
    }
    void takeEventFromQueue() override
    {
        CHECK("poller-lifetime", alive, "polled after destruction");
        CHECK("poller-state", !in, "two polling threads at once");
        in = true;
        n++;
        ksim::advance(ksim::choose(3) * 30000);
        CHECK("poller-lifetime", alive, "destroyed while polling");
        in = false;
        if (ksim::choose(8) == 1) throw std::runtime_error("x");
    }
};
void own()
{
    std_faults();
    bool tfail = ksim::chance(1, 3);
    if (tfail) ksim::enable(ksim::F_THREADFAIL, 700);
    long timeout = ksim::choose(3);
    ksim::describe("poller timeout=%ldms", timeout);
    std::unique_ptr<Own> p(new Own(timeout));
    for (int k = sized(large_run(), 1, 6, 40); k > 0; k--) {
        if (ksim::choose(2)) {
            try {
                p->start();
                int64_t n = p->n;
                if (ksim::choose(2))
                    while (p->n == n) ksim::advance(20000);
            } catch (std::system_error &) {
                ksim::probe("thread-creation-failed");
            } catch (std::runtime_error &) {
                ksim::probe("start-timed-out");
            }
        } else {
            p->stop();
            CHECK("callback-after-stop", !p->in, "stop returned while polling");
            int64_t n = p->n;
            if (ksim::choose(2)) ksim::advance(200000);
            CHECK("callback-after-stop", n == p->n, "polled after stop had returned");
        }
    }
    ksim::quiet();
    destroying([&] { p.reset(); });
}
} // namespace
KSIM_SCENARIO(basic, 45) { lifecycle<Basic>(); }
KSIM_SCENARIO(concurrent, 35) { lifecycle<Concurrent>(); }
KSIM_SCENARIO(own, 20) { own(); }
