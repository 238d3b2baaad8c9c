// C08: event processors: halting, restarting, refusing a second run, throwing handlers.
#include "ring_common.h"

namespace {
struct Oops : std::runtime_error
{
    Oops() : std::runtime_error("oops") {}
};
template<std::size_t N>
struct Obs : event_handler<Ev>
{
    int64_t next = 0;
    int64_t throwing = -2; // sequence that just threw
    bool throws[256] = {}, slow = false, start_throws = false, stop_throws = false, in = false;
    int starts = 0, stops = 0, errors = 0, start_ex = 0, stop_ex = 0;
    std::atomic<int64_t> done{-1};
    void enter(const char *w)
    {
        ksim::NoPreempt np;
        CHECK("processor-overlap", !in, "%s while another callback of the same handler runs", w);
        in = true;
    }
    struct Out
    {
        bool &b;
        ~Out() { b = false; }
    };
    void on_start() override
    {
        enter("on_start");
        Out o{in};
        CHECK("processor-lifecycle", starts == stops, "on_start called twice without on_shutdown");
        starts++;
        ksim::point();
        if (start_throws) throw Oops();
    }
    void on_shutdown() override
    {
        enter("on_shutdown");
        Out o{in};
        CHECK("processor-lifecycle", starts == stops + 1, "on_shutdown without on_start");
        stops++;
        if (stop_throws) throw Oops();
    }
    void on_event(Ev &e, int64_t s, bool) override
    {
        enter("on_event");
        Out o{in};
        CHECK("processor-lifecycle", starts == stops + 1, "event outside of on_start/on_shutdown");
        CHECK("processor-exception", throwing == -2, "sequence %lld threw but was not reported before the next event",
              (long long) throwing);
        CHECK("processor-order", s == next, "got sequence %lld, expected %lld", (long long) s, (long long) next);
        next++;
        e.check("handler");
        if (slow) ksim::advance(ksim::choose(4) * 2000);
        ksim::point();
        e.check("handler");
        if (throws[s & 255]) {
            throwing = s;
            throw Oops();
        }
        done = s;
    }
    void on_timeout(int64_t) override
    {
        enter("on_timeout");
        Out o{in};
    }
    void on_event_exception(const std::exception &, int64_t s, Ev *e) override
    {
        enter("on_event_exception");
        Out o{in};
        CHECK("processor-exception", s == throwing, "exception reported for sequence %lld, the one that threw is %lld",
              (long long) s, (long long) throwing);
        CHECK("processor-exception", e && e->intact(), "exception reported with the wrong event");
        e->check("exception hook");
        CHECK("processor-exception", e->seq == s, "exception of sequence %lld reported with the event of %lld", (long long) s,
              (long long) e->seq);
        throwing = -2;
        errors++;
        done = s;
    }
    void on_start_exception(const std::exception &) override { start_ex++; }
    void on_shutdown_exception(const std::exception &) override { stop_ex++; }
};

template<class WS>
void batch(const char *name)
{
    std_faults();
    constexpr std::size_t N = 4;
    typedef ring_buffer<Ev, N, WS, producer_type::multi> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    Obs<N> h;
    int total = sized(large_run(), 0, 10, 200), rounds = ksim::range(1, 3);
    bool second = ksim::chance(1, 3), twohalt = ksim::chance(1, 4);
    h.slow = ksim::chance(1, 3);
    h.start_throws = ksim::chance(1, 6);
    h.stop_throws = ksim::chance(1, 6);
    int nthrow = 0;
    if (ksim::choose(2))
        for (int i = 0; i < total; i++)
            nthrow += h.throws[i] = ksim::chance(1, 3);
    ksim::describe("%s events=%d throwing=%d rounds=%d%s%s", name, total, nthrow, rounds, second ? " second-run" : "",
                   twohalt ? " two halts" : "");
    typedef batch_event_processor<RB> Proc;
    Proc p(rb, rb.new_barrier(), h, "proc");
    rb.add_gating_sequences({&p.get_sequence()});
    Threads prod;
    std::atomic<bool> pdone{false};
    prod.go([&] {
        for (int i = 0; i < total;) {
            try {
                int64_t s = rb.try_next();
                rb[s].fill(1, s);
                rb.publish(s);
                i++;
            } catch (const insufficient_capacity_exception &) {
                ksim::advance(3000);
            }
            if (ksim::chance(1, 4)) ksim::advance(ksim::choose(4) * 3000);
        }
        pdone = true;
    });
    std::atomic<int> refused{0};
    for (int r = 0; r < rounds; r++) {
        bool last = r == rounds - 1;
        Threads t, sec;
        std::atomic<int> left{1};
        int starts0 = h.starts;
        t.go([&] {
            for (;;) {
                try {
                    p.run();
                    break;
                } catch (const std::runtime_error &) { // a second run came first
                    CHECK("processor-refused", second, "run() was refused although nothing else ran");
                    ksim::advance(2000);
                }
            }
            left--;
        });
        if (second) {
            left++;
            sec.go([&] {
                for (int k = ksim::range(1, 3); k > 0; k--) {
                    if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 1000);
                    try {
                        p.run(); // if it is accepted, nothing else may be running: Obs checks it
                    } catch (const std::runtime_error &) {
                        ksim::probe("second_run_refused");
                        refused++;
                    }
                }
                left--;
            });
        }
        while (!p.is_running() && h.starts == starts0)
            ksim::advance(500);
        if (last && !second) {
            prod.join();
            ksim::quiet();
            while (h.done < total - 1)
                ksim::advance(10000);
        } else if (ksim::choose(2))
            ksim::advance(ksim::choose(6) * 2000);
        if (twohalt) {
            Threads hs;
            hs.go([&] { p.halt(); });
            hs.go([&] { p.halt(); });
        } else
            p.halt();
        ksim::quiet();
        while (second && left) { // an accepted second run needs a halt of its own
            ksim::advance(3000);
            p.halt();
        }
        t.join();
        sec.join();
        CHECK("processor-lifecycle", h.starts == h.stops, "%d on_start, %d on_shutdown after the run returned", h.starts, h.stops);
        CHECK("processor-lifecycle", h.starts > starts0, "on_start was not called");
        CHECK("processor-halt", !p.is_running(), "is_running() after the run returned");
        if (!last) ksim::unquiet();
    }
    if (second) { // drain
        Threads t;
        t.go([&] { p.run(); });
        prod.join();
        while (h.done < total - 1)
            ksim::advance(10000);
        while (!p.is_running())
            ksim::advance(500);
        p.halt();
        t.join();
    }
    prod.join();
    CHECK("processor-lost", h.next == total, "%lld of %d events were handled", (long long) h.next, total);
    CHECK("processor-exception", h.errors == nthrow && h.throwing == -2, "%d of %d exceptions were reported", h.errors, nthrow);
    CHECK("processor-exception", h.start_ex == (h.start_throws ? h.starts : 0), "on_start exceptions: %d", h.start_ex);
    CHECK("processor-exception", h.stop_ex == (h.stop_throws ? h.stops : 0), "on_shutdown exceptions: %d", h.stop_ex);
}

template<class WS>
void noop(const char *name)
{
    std_faults();
    typedef ring_buffer<Ev, 4, WS, producer_type::multi> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    int total = sized(large_run(), 0, 8, 100), rounds = ksim::range(1, 2);
    bool second = ksim::chance(1, 3);
    ksim::describe("no-op processor, %s events=%d rounds=%d%s", name, total, rounds, second ? " second-run" : "");
    typedef no_op_event_processor<RB> Proc;
    Proc p(rb, rb.new_barrier());
    rb.add_gating_sequences({&p.get_sequence()});
    Threads prod;
    prod.go([&] {
        for (int i = 0; i < total;) {
            try {
                int64_t s = rb.try_next();
                CHECK("processor-lost", s == i, "claimed %lld instead of %d", (long long) s, i);
                rb[s].fill(1, s);
                rb.publish(s);
                i++;
            } catch (const insufficient_capacity_exception &) {
                ksim::advance(3000);
            }
        }
    });
    for (int r = 0; r < rounds; r++) {
        bool last = r == rounds - 1;
        Threads t;
        std::atomic<bool> returned{false};
        t.go([&] {
            p.run();
            returned = true;
        });
        while (!p.is_running() && !returned)
            ksim::advance(500);
        if (second) {
            bool threw = false;
            try {
                p.run();
            } catch (const std::runtime_error &) {
                threw = true;
            }
            CHECK("processor-refused", threw, "a second run was accepted while the first one runs");
        }
        if (last) {
            prod.join();
            ksim::quiet();
            while (p.get_sequence().get() < total - 1)
                ksim::advance(10000);
            CHECK("processor-lost", p.get_sequence().get() == total - 1, "sequence %lld after %d events",
                  (long long) p.get_sequence().get(), total);
        } else if (ksim::choose(2))
            ksim::advance(ksim::choose(5) * 2000);
        p.halt();
        ksim::quiet();
        t.join();
        CHECK("processor-halt", !p.is_running(), "is_running() after the run returned");
        if (!last) ksim::unquiet();
    }
    prod.join();
}
} // namespace

KSIM_SCENARIO(batch_blocking, 25) { batch<blocking_wait_strategy>("blocking"); }
KSIM_SCENARIO(batch_lite, 15) { batch<lite_blocking_wait_strategy>("lite blocking"); }
KSIM_SCENARIO(batch_timeout, 15) { batch<timeout_blocking_wait_strategy<8000>>("timeout blocking"); }
KSIM_SCENARIO(batch_sleeping, 10) { batch<sleeping_wait_strategy<2>>("sleeping"); }
KSIM_SCENARIO(batch_spin, 10) { batch<busy_spin_wait_strategy>("busy spin"); }
KSIM_SCENARIO(batch_yield, 10) { batch<yielding_wait_strategy<1>>("yielding"); }
KSIM_SCENARIO(noop_blocking, 8) { noop<blocking_wait_strategy>("blocking"); }
KSIM_SCENARIO(noop_lite, 4) { noop<lite_blocking_wait_strategy>("lite blocking"); }
KSIM_SCENARIO(noop_sleeping, 3) { noop<sleeping_wait_strategy<2>>("sleeping"); }
