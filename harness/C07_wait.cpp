// C07: every wait strategy: wakes for events, alerts and timeouts; never returns what is not available.
#include "ring_common.h"

namespace {
template<class WS>
struct Timeout { static constexpr int64_t ns = 0; };
template<int64_t T>
struct Timeout<timeout_blocking_wait_strategy<T>> { static constexpr int64_t ns = T; };
template<int64_t S, int64_t Y, class F>
struct Timeout<phased_backoff_wait_strategy<S, Y, F>> { static constexpr int64_t ns = Timeout<F>::ns; };

template<class WS, producer_type P>
void waiters(const char *name)
{
    std_faults();
    typedef ring_buffer<Ev, 8, WS, P> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    int64_t start = pick_start(1, 8);
    seek(rb, start);
    int np = P == producer_type::multi ? ksim::range(1, 2) : 1;
    int total = ksim::range(np, 6);
    int nw = sized(large_run(), 1, 3, 12);
    int mode = ksim::choose(3); // 0: everything awaited is published; 1: waiters end by an alert; 2: both race
    bool chain = nw > 1 && ksim::choose(2), fan = chain && nw > 2 && ksim::choose(2); // fan: the last waits for all others
    bool jump = ksim::chance(1, 4);
    ksim::describe("%s %s producers=%d events=%d waiters=%d%s %s%s", name, P == producer_type::multi ? "multi" : "single", np,
                   total, nw, fan ? " fan-in" : chain ? " chained" : "", mode == 0 ? "publish" : mode == 1 ? "alert" : "publish+alert",
                   jump ? " clock jumps" : "");
    bool published[16] = {};
    std::vector<std::unique_ptr<sequence>> seqs;
    typedef typename RB::sequence_barrier_type SB;
    std::vector<std::unique_ptr<SB>> bars;
    for (int i = 0; i < nw; i++) {
        seqs.emplace_back(new sequence(start));
        std::vector<sequence *> dep;
        if (chain && !fan && i > 0) dep.push_back(seqs[i - 1].get());
        for (int j = 0; fan && i == nw - 1 && j < i; j++)
            dep.push_back(seqs[j].get());
        bars.push_back(rb.new_barrier(dep));
    }
    bool alert_sent[12] = {};
    Threads w, p;
    for (int i = 0; i < nw; i++)
        w.go([&, i] {
            int64_t nxt = start + 1, goal = start + total + (mode == 1 ? 1 : 0);
            while (nxt <= goal) {
                int64_t t0 = ksim::now_ns();
                try {
                    int64_t a = bars[i]->wait_for(nxt);
                    {
                        ksim::NoPreempt npre;
                        CHECK("wait-early", a >= nxt - 1 && a <= start + total, "wait_for(%lld) returned %lld", (long long) nxt,
                              (long long) a);
                        for (int64_t s = nxt; s <= a; s++) {
                            CHECK("wait-early", published[s - start], "wait_for(%lld) returned %lld, but %lld is not published",
                                  (long long) nxt, (long long) a, (long long) s);
                            for (int j = fan && i == nw - 1 ? 0 : std::max(0, i - 1); chain && (!fan || i == nw - 1) && j < i; j++)
                                CHECK("wait-dependency", seqs[j]->get() >= s,
                                      "wait_for returned %lld before the upstream consumer passed it", (long long) s);
                        }
                    }
                    for (int64_t s = nxt; s <= a; s++)
                        rb[s].check("waiter");
                    if (a >= nxt) {
                        if (ksim::chance(1, 4)) ksim::advance(1500);
                        nxt = a + 1;
                        seqs[i]->set(a);
                    } else
                        ksim::probe("not_yet_published");
                } catch (const alert_exception &) {
                    ksim::NoPreempt npre;
                    CHECK("wait-alert", alert_sent[i], "waiter %d left with an alert nobody sent", i);
                    break;
                } catch (const timeout_exception &) {
                    int64_t el = ksim::now_ns() - t0;
                    CHECK("wait-timeout", Timeout<WS>::ns > 0, "%s timed out", name);
                    CHECK("wait-timeout", el >= Timeout<WS>::ns, "%s timed out after %lld ns of %lld", name, (long long) el,
                          (long long) Timeout<WS>::ns);
                    ksim::probe("timed_out");
                }
            }
        });
    int per = total / np, extra = total % np;
    for (int k = 0; k < np; k++)
        p.go([&, k] {
            int n = per + (k < extra ? 1 : 0);
            for (int j = 0; j < n;) {
                int b = P == producer_type::multi ? std::min(n - j, ksim::range(1, 2)) : std::min(n - j, ksim::range(1, 3));
                int64_t hi = rb.next(b);
                for (int64_t s = hi - b + 1; s <= hi; s++) {
                    rb[s].fill(k + 1, s);
                    published[s - start] = true;
                }
                if (ksim::chance(1, 4)) ksim::advance(ksim::choose(5) * 2000);
                if (b == 1) rb.publish(hi);
                else rb.publish(hi - b + 1, hi);
                j += b;
            }
        });
    if (mode > 0)
        p.go([&] {
            if (ksim::choose(2)) ksim::advance(ksim::choose(6) * 5000);
            for (int i = 0; i < nw; i++) {
                alert_sent[i] = true;
                bars[i]->alert();
            }
        });
    if (jump) {
        ksim::advance(ksim::choose(4) * 20000);
        ksim::jump_wall(ksim::choose(2) ? -3600000000000LL : 3600000000000LL);
        if (ksim::choose(2)) {
            ksim::advance(60000);
            ksim::jump_wall(-7200000000000LL);
        }
    }
    p.join();
    ksim::quiet();
    w.join();
}

// a silent ring: the timeout must come in time, by the monotonic clock
template<class WS>
void timeouts(const char *name, int64_t slack)
{
    ksim::enable(ksim::F_CLOCKJUMP, 600);
    typedef ring_buffer<Ev, 4, WS, producer_type::multi> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    auto b = rb.new_barrier();
    int rounds = ksim::range(1, 3), ahead = ksim::choose(4);
    ksim::describe("%s timeouts x%d, %d events ahead", name, rounds, ahead);
    Threads t;
    t.go([&] {
        for (int i = 0; i < rounds; i++) {
            int64_t t0 = ksim::now_ns();
            try {
                b->wait_for(ahead);
                ksim::fail("wait-early", "wait_for returned although nothing was published");
            } catch (const timeout_exception &) {
            }
            int64_t el = ksim::now_ns() - t0;
            CHECK("wait-timeout", el >= Timeout<WS>::ns && el <= Timeout<WS>::ns + slack,
                  "%s timed out after %lld ns of %lld", name, (long long) el, (long long) Timeout<WS>::ns);
        }
    });
    for (int i = ksim::choose(3); i > 0; i--) {
        ksim::advance(ksim::choose(8) * 10000);
        ksim::jump_wall((ksim::choose(2) ? -1 : 1) * 3600000000000LL);
    }
    ksim::quiet();
    t.join();
}
template<class WS>
void both(const char *n)
{
    if (ksim::choose(2)) waiters<WS, producer_type::multi>(n);
    else waiters<WS, producer_type::single>(n);
}
} // namespace

KSIM_SCENARIO(blocking, 20) { both<blocking_wait_strategy>("blocking"); }
KSIM_SCENARIO(lite_blocking, 40) { both<lite_blocking_wait_strategy>("lite blocking"); }
KSIM_SCENARIO(timeout_blocking, 15) { both<timeout_blocking_wait_strategy<20000>>("timeout blocking"); }
KSIM_SCENARIO(sleeping, 10)
{
    if (ksim::choose(2)) both<sleeping_wait_strategy<2>>("sleeping<2>");
    else both<sleeping_wait_strategy<102>>("sleeping<102>");
}
KSIM_SCENARIO(yielding, 10) { both<yielding_wait_strategy<1>>("yielding"); }
KSIM_SCENARIO(busy_spin, 10) { both<busy_spin_wait_strategy>("busy spin"); }
KSIM_SCENARIO(phased_backoff, 4)
{
    if (ksim::choose(2)) both<phased_backoff_wait_strategy<1000, 30000, blocking_wait_strategy>>("phased backoff");
    else both<phased_backoff_wait_strategy<1000, 60000, lite_blocking_wait_strategy>>("phased backoff lite");
}
KSIM_SCENARIO(timeout_seconds, 2) { timeouts<timeout_blocking_wait_strategy<2500000000>>("timeout blocking", 100000); }
KSIM_SCENARIO(timeout_exact, 8) { timeouts<timeout_blocking_wait_strategy<50000>>("timeout blocking", 20000); }
KSIM_SCENARIO(timeout_phased, 2)
{
    timeouts<phased_backoff_wait_strategy<1000, 30000, timeout_blocking_wait_strategy<50000>>>("phased backoff timeout", 1000000000);
}
