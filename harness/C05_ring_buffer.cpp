// C05: ring buffer delivery: every consumer, every sequence, once, in order, intact, never overwritten early.
#include "ring_common.h"

namespace {
struct Book // what producers wrote, by sequence - start - 1
{
    std::vector<std::pair<int64_t, int64_t>> wrote;
    int64_t start;
    void put(int64_t seq, int64_t src, int64_t q)
    {
        ksim::NoPreempt np;
        size_t i = (size_t) (seq - start - 1);
        CHECK("ring-claim", seq > start && i < 200000, "claimed sequence %lld is out of range", (long long) seq);
        if (wrote.size() <= i) wrote.resize(i + 1, {0, 0});
        CHECK("ring-claim", wrote[i].first == 0, "sequence %lld claimed by two producers", (long long) seq);
        wrote[i] = {src, q};
    }
};
struct Handler : event_handler<Ev>
{
    Book *book;
    int64_t next;
    std::atomic<int64_t> done;
    std::vector<Handler *> after;
    const char *name;
    bool slow = false;
    void on_start() override {}
    void on_shutdown() override {}
    void on_event(Ev &e, int64_t s, bool) override
    {
        CHECK("ring-order", s == next, "%s got sequence %lld, expected %lld", name, (long long) s, (long long) next);
        next++;
        e.check(name);
        size_t i = (size_t) (s - book->start - 1);
        {
            ksim::NoPreempt np;
            CHECK("ring-content", i < book->wrote.size() && book->wrote[i].first == e.src && book->wrote[i].second == e.seq,
                  "%s: sequence %lld holds event %lld/%lld, not what was published", name, (long long) s, (long long) e.src,
                  (long long) e.seq);
            for (auto a : after)
                CHECK("ring-dependency", a->done >= s, "%s got sequence %lld before %s was done with it", name, (long long) s,
                      a->name);
        }
        if (slow) ksim::advance(ksim::choose(4) * 3000);
        int64_t src = e.src, q = e.seq;
        ksim::point();
        CHECK("ring-overwrite", e.src == src && e.seq == q && e.intact(), "%s: sequence %lld was overwritten while being handled",
              name, (long long) s);
        e.check(name);
        done = s;
    }
    void on_timeout(int64_t) override {}
    void on_event_exception(const std::exception &ex, int64_t, Ev *) override
    {
        ksim::fail("ring-exception", "%s: %s", name, ex.what());
    }
    void on_start_exception(const std::exception &) override {}
    void on_shutdown_exception(const std::exception &) override {}
};

template<class WS, std::size_t N, producer_type P>
void stream(const char *wsname)
{
    typedef ring_buffer<Ev, N, WS, P> RB;
    bool large = N <= 16 && large_run();
    int np = P == producer_type::multi ? sized(large, 1, 3, 10) : 1;
    int per = N > 16 ? ksim::range((int) N / np, (int) N) : sized(large, 1, 4 + 8 / np, 40);
    if (N > 16) ksim::set_budget(4000000, 8000000);
    int topo = large ? 3 + ksim::choose(2) : ksim::choose(5);
    int64_t start = pick_start(1, 5);
    static const char *tn[] = {"one", "two parallel", "chain", "diamond", "parallel"};
    ksim::describe("%s buffer=%zu producers=%d claims=%d consumers=%s start=%lld", wsname, N, np, per, tn[topo],
                   (long long) start);
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    seek(rb, start);
    Book book;
    book.start = start;
    static const int nc_of[] = {1, 2, 2, 3, 3};
    int nc = large ? ksim::range(3, 12) : nc_of[topo];
    std::vector<std::unique_ptr<Handler>> hs;
    static const char *hn[] = {"consumer A", "consumer B", "consumer C", "consumer D", "consumer E", "consumer F",
                               "consumer G", "consumer H", "consumer I", "consumer J", "consumer K", "consumer L"};
    for (int i = 0; i < nc; i++) {
        hs.emplace_back(new Handler);
        hs[i]->book = &book;
        hs[i]->next = start + 1;
        hs[i]->done = start;
        hs[i]->name = hn[i];
        hs[i]->slow = ksim::chance(1, 3);
    }
    typedef batch_event_processor<RB> Proc;
    std::vector<std::unique_ptr<Proc>> ps;
    std::vector<sequence *> gate;
    for (int i = 0; i < nc; i++) {
        std::vector<sequence *> dep;
        if (topo == 2 && i == 1) {
            dep = {&ps[0]->get_sequence()};
            hs[1]->after = {hs[0].get()};
        }
        if (topo == 3 && i == nc - 1) // waits for all others
            for (int j = 0; j < i; j++) {
                dep.push_back(&ps[j]->get_sequence());
                hs[i]->after.push_back(hs[j].get());
            }
        ps.emplace_back(new Proc(rb, rb.new_barrier(dep), *hs[i], hn[i]));
        ps[i]->get_sequence().set(start);
        bool gating = topo == 2 ? i == 1 : topo == 3 ? i == nc - 1 : true;
        if (gating) gate.push_back(&ps[i]->get_sequence());
    }
    rb.add_gating_sequences(gate);
    Threads cons, prod;
    for (int i = 0; i < nc; i++)
        cons.go([&, i] { ps[i]->run(); });
    std::atomic<int64_t> total{0};
    for (int p = 1; p <= np; p++)
        prod.go([&, p] {
            int64_t q = 0;
            for (int i = 0; i < per; i++) {
                int n = ksim::chance(1, 4) ? ksim::range(1, (int) N) : 1;
                int64_t hi;
                if (ksim::chance(1, 3)) {
                    for (;;) {
                        try {
                            hi = n == 1 ? rb.try_next() : rb.try_next(n);
                            break;
                        } catch (const insufficient_capacity_exception &) {
                            ksim::probe("ring_full");
                            std::this_thread::yield();
                        }
                    }
                } else
                    hi = n == 1 ? rb.next() : rb.next(n);
                for (int64_t s = hi - n + 1; s <= hi; s++) {
                    q++;
                    book.put(s, p, q);
                    rb[s].fill(p, q);
                }
                if (n == 1 && ksim::choose(2)) rb.publish(hi);
                else rb.publish(hi - n + 1, hi);
                total += n;
            }
        });
    prod.join();
    ksim::quiet();
    int64_t last = start + total;
    for (int i = 0; i < nc; i++)
        while (hs[i]->done < last)
            ksim::advance(20000);
    for (auto &p : ps) {
        while (!p->is_running())
            ksim::advance(1000);
        p->halt();
    }
    cons.join();
    for (int i = 0; i < nc; i++)
        CHECK("ring-lost", hs[i]->next == last + 1, "%s saw %lld of %lld events", hn[i], (long long) (hs[i]->next - start - 1),
              (long long) total);
    // the per-producer order is contained in the claim order: check the book itself
    std::map<int64_t, int64_t> lastq;
    for (auto &w : book.wrote) {
        CHECK("ring-lost", w.second > lastq[w.first], "producer %lld's events are not in order in the ring", (long long) w.first);
        lastq[w.first] = w.second;
    }
}
// Consumers leave a ring and join it again: they see exactly what is published from then on, and hold back nobody meanwhile.
template<class WS, std::size_t N, producer_type P>
void rejoin(const char *wsname)
{
    typedef ring_buffer<Ev, N, WS, P> RB;
    typedef batch_event_processor<RB> Proc;
    int nc = ksim::range(1, 3), rounds = ksim::range(2, 4);
    int64_t start = pick_start(1, 5);
    ksim::describe("%s buffer=%zu %d consumers leave and join, start=%lld", wsname, N, nc, (long long) start);
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    seek(rb, start);
    Book book;
    book.start = start;
    static const char *hn[] = {"consumer A", "consumer B", "consumer C"};
    std::vector<std::unique_ptr<Handler>> hs;
    std::vector<std::unique_ptr<Proc>> ps;
    std::vector<std::thread> th(nc);
    std::vector<bool> in(nc, false);
    for (int i = 0; i < nc; i++) {
        hs.emplace_back(new Handler);
        hs[i]->book = &book;
        hs[i]->name = hn[i];
        ps.emplace_back(new Proc(rb, rb.new_barrier(), *hs[i], hn[i]));
    }
    int64_t at = start, q = 0;
    auto leave = [&](int i) {
        while (!ps[i]->is_running() || hs[i]->done < at)
            ksim::advance(10000);
        ps[i]->halt();
        th[i].join();
        CHECK("ring-lost", hs[i]->next == at + 1, "%s is at %lld after event %lld", hn[i], (long long) hs[i]->next, (long long) at);
        CHECK("ring-join", rb.remove_gating_sequence(ps[i]->get_sequence()), "a joined consumer is not known to the ring");
        CHECK("ring-join", !rb.remove_gating_sequence(ps[i]->get_sequence()), "a consumer that left is still known to the ring");
        in[i] = false;
    };
    ksim::quiet();
    for (int r = 0; r < rounds; r++) {
        std::vector<sequence *> add;
        for (int i = 0; i < nc; i++) {
            if (in[i] && ksim::choose(2)) leave(i);
            if (!in[i] && ksim::choose(3)) {
                add.push_back(&ps[i]->get_sequence());
                hs[i]->next = at + 1;
                hs[i]->done = at;
                in[i] = true;
                if (ksim::choose(2)) {
                    rb.add_gating_sequences(add);
                    add.clear();
                }
            }
        }
        rb.add_gating_sequences(add);
        for (int i = 0; i < nc; i++)
            if (in[i] && !th[i].joinable()) {
                Proc *p = ps[i].get();
                th[i] = std::thread([p] { p->run(); });
            }
        for (int k = ksim::choose(2 * (int) N + 2); k > 0; k--) {
            int64_t s = rb.next();
            CHECK("ring-claim", s == at + 1, "claimed %lld after %lld", (long long) s, (long long) at);
            book.put(s, 1, ++q);
            rb[s].fill(1, q);
            rb.publish(s);
            at = s;
        }
    }
    for (int i = 0; i < nc; i++)
        if (in[i]) leave(i);
}
template<class WS>
void both(const char *n)
{
    std_faults();
    switch (ksim::choose(4)) {
    case 0: stream<WS, 2, producer_type::multi>(n); break;
    case 1: stream<WS, 4, producer_type::multi>(n); break;
    case 2: stream<WS, 2, producer_type::single>(n); break;
    default: stream<WS, 4, producer_type::single>(n);
    }
}
} // namespace

KSIM_SCENARIO(blocking, 25) { both<blocking_wait_strategy>("blocking"); }
KSIM_SCENARIO(consumers_rejoin, 10)
{
    std_faults();
    if (ksim::choose(2)) rejoin<blocking_wait_strategy, 4, producer_type::multi>("blocking");
    else rejoin<blocking_wait_strategy, 4, producer_type::single>("blocking");
}
KSIM_SCENARIO(large_ring, 2)
{
    std_faults();
    switch (ksim::choose(4)) {
    case 0: stream<blocking_wait_strategy, 64, producer_type::multi>("blocking"); break;
    case 1: stream<blocking_wait_strategy, 64, producer_type::single>("blocking"); break;
    case 2: stream<yielding_wait_strategy<2>, 128, producer_type::multi>("yielding"); break;
    default: stream<yielding_wait_strategy<2>, 128, producer_type::single>("yielding");
    }
}
KSIM_SCENARIO(busy_spin, 25) { both<busy_spin_wait_strategy>("busy spin"); }
KSIM_SCENARIO(yielding, 25) { both<yielding_wait_strategy<2>>("yielding"); }
KSIM_SCENARIO(lite_blocking, 25) { both<lite_blocking_wait_strategy>("lite blocking"); }
