// C06: claims, capacity and back-pressure, exact in a quiescent stream and justified in a concurrent one.
#include "ring_common.h"

namespace {
typedef blocking_wait_strategy WS;

// one thread drives producers and consumers of a stream: every answer must equal the model's
template<std::size_t N, producer_type P>
void exact()
{
    typedef ring_buffer<Ev, N, WS, P> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    int64_t start = pick_start(1, 2);
    seek(rb, start);
    bool large = large_run();
    int nc = sized(large, 1, 3, 12);
    ksim::describe("%s producer, buffer=%zu, consumers=%d, start=%lld", P == producer_type::multi ? "multi" : "single", N, nc,
                   (long long) start);
    std::vector<std::unique_ptr<sequence>> cs;
    std::vector<sequence *> g;
    for (int i = 0; i < nc; i++) {
        cs.emplace_back(new sequence(start));
        g.push_back(cs.back().get());
    }
    rb.add_gating_sequences(g);
    for (auto s : g)
        s->set(start);
    int64_t claimed = start;
    std::vector<int64_t> cons(nc, start);
    auto minc = [&] {
        int64_t m = claimed;
        for (auto c : cons)
            m = std::min(m, c);
        return m;
    };
    int steps = sized(large, 5, 40, 400);
    std::vector<std::pair<int64_t, int64_t>> pend; // claimed ranges not yet published
    std::set<int64_t> pub;
    int64_t cursor = start; // highest gap-free published
    for (int k = 0; k < steps; k++) {
        int64_t room = (int64_t) N - (claimed - minc());
        int n = ksim::range(1, (int) N + 1);
        if (nc < (large ? 20 : 4) && ksim::chance(1, 12)) { // a consumer joins, at the point up to which slots have been claimed or published
            int64_t join = rb.get_cursor();
            cs.emplace_back(new sequence(7));
            g.push_back(cs.back().get());
            rb.add_gating_sequences({g.back()});
            CHECK("capacity-join", g.back()->get() == join, "a consumer joined at %lld with the cursor at %lld", (long long) g.back()->get(),
                  (long long) join);
            cons.push_back(join);
            nc++;
            continue;
        }
        if (nc > 1 && ksim::chance(1, 12)) { // a consumer leaves
            int c = ksim::choose(nc);
            int64_t rest = claimed;
            for (int i = 0; i < nc; i++)
                if (i != c) rest = std::min(rest, cons[i]);
            if (rest > cursor) continue; // somebody has to hold back the claims that are not published yet
            CHECK("capacity-join", rb.remove_gating_sequence(*g[c]), "a joined consumer is not known to the ring");
            g.erase(g.begin() + c);
            cons.erase(cons.begin() + c);
            nc--;
            continue;
        }
        switch (ksim::choose(7)) {
        case 0:
        case 1: {
            bool ok = true;
            int64_t hi = 0;
            try {
                hi = n == 1 && ksim::choose(2) ? rb.try_next() : rb.try_next(n);
            } catch (const insufficient_capacity_exception &) {
                ok = false;
            }
            CHECK("capacity-try-next", ok == (n <= room), "try_next(%d) %s with room for %lld", n, ok ? "succeeded" : "failed",
                  (long long) room);
            if (ok) {
                CHECK("capacity-claim", hi == claimed + n, "try_next(%d) returned %lld after %lld", n, (long long) hi,
                      (long long) claimed);
                pend.push_back({claimed + 1, hi});
                claimed = hi;
            } else ksim::probe("full");
            break;
        }
        case 2: {
            bool ok = rb.has_available_capacity(n);
            CHECK("capacity-query", ok == (n <= room), "has_available_capacity(%d) is %d with room for %lld", n, ok,
                  (long long) room);
            break;
        }
        case 3: {
            int64_t r = rb.remaining_capacity();
            CHECK("capacity-remaining", r == room, "remaining_capacity() is %lld, room is %lld", (long long) r, (long long) room);
            break;
        }
        case 4: {
            if (n > room) break;
            int64_t hi = n == 1 && ksim::choose(2) ? rb.next() : rb.next(n);
            CHECK("capacity-claim", hi == claimed + n, "next(%d) returned %lld after %lld", n, (long long) hi,
                  (long long) claimed);
            pend.push_back({claimed + 1, hi});
            claimed = hi;
            break;
        }
        case 5: {
            if (pend.empty()) break;
            size_t i = P == producer_type::multi ? ksim::choose((int) pend.size()) : 0;
            auto r = pend[i];
            pend.erase(pend.begin() + i);
            if (r.first == r.second && ksim::choose(2)) rb.publish(r.first);
            else rb.publish(r.first, r.second);
            for (int64_t s = r.first; s <= r.second; s++)
                pub.insert(s);
            while (pub.count(cursor + 1))
                pub.erase(++cursor);
            break;
        }
        default: {
            int c = ksim::choose(nc);
            if (cons[c] < cursor) {
                cons[c] += 1 + ksim::choose((int) (cursor - cons[c]));
                g[c]->set(cons[c]);
            }
        }
        }
        // what consumers may see
        auto b = rb.new_barrier();
        if (cursor > start) {
            int64_t lo = std::max(start + 1, minc() + 1);
            if (lo <= cursor) {
                int64_t a = b->wait_for(lo);
                CHECK("published-gap", a == cursor, "a consumer may take up to %lld, published without a gap up to %lld",
                      (long long) a, (long long) cursor);
            }
        }
    }
    for (int n : {0, -1, -5}) {
        bool threw = false;
        try {
            rb.try_next(n);
        } catch (const std::invalid_argument &) {
            threw = true;
        } catch (const insufficient_capacity_exception &) {
        }
        CHECK("capacity-argument", threw, "try_next(%d) was accepted", n);
    }
    CHECK("capacity-remaining", rb.remaining_capacity() == (int64_t) N - (claimed - minc()), "refused claims changed the capacity");
}

// several producers and a consumer run freely: each answer must be justified by some instant of the call
template<std::size_t N, producer_type P>
void concurrent()
{
    std_faults();
    typedef ring_buffer<Ev, N, WS, P> RB;
    std::unique_ptr<RB> rbp(new RB());
    RB &rb = *rbp;
    int64_t start = pick_start(1, 4);
    seek(rb, start);
    int np = P == producer_type::multi ? ksim::range(1, 3) : 1, per = ksim::range(2, 8), nc = ksim::range(1, 2);
    ksim::describe("%s, buffer=%zu, producers=%d x %d, consumers=%d, start=%lld", P == producer_type::multi ? "multi" : "single",
                   N, np, per, nc, (long long) start);
    std::vector<std::unique_ptr<sequence>> cs;
    std::vector<sequence *> g;
    for (int i = 0; i < nc; i++) {
        cs.emplace_back(new sequence(start));
        g.push_back(cs.back().get());
    }
    rb.add_gating_sequences(g);
    for (auto s : g)
        s->set(start);
    std::map<int64_t, int64_t> got; // lo -> hi of claims
    auto minc = [&] {
        int64_t m = INT64_MAX;
        for (auto s : g)
            m = std::min(m, s->get());
        return m;
    };
    std::atomic<bool> stop{false};
    std::atomic<int> active{np};
    std::atomic<int64_t> maxhi{start};
    Threads prod, cons;
    // conservative bounds on what is claimed: before a call 'asked' grows, so claimed <= asked always
    std::atomic<int64_t> asked{start};
    for (int p = 0; p < np; p++)
        prod.go([&, p] {
            for (int i = 0; i < per; i++) {
                int n = ksim::range(1, (int) N);
                int kind = ksim::choose(3);
                int64_t hi = -2;
                int64_t m0 = minc();
                asked += n;
                bool alone = active == 1;
                if (kind == 0) {
                    if (rb.has_available_capacity(n))
                        ; // a hint only: another producer may take the room
                    int64_t r = rb.remaining_capacity();
                    CHECK("capacity-remaining", r <= (int64_t) N, "remaining_capacity() is %lld of %zu", (long long) r, N);
                    if (alone) CHECK("capacity-remaining", r >= 0, "remaining_capacity() is %lld", (long long) r);
                    asked -= n;
                    continue;
                }
                if (kind == 1) {
                    int64_t c0 = rb.get_cursor();
                    try {
                        hi = rb.try_next(n);
                    } catch (const insufficient_capacity_exception &) {
                        ksim::probe("refused");
                        // justified only if, counting every claim made or in progress, the ring could have been full
                        int64_t worst = asked.load() - m0;
                        CHECK("capacity-try-next", worst > (int64_t) N,
                              "try_next(%d) failed although at most %lld of %zu slots can have been in use", n,
                              (long long) (worst - n), N);
                        asked -= n;
                        continue;
                    }
                    (void) c0;
                } else
                    hi = rb.next(n);
                int64_t m1 = minc();
                {
                    ksim::NoPreempt npre;
                    CHECK("capacity-overrun", hi - (int64_t) N <= m1,
                          "a claim up to %lld was granted while a consumer was still at %lld (buffer %zu)", (long long) hi,
                          (long long) m1, N);
                    auto it = got.upper_bound(hi);
                    if (it != got.begin()) {
                        auto q = std::prev(it);
                        CHECK("capacity-claim", q->second <= hi - n, "sequence %lld claimed twice", (long long) q->second);
                    }
                    got[hi - n + 1] = hi;
                }
                for (int64_t s = hi - n + 1; s <= hi; s++)
                    rb[s].fill(p + 1, s);
                rb.publish(hi - n + 1, hi);
            }
            active--;
        });
    for (int c = 0; c < nc; c++)
        cons.go([&, c] {
            auto b = rb.new_barrier();
            int64_t nxt = start + 1;
            while (true) {
                bool last = active.load() == 0;
                if (rb.get_cursor() < nxt) {
                    if (last && rb.get_cursor() < nxt) break;
                    if (ksim::choose(2)) ksim::advance(500);
                    else std::this_thread::yield();
                    continue;
                }
                int64_t a = b->wait_for(nxt);
                for (; nxt <= a; nxt++)
                    rb[nxt].check("consumer");
                g[c]->set(a);
                if (ksim::chance(1, 4)) ksim::advance(2000);
            }
        });
    prod.join();
    ksim::quiet();
    cons.join();
    int64_t at = start;
    for (auto &r : got) {
        CHECK("capacity-claim", r.first == at + 1, "claims are not contiguous: %lld after %lld (a refused claim took slots)",
              (long long) r.first, (long long) at);
        at = r.second;
    }
    CHECK("capacity-remaining", rb.remaining_capacity() == (int64_t) N, "an idle, fully consumed ring reports %lld of %zu free",
          (long long) rb.remaining_capacity(), N);
    CHECK("capacity-query", rb.has_available_capacity((int) N) && !rb.has_available_capacity((int) N + 1),
          "capacity of the idle ring is wrong");
}
} // namespace

KSIM_SCENARIO(exact_model, 40)
{
    switch (ksim::choose(6)) {
    case 0: exact<2, producer_type::multi>(); break;
    case 1: exact<4, producer_type::multi>(); break;
    case 2: exact<8, producer_type::multi>(); break;
    case 3: exact<2, producer_type::single>(); break;
    case 4: exact<4, producer_type::single>(); break;
    default: exact<8, producer_type::single>();
    }
}
KSIM_SCENARIO(concurrent_claims, 60)
{
    switch (ksim::choose(5)) {
    case 0:
    case 1: concurrent<4, producer_type::multi>(); break;
    case 2: concurrent<8, producer_type::multi>(); break;
    case 3: concurrent<2, producer_type::multi>(); break;
    default: concurrent<4, producer_type::single>();
    }
}
