// C03: SafeQueue is a linearizable bounded FIFO in all its forms.
#include "queue_common.h"

namespace {
struct Rig
{
    Hist h;
    std::vector<Queue *> q;
    int64_t next = 1;
    int64_t fresh()
    {
        ksim::NoPreempt np;
        return next++;
    }
    void push(int qi, int form)
    {
        int64_t v = fresh();
        Ev e(1, v);
        switch (form) {
        case 0: {
            int i = h.begin(lin::TRYPUSH, qi, v);
            h.end(i, q[qi]->try_push(e));
            break;
        }
        case 1: {
            int i = h.begin(lin::TRYPUSH, qi, v);
            h.end(i, q[qi]->try_push(Ev(1, v)));
            break;
        }
        case 2: {
            int i = h.begin(lin::TRYPUSH, qi, v);
            h.end(i, q[qi]->try_move_push(e));
            break;
        }
        case 3: {
            int i = h.begin(lin::FORCEPUSH, qi, v);
            unsigned d = q[qi]->force_move_push(e);
            if (d) ksim::probe("forced_push_discarded");
            h.end(i, d);
            break;
        }
        case 4: {
            int i = h.begin(lin::PUSH, qi, v);
            bool ok = q[qi]->push(e);
            CHECK("queue-push", ok, "blocking push returned false");
            h.end(i);
            break;
        }
        case 5: {
            int i = h.begin(lin::PUSH, qi, v);
            bool ok = q[qi]->push(Ev(1, v));
            CHECK("queue-push", ok, "blocking push returned false");
            h.end(i);
            break;
        }
        default: {
            int i = h.begin(lin::PUSH, qi, v);
            bool ok = q[qi]->move_push(e);
            CHECK("queue-push", ok, "blocking push returned false");
            h.end(i);
        }
        }
    }
    void pop(int qi, int form)
    {
        Ev e;
        e.fill(9, 9);
        int i;
        bool ok = true;
        switch (form) {
        case 0:
            i = h.begin(lin::TRYPOP, qi);
            ok = q[qi]->try_pop(e);
            break;
        case 1:
            i = h.begin(lin::TRYPOP, qi);
            ok = q[qi]->try_move_pop(e);
            break;
        case 2:
            i = h.begin(lin::TRYPOP, qi);
            ok = q[qi]->timeout_pop(e, ksim::choose(3) * 40);
            break;
        case 3:
            i = h.begin(lin::TRYPOP, qi);
            ok = q[qi]->timeout_move_pop(e, ksim::choose(3) * 40);
            break;
        case 4:
            i = h.begin(lin::POP, qi);
            q[qi]->pop(e);
            break;
        default:
            i = h.begin(lin::POP, qi);
            q[qi]->move_pop(e);
        }
        if (ok)
            e.check("pop");
        else
            CHECK("queue-pop", e.src == 9 && e.seq == 9, "a pop that returned false changed its argument");
        h.end(i, ok, e.seq);
        if (!ok) ksim::probe("pop_found_nothing");
    }
    // copy or move construction while others work on the queue
    void duplicate(int qi)
    {
        bool take = ksim::chance(1, 3);
        int i = h.begin(take ? lin::TAKE : lin::COPY, qi);
        Queue c = take ? Queue(std::move(*q[qi])) : Queue(*q[qi]);
        ksim::NoPreempt np;
        h.end(i);
        std::vector<int64_t> all;
        Ev e;
        while (c.try_pop(e)) {
            e.check("copied queue");
            all.push_back(e.seq);
        }
        h.ops[i].res = (int64_t) all.size();
        h.ops[i].res2 = lin::digest(all);
    }
    void query(int qi)
    {
        int k = ksim::choose(3);
        if (k == 0) {
            int i = h.begin(lin::SIZE, qi);
            h.end(i, (int64_t) q[qi]->size());
        } else if (k == 1) {
            int i = h.begin(lin::EMPTY, qi);
            h.end(i, q[qi]->empty());
        } else {
            int i = h.begin(lin::FULL, qi);
            h.end(i, q[qi]->full());
        }
    }
};
} // namespace

KSIM_SCENARIO(one_queue, 70)
{
    std_faults();
    int max = ksim::range(0, 3), nt = ksim::range(2, 4), ops = ksim::range(2, 5);
    bool blocking = ksim::chance(1, 2), setmax = ksim::chance(1, 6), copies = ksim::chance(1, 4);
    ksim::describe("max=%d threads=%d ops=%d blocking=%d set_max=%d", max, nt, ops, blocking, setmax);
    Queue q(max);
    Rig r;
    r.q = {&q};
    std::atomic<int> running{nt};
    {
        Threads th;
        for (int t = 0; t < nt; t++)
            th.go([&] {
                for (int i = 0; i < ops; i++) {
                    int k = ksim::choose(10);
                    if (copies && ksim::chance(1, 5))
                        r.duplicate(0);
                    else if (k < 4)
                        r.push(0, ksim::choose(blocking ? 7 : 4));
                    else if (k < 8)
                        r.pop(0, ksim::choose(blocking ? 6 : 4));
                    else if (setmax && k == 8) {
                        int m = ksim::choose(4);
                        int h = r.h.begin(lin::SETMAX, 0, m);
                        q.set_max_num_items(m);
                        r.h.end(h);
                    } else
                        r.query(0);
                }
                running--;
            });
        // blocked threads are helped out
        int guard = 0;
        while (running > 0) {
            ksim::advance(400000);
            if (running == 0) break;
            if (++guard > 12) ksim::inconclusive("blocked");
            if (ksim::choose(2) == (int) (q.size() == 0)) r.push(0, 0);
            else r.pop(0, 0);
        }
        th.join();
    }
    ksim::quiet();
    while (q.size())
        r.pop(0, 0);
    if (max == 0) ksim::probe("unlimited_queue");
    r.h.check(lin::QUEUES, {max}, "not-linearizable");
}

// One thread, larger queues and longer histories, every form against a plain model; pushes may fail for lack of memory.
KSIM_SCENARIO(sequential, 12)
{
    ksim::enable(ksim::F_CLOCKJUMP, 300);
    ksim::enable(ksim::F_OVERSLEEP, 300);
    ksim::enable(ksim::F_BADALLOC, 400);
    static const int sizes[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 257};
    int max = sizes[ksim::choose(16)], ops = ksim::range(20, 150), up = ksim::range(3, 8);
    bool fill = ksim::chance(1, 2);
    ksim::describe("max=%d ops=%d", max, ops);
    Queue q(max);
    std::deque<int64_t> m;
    int64_t next = 1, t0;
    auto full = [&] { return max > 0 && (int) m.size() >= max; };
    auto same = [&](Queue &x, const std::deque<int64_t> &want, const char *what) {
        Ev e;
        CHECK("queue-sequential", x.size() == want.size(), "%s has %zu elements of %zu", what, (size_t) x.size(), want.size());
        for (auto v : want) {
            CHECK("queue-sequential", x.try_pop(e) && e.seq == v, "%s lost element %lld", what, (long long) v);
            e.check(what);
        }
        CHECK("queue-sequential", x.empty() && !x.try_pop(e), "%s has elements left over", what);
    };
    if (fill)
        for (int i = max ? ksim::range(max / 2, max) : 20; i > 0; i--)
            q.try_push(Ev(1, next)), m.push_back(next++);
    for (int i = 0; i < ops; i++) {
        int k = ksim::choose(10);
        if (k < up) {
            int form = ksim::choose(full() ? 4 : 7);
            Ev e(1, next);
            bool old = ksim::alloc_faults(form != 3); // a forced push that fails may have discarded
            bool ok = true;
            unsigned d = 0;
            try {
                switch (form) {
                case 0: ok = q.try_push(e); break;
                case 1: ok = q.try_push(Ev(1, next)); break;
                case 2: ok = q.try_move_push(e); break;
                case 3: d = q.force_move_push(e); break;
                case 4: ok = q.push(e); break;
                case 5: ok = q.push(Ev(1, next)); break;
                default: ok = q.move_push(e);
                }
            } catch (const std::bad_alloc &) {
                ksim::alloc_faults(old);
                ksim::probe("push-without-memory");
                continue;
            }
            ksim::alloc_faults(old);
            unsigned want = form == 3 && full() ? (unsigned) m.size() - max + 1 : 0;
            CHECK("queue-sequential", ok == (form == 3 || !full()), "a push into %zu of %d returned %d", m.size(), max, ok);
            CHECK("queue-sequential", d == want, "a forced push discarded %u elements instead of %u", d, want);
            for (; want; want--)
                m.pop_front();
            if (ok) m.push_back(next);
            next++;
        } else if (k < 9) {
            int form = ksim::choose(m.empty() ? 4 : 6);
            Ev e;
            e.fill(9, 9);
            uint64_t to = ksim::choose(3) * 40;
            t0 = ksim::now_ns();
            bool ok = true;
            switch (form) {
            case 0: ok = q.try_pop(e); break;
            case 1: ok = q.try_move_pop(e); break;
            case 2: ok = q.timeout_pop(e, to); break;
            case 3: ok = q.timeout_move_pop(e, to); break;
            case 4: q.pop(e); break;
            default: q.move_pop(e);
            }
            CHECK("queue-sequential", ok == !m.empty(), "a pop from %zu elements returned %d", m.size(), ok);
            CHECK("queue-sequential", e.seq == (ok ? m.front() : 9), "a pop gave %lld", (long long) e.seq);
            e.check("pop");
            if (ok) m.pop_front();
        } else if (ksim::chance(1, 8)) {
            max = sizes[ksim::choose(16)];
            q.set_max_num_items(max);
        } else if (ksim::chance(1, 4)) {
            ksim::AllocPause ap;
            int what = ksim::choose(5);
            Queue o(max);
            if (what == 0) {
                Queue c(q);
                same(c, m, "a copy");
            } else if (what == 1) {
                o = q;
                same(o, m, "an assigned queue");
            } else if (what == 2) {
                o = std::move(q);
                same(q, {}, "a moved-from queue");
                q.swap(o);
            } else if (what == 3) {
                swap(o, q);
                same(q, {}, "a swapped queue");
                q = o;
            } else {
                Queue c(std::move(q));
                same(q, {}, "a moved-from queue");
                q = std::move(c);
                q = *&q;
                q.swap(q);
            }
        }
        CHECK("queue-sequential", q.size() == m.size() && q.empty() == m.empty() && q.full() == full(),
              "size %zu empty %d full %d with %zu elements of %d", (size_t) q.size(), q.empty(), q.full(), m.size(), max);
    }
    ksim::quiet();
    same(q, m, "the queue");
}

KSIM_SCENARIO(two_queues, 30)
{
    std_faults();
    int max = ksim::range(1, 3), nt = ksim::range(2, 3), ops = ksim::range(2, 4);
    ksim::describe("two queues, max=%d threads=%d ops=%d", max, nt, ops);
    Queue q0(max), q1(max);
    Rig r;
    r.q = {&q0, &q1};
    {
        Threads th;
        for (int t = 0; t < nt; t++)
            th.go([&] {
                for (int i = 0; i < ops; i++) {
                    int k = ksim::choose(10), a = ksim::choose(2);
                    if (k < 4)
                        r.push(a, ksim::choose(4));
                    else if (k < 6)
                        r.pop(a, ksim::choose(4));
                    else if (k < 7)
                        r.query(a);
                    else if (k == 7) {
                        int h = r.h.begin(lin::SWAP, a, 0, 1 - a);
                        if (ksim::choose(2)) swap(*r.q[a], *r.q[1 - a]);
                        else r.q[a]->swap(*r.q[1 - a]);
                        r.h.end(h);
                    } else if (k == 8) {
                        int h = r.h.begin(lin::ASSIGN, a, 0, 1 - a);
                        *r.q[a] = *r.q[1 - a];
                        r.h.end(h);
                    } else if (ksim::chance(1, 3)) {
                        r.duplicate(a);
                    } else {
                        int h = r.h.begin(lin::MOVEASSIGN, a, 0, 1 - a);
                        *r.q[a] = std::move(*r.q[1 - a]);
                        r.h.end(h);
                    }
                }
            });
        th.join();
    }
    ksim::quiet();
    for (int a = 0; a < 2; a++)
        while (r.q[a]->size())
            r.pop(a, 0);
    r.h.check(lin::QUEUES, {max, max}, "not-linearizable");
    // copies and moves keep content and limit
    q0.try_push(Ev(1, 500));
    Queue c(q0);
    CHECK("queue-copy", c.size() == 1 && q0.size() == 1, "copy has %zu elements of 1", (size_t) c.size());
    while (c.try_push(Ev(1, 501)))
        CHECK("queue-copy", c.size() <= (size_t) max, "a copied queue lost its maximum size");
    Queue m(std::move(c));
    CHECK("queue-copy", m.size() == (size_t) max && !m.try_push(Ev(1, 502)), "a moved queue lost elements or its maximum size");
}
