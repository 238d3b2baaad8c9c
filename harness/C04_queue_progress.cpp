// C04: blocked callers of SafeQueue wake up, timed pops are on time, nothing deadlocks.
#include "queue_common.h"

// As many elements are pushed as are popped, in every blocking form: everybody must finish.
KSIM_SCENARIO(everybody_finishes, 40)
{
    std_faults();
    bool large = large_run();
    int max = ksim::choose(5), np = sized(large, 1, 3, 8), nc = sized(large, 1, 3, 8), per = sized(large, 1, 3, 30);
    int total = np * per;
    if (max > 2) max = total; // room for all
    bool room = max == 0 || max == total;
    ksim::describe("max=%d producers=%d consumers=%d each=%d", max, np, nc, per);
    Queue q(max);
    std::atomic<int> claimed{0}, got{0};
    std::set<int64_t> seen;
    {
        Threads th;
        for (int p = 0; p < np; p++)
            th.go([&, p] {
                for (int i = 0; i < per; i++) {
                    Ev e(p + 1, i);
                    switch (ksim::choose(room ? 8 : 5)) {
                    case 0: q.push(e); break;
                    case 1: q.push(Ev(p + 1, i)); break;
                    case 2: q.move_push(e); break;
                    case 3:
                        if (!q.try_move_push(e)) q.move_push(e);
                        break;
                    case 5:
                    case 6:
                    case 7:
                        CHECK("queue-lost", q.force_move_push(e) == 0, "a forced push discarded an element although there was room");
                        break;
                    default:
                        for (int k = 0; !q.try_push(e); k++)
                            if (k > 2) {
                                q.push(e);
                                break;
                            }
                    }
                }
            });
        for (int c = 0; c < nc; c++)
            th.go([&] {
                while (claimed.fetch_add(1) < total) {
                    Ev e;
                    switch (ksim::choose(4)) {
                    case 0: q.pop(e); break;
                    case 1: q.move_pop(e); break;
                    case 2:
                        // one try with a timeout, then block for good
                        if (!q.timeout_pop(e, ksim::choose(4) * 30)) q.pop(e);
                        break;
                    default:
                        if (!q.timeout_move_pop(e, ksim::choose(4) * 30)) q.pop(e);
                    }
                    e.check("pop");
                    ksim::NoPreempt n;
                    CHECK("queue-duplicate", seen.insert(e.src * 100 + e.seq).second, "element popped twice");
                    got++;
                }
            });
        th.join();
    }
    CHECK("queue-lost", got == total, "%d of %d elements received", (int) got, total);
    CHECK("queue-lost", q.size() == 0, "elements left over");
}

// A timed pop competes with blocking pops for few elements: nobody may stay blocked with an element in the queue.
KSIM_SCENARIO(timed_and_blocking, 20)
{
    std_faults();
    int nb = ksim::range(1, 2), nt = ksim::range(1, 2);
    ksim::describe("blocking=%d timed=%d", nb, nt);
    Queue q(10);
    std::atomic<int> bdone{0};
    Threads th, timed;
    for (int i = 0; i < nb; i++)
        th.go([&] {
            Ev e;
            q.pop(e);
            e.check("pop");
            bdone++;
        });
    for (int i = 0; i < nt; i++)
        timed.go([&] {
            Ev e;
            e.fill(9, 9);
            int64_t t0 = ksim::now_ns();
            uint64_t to = 20 + 20 * ksim::choose(4);
            bool ok = ksim::choose(2) ? q.timeout_pop(e, to) : q.timeout_move_pop(e, to);
            if (ok) {
                e.check("timed pop");
                CHECK("queue-invented", e.src == 1, "timed pop returned true without an element");
            } else {
                CHECK("queue-early-timeout", ksim::now_ns() - t0 >= (int64_t) to * 1000,
                      "timed pop gave up after %lld ns of %llu us", (long long) (ksim::now_ns() - t0), (unsigned long long) to);
                ksim::probe("timed_pop_expired");
            }
        });
    int pushed = 0;
    for (int i = 0; i < nb; i++) {
        ksim::advance(ksim::choose(5) * 20000);
        Ev e(1, i);
        q.push(e);
        pushed++;
    }
    timed.join();
    ksim::quiet();
    int idle = 0;
    while (bdone < nb) {
        ksim::advance(100000);
        if (q.size() == 0) {
            if (bdone < nb) q.push(Ev(1, pushed++));
            idle = 0;
        } else if (bdone < nb && ++idle > 100)
            ksim::fail("lost-wakeup", "a pop stays blocked although the queue has had %zu element(s) for 10 ms", (size_t) q.size());
    }
    th.join();
}

// Timing of a timed pop on a queue whose elements others steal, with spurious wake-ups and clock jumps only.
KSIM_SCENARIO(timeout_bounds, 15)
{
    ksim::enable(ksim::F_SPURIOUS, 700);
    ksim::enable(ksim::F_CLOCKJUMP, 600);
    ksim::enable(ksim::F_STOREBUF, 200);
    uint64_t to = ksim::chance(1, 6) ? 0 : 200 + 300 * ksim::choose(60);
    int thieves = ksim::choose(3);
    if (ksim::chance(1, 8)) { // long ones: the value must not be cut off anywhere
        static const uint64_t longer[] = {65537, 300000, 3000000, 70000000, 2200000000ull, 4294967297ull, 5000000000ull};
        to = longer[ksim::choose(7)];
        thieves = 0;
    }
    ksim::describe("timeout=%lluus thieves=%d", (unsigned long long) to, thieves);
    Queue q(4);
    std::atomic<bool> end{false};
    Threads th;
    for (int i = 0; i < thieves; i++)
        th.go([&] {
            while (!end) {
                Ev e;
                q.try_push(Ev(1, 1));
                q.try_pop(e);
                ksim::advance(5000 + 40000 * ksim::choose(5));
            }
        });
    for (int k = 0; k < 2; k++) {
        Ev e;
        int64_t t0 = ksim::now_ns();
        bool ok = ksim::choose(2) ? q.timeout_pop(e, to) : q.timeout_move_pop(e, to);
        int64_t dt = ksim::now_ns() - t0;
        if (ok)
            e.check("timed pop");
        else {
            CHECK("queue-early-timeout", dt >= (int64_t) to * 1000, "timed pop gave up after %lld of %lld ns", (long long) dt,
                  (long long) to * 1000);
            ksim::probe("timed_pop_expired");
        }
        CHECK("queue-late-timeout", dt <= (int64_t) to * 1000 + 150000 + (int64_t) to * 50,
              "timed pop with %lld ns returned after %lld ns", (long long) to * 1000, (long long) dt);
    }
    end = true;
    th.join();
}

// Swaps, assignments and maximum changes: no deadlock, and they wake whoever can go on.
KSIM_SCENARIO(swap_and_assign, 25)
{
    std_faults();
    int which = ksim::choose(4);
    Queue a(2), b(2);
    static const char *names[] = {"opposite swaps/assignments", "swap wakes pop", "swap wakes push", "higher maximum wakes push"};
    ksim::describe("%s", names[which]);
    if (which == 0) {
        Threads th;
        for (int t = 0; t < 3; t++)
            th.go([&, t] {
                Queue &x = t & 1 ? a : b, &y = t & 1 ? b : a;
                for (int i = 0; i < 2; i++)
                    switch (ksim::choose(4)) {
                    case 0: x.swap(y); break;
                    case 1: x = y; break;
                    case 2: x = std::move(y); break;
                    default: x.try_push(Ev(1, t)); break;
                    }
            });
        th.join();
        return;
    }
    Threads th;
    int n = ksim::range(1, 2);
    if (which == 1) {
        for (int i = 0; i < n; i++)
            b.try_push(Ev(1, i));
        for (int i = 0; i < n; i++)
            th.go([&] {
                Ev e;
                a.pop(e);
                e.check("pop");
            });
    } else {
        for (int i = 0; i < 2; i++)
            a.try_push(Ev(1, i));
        for (int i = 0; i < n; i++)
            th.go([&] { a.push(Ev(2, 1)); });
    }
    ksim::advance(ksim::choose(3) * 10000);
    if (which == 3) {
        a.set_max_num_items(ksim::choose(2) ? 5 : 0);
    } else
        switch (ksim::choose(which == 1 ? 4 : 3)) {
        case 0: a.swap(b); break;
        case 1: b.swap(a); break;
        case 2:
            if (which == 1) a = std::move(b);
            else b = std::move(a);
            break;
        case 3: a = b; break;
        }
    th.join();
}

// Elements whose copies may throw. An operation that fails this way is over for its caller, but it must not leave
// others asleep that could go on.
namespace {
struct Fragile : Ev
{
    bool fails = false;
    Fragile() {}
    Fragile(int64_t s, int64_t q)
        : Ev(s, q)
    {}
    Fragile(const Fragile &o)
        : Ev(o)
    {
        o.trip();
    }
    Fragile &operator=(const Fragile &o)
    {
        o.trip();
        Ev::operator=(o);
        return *this;
    }
    static __thread int left; // how many more copies of this thread may fail
    void trip() const
    {
        if (left > 0 && ksim::fault(ksim::F_LISTENERTHROW, 1, 3)) {
            left--;
            throw std::runtime_error("copy");
        }
    }
};
__thread int Fragile::left;
} // namespace
KSIM_SCENARIO(failed_operations, 25)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 900);
    int max = ksim::range(0, 3), np = ksim::range(1, 3), nc = ksim::range(2, 3), per = ksim::range(1, 4);
    ksim::describe("max=%d producers=%d consumers=%d each=%d, copies throw", max, np, nc, per);
    kpsr::mem::SafeQueue<Fragile> q(max);
    std::atomic<int> pushed{0}, busy{np}, got{0}, failing{nc - 1}, active{nc};
    std::atomic<bool> release{false};
    Threads prod, cons;
    for (int p = 0; p < np; p++)
        prod.go([&, p] {
            for (int i = 0; i < per; i++) {
                Fragile e(p + 1, i);
                Fragile::left = 1;
                try {
                    switch (ksim::choose(6)) {
                    case 0: q.push(e); break;
                    case 1: q.push(Fragile(p + 1, i)); break;
                    case 2: q.move_push(e); break;
                    case 3:
                        if (!q.try_move_push(e)) q.move_push(e);
                        break;
                    case 4:
                        if (!q.try_push(Fragile(p + 1, i))) q.push(e);
                        break;
                    default:
                        if (!q.try_push(e)) q.push(e);
                    }
                    pushed++;
                } catch (const std::runtime_error &) {
                    ksim::probe("push_failed");
                    i--;
                    if (ksim::choose(2)) { // gives up
                        ksim::probe("producer_gave_up");
                        break;
                    }
                }
                Fragile::left = 0;
            }
            busy--;
        });
    for (int c = 0; c < nc; c++)
        cons.go([&] {
            for (;;) {
                Fragile e;
                // the last consumer standing does not fail
                Fragile::left = failing.fetch_sub(1) > 0 ? 1 : (failing++, 0);
                int had = Fragile::left;
                try {
                    switch (ksim::choose(4)) {
                    case 0: q.pop(e); break;
                    case 1: q.move_pop(e); break;
                    case 2:
                        if (!q.timeout_pop(e, 30)) q.pop(e);
                        break;
                    default:
                        if (!q.timeout_move_pop(e, 30)) q.pop(e);
                    }
                } catch (const std::runtime_error &) {
                    ksim::probe("pop_failed");
                    active--;
                    while (!release)
                        ksim::advance(50000);
                    Fragile::left = 0;
                    continue;
                }
                if (had && Fragile::left) failing++;
                Fragile::left = 0;
                e.check("pop");
                if (e.src == 99) return;
                got++;
            }
        });
    ksim::advance(ksim::choose(4) * 50000);
    ksim::quiet();
    int idle = 0, seen = -1;
    while (busy > 0 || got < pushed) {
        ksim::advance(100000);
        int now = got + pushed - busy;
        idle = now == seen ? idle + 1 : 0;
        seen = now;
        if (idle > 200)
            ksim::fail("lost-wakeup", "%d pushers and %d consumers are left waiting with %zu element(s) in a queue of %d", (int) busy,
                       (int) active, (size_t) q.size(), max);
    }
    CHECK("queue-duplicate", got == pushed, "%d elements received of %d accepted", (int) got, (int) pushed);
    release = true;
    prod.join();
    for (int c = 0; c < nc; c++)
        q.push(Fragile(99, 0));
    cons.join();
    CHECK("queue-lost", q.size() == 0, "elements left over");
}

// A forced push that fails may have made room on its way: whoever waits for room must be told.
KSIM_SCENARIO(failed_force, 6)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 900);
    int max = ksim::range(1, 3), waiters = ksim::range(1, 2), forcers = ksim::range(1, 2);
    ksim::describe("max=%d blocked pushers=%d forcing=%d, copies throw", max, waiters, forcers);
    kpsr::mem::SafeQueue<Fragile> q(max);
    for (int i = 0; i < max; i++)
        q.push(Fragile(9, i));
    std::atomic<int> waiting{waiters};
    Threads w, f;
    for (int i = 0; i < waiters; i++)
        w.go([&, i] {
            q.push(Fragile(i + 1, 0));
            waiting--;
        });
    for (int i = 0; i < forcers; i++)
        f.go([&, i] {
            if (ksim::choose(2)) ksim::advance(ksim::choose(3) * 20000);
            Fragile e(20 + i, 0);
            Fragile::left = 1;
            try {
                q.force_move_push(e);
            } catch (const std::runtime_error &) {
                ksim::probe("forced_push_failed");
            }
            Fragile::left = 0;
        });
    f.join();
    ksim::quiet();
    for (int idle = 0; waiting > 0;) {
        ksim::advance(100000);
        if ((int) q.size() < max && waiting > 0) {
            if (++idle > 100)
                ksim::fail("lost-wakeup", "%d pushers are left waiting with %zu element(s) in a queue of %d", (int) waiting, (size_t) q.size(), max);
        } else {
            idle = 0;
            Fragile e;
            q.try_pop(e);
        }
    }
    w.join();
}
