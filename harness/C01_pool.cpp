// C01: object pool and the lock-free stack under it: one holder, nothing lost, honest exhaustion.
#include "hcommon.h"
#include <klepsydra/core/lock_free_stack.h>
#include <klepsydra/core/smart_object_pool.h>

namespace {
// Records, for every object, the intervals [acquire call, release return] in which it may be outside the pool.
struct Ledger
{
    struct Iv
    {
        uint64_t s, e;
    };
    std::vector<Iv> out;
    std::vector<Iv> failed;
    int begin()
    {
        ksim::NoPreempt np;
        out.push_back({ksim::step(), UINT64_MAX});
        return (int) out.size() - 1;
    }
    void fail(int h)
    {
        ksim::NoPreempt np;
        failed.push_back({out[h].s, ksim::step()});
        out[h] = {0, 0};
    }
    void back(int h)
    {
        ksim::NoPreempt np;
        out[h].e = ksim::step();
    }
    // an acquire may report exhaustion only if at some instant during the call no object can have been in the pool
    void check(int cap)
    {
        for (auto &f : failed) {
            int best = 0;
            std::vector<uint64_t> pts{f.s, f.e};
            for (auto &o : out)
                if (o.e && o.s >= f.s && o.s <= f.e) pts.push_back(o.s);
            for (uint64_t t : pts) {
                int n = 0;
                for (auto &o : out)
                    if (o.e && o.s <= t && t <= o.e) n++;
                best = std::max(best, n);
            }
            CHECK("pool-false-exhaustion", best >= cap,
                  "acquire reported an empty pool although at least %d of %d objects were in it all the time", cap - best, cap);
            ksim::probe("exhausted");
        }
    }
};

struct Obj
{
    int id = -1;
    int64_t data[3] = {0, 0, 0};
};
} // namespace

// Threads pop and push distinct tokens: a token has at most one holder, none is lost or duplicated.
KSIM_SCENARIO(stack_conservation, 45)
{
    std_faults();
    pooled(true);
    bool large = large_run();
    int cap = sized(large, ksim::chance(1, 8) ? 0 : 1, 4, 80), nt = ksim::range(2, 4), ops = sized(large, 2, 8, 60);
    ksim::describe("capacity=%d threads=%d ops=%d", cap, nt, ops);
    int next = 0;
    kpsr::LockFreeStack<int> st(cap, [&](int &v) { v = next++; });
    std::vector<int> holder(cap, 0);
    Ledger led;
    {
        Threads th;
        for (int t = 1; t <= nt; t++)
            th.go([&, t] {
                std::vector<std::pair<int, int>> mine;
                auto give = [&] {
                    int v, h;
                    {
                        ksim::NoPreempt np;
                        v = mine.back().first;
                        h = mine.back().second;
                        mine.pop_back();
                        holder[v] = 0;
                    }
                    bool ok = st.push(v);
                    led.back(h);
                    CHECK("pool-lost", ok, "push refused element %d although it had just been taken out", v);
                };
                for (int i = 0; i < ops; i++) {
                    if (mine.empty() || ksim::chance(1, 2)) {
                        int v = -7;
                        int h = led.begin();
                        bool ok = st.pop(v);
                        ksim::NoPreempt np;
                        if (ok) {
                            CHECK("pool-invented", v >= 0 && v < cap, "pop returned %d, never in the stack", v);
                            CHECK("pool-duplicate", holder[v] == 0, "element %d popped by %d while held by %d", v, t, holder[v]);
                            holder[v] = t;
                            mine.push_back({v, h});
                        } else
                            led.fail(h);
                    } else
                        give();
                }
                while (!mine.empty())
                    give();
            });
        th.join();
    }
    led.check(cap);
    ksim::quiet();
    std::set<int> seen;
    int v;
    for (int i = 0; i < cap; i++) {
        bool ok = st.pop(v);
        CHECK("pool-lost", ok, "only %d of %d elements left after everybody returned theirs", i, cap);
        CHECK("pool-duplicate", seen.insert(v).second, "element %d is in the stack twice", v);
    }
    CHECK("pool-duplicate", !st.pop(v), "more elements than capacity");
}

// More objects than fit the small numbers the other scenarios use, in one or two threads.
KSIM_SCENARIO(large_capacity, 1)
{
    static const int sizes[] = {33, 64, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000};
    static const int huge[] = {32767, 32768, 32769, 40000, 65534, 65535};
    bool big = ksim::chance(1, 12);
    int cap = big ? huge[ksim::choose(6)] : sizes[ksim::choose(13)];
    int nt = big ? 1 : ksim::range(1, 2);
    ksim::describe("capacity=%d threads=%d", cap, nt);
    ksim::set_budget(20000000, 40000000);
    if (!big && ksim::choose(2)) {
        typedef kpsr::SmartObjectPool<Obj> Pool;
        int next = 0;
        Pool pool("p", cap, [&](Obj &o) { o.id = next++; });
        for (int round = 0; round < 2; round++) {
            std::vector<char> out(cap, 0);
            std::vector<std::shared_ptr<Obj>> all;
            for (int i = 0; i < cap; i++)
                try {
                    all.push_back(std::shared_ptr<Obj>(pool.acquire()));
                    int id = all.back()->id;
                    CHECK("pool-invented", id >= 0 && id < cap, "acquired an object that is not the pool's");
                    CHECK("pool-duplicate", !out[id], "object %d acquired twice", id);
                    out[id] = 1;
                } catch (const std::out_of_range &) {
                    ksim::fail("pool-lost", "only %d of %d objects can be acquired", i, cap);
                }
            bool threw = false;
            try {
                auto p = pool.acquire();
            } catch (const std::out_of_range &) {
                threw = true;
            }
            CHECK("pool-duplicate", threw, "acquired more objects than the capacity %d", cap);
            for (int i = cap - 1; i > 0; i--) // release in some other order
                std::swap(all[i], all[(i * 7 + round) % (i + 1)]);
        }
        return;
    }
    int next = 0;
    kpsr::LockFreeStack<int> st(cap, [&](int &v) { v = next++; });
    std::vector<char> out(cap, 0);
    {
        Threads th;
        for (int t = 0; t < nt; t++)
            th.go([&] {
                std::vector<int> mine;
                int v;
                while ((int) mine.size() < cap / nt) {
                    bool ok = st.pop(v);
                    CHECK("pool-lost", ok, "only %zu of %d elements could be taken", mine.size(), cap / nt);
                    ksim::NoPreempt np;
                    CHECK("pool-invented", v >= 0 && v < cap, "pop returned %d, never in the stack", v);
                    CHECK("pool-duplicate", !out[v], "element %d popped twice", v);
                    out[v] = 1;
                    mine.push_back(v);
                }
                for (auto x : mine) {
                    out[x] = 0;
                    CHECK("pool-lost", st.push(x), "push refused element %d although it had just been taken out", x);
                }
            });
        th.join();
    }
    int v;
    for (int i = 0; i < cap; i++) {
        CHECK("pool-lost", st.pop(v), "only %d of %d elements left after everybody returned theirs", i, cap);
        CHECK("pool-duplicate", v >= 0 && v < cap && !out[v], "element %d is in the stack twice", v);
        out[v] = 1;
    }
    CHECK("pool-duplicate", !st.pop(v), "more elements than capacity");
}

// One thread is stalled in the middle of a pop or push while the others perform an exact multiple of a
// power of two of operations (a tag that wraps must not make a stale head look current).
KSIM_SCENARIO(stack_tag_wrap, 12)
{
    ksim::set_budget(8000000, 40000000);
    int cap = ksim::range(2, 4);
    bool dopush = ksim::chance(1, 3);
    int w = ksim::chance(1, 40) ? 65536 : 256;
    unsigned hold = 1 + ksim::choose(30);
    ksim::describe("capacity=%d stalled=%s after %u points, others do a multiple of %d operations", cap,
                   dopush ? "push" : "pop", hold, w);
    int next = 0;
    kpsr::LockFreeStack<int> st(cap, [&](int &v) { v = next++; });
    std::vector<int> holder(cap, 0);
    uint64_t n = 0;
    auto take = [&](int t) {
        int v = -7;
        bool ok = st.pop(v);
        ksim::NoPreempt np;
        if (!ok) return -1;
        n++;
        CHECK("pool-invented", v >= 0 && v < cap, "pop returned %d, never in the stack", v);
        CHECK("pool-duplicate", holder[v] == 0, "element %d popped by %d while held by %d", v, t, holder[v]);
        holder[v] = t;
        return v;
    };
    auto give = [&](int v) {
        {
            ksim::NoPreempt np;
            n++;
            holder[v] = 0;
        }
        bool ok = st.push(v);
        CHECK("pool-lost", ok, "push refused element %d although it had just been taken out", v);
    };
    Threads th;
    int aid = -1;
    bool adone = false;
    th.go([&] {
        int v = -1;
        if (dopush) v = take(1);
        aid = ksim::self();
        ksim::hold_after(hold, 3600LL * 1000000000);
        if (dopush)
            give(v);
        else {
            v = take(1);
            ksim::hold_cancel();
            if (v >= 0) give(v);
        }
        ksim::hold_cancel();
        adone = true;
    });
    while (!adone && (aid < 0 || !ksim::held(aid)))
        std::this_thread::yield();
    n = 0;
    if (!adone) {
        ksim::probe("stalled_inside_operation");
        {
            Threads o;
            for (int t = 2; t <= 3; t++)
                o.go([&, t] {
                    std::vector<int> mine;
                    int k = ksim::range(1, 4);
                    for (int i = 0; i < k; i++) {
                        if (mine.empty() || ksim::chance(1, 2)) {
                            int v = take(t);
                            if (v >= 0) mine.push_back(v);
                        } else {
                            give(mine.back());
                            mine.pop_back();
                        }
                    }
                    while (!mine.empty()) {
                        give(mine.back());
                        mine.pop_back();
                    }
                });
            o.join();
        }
        while (n % w) {
            int v = take(4);
            if (v < 0) break;
            give(v);
        }
        ksim::release(aid);
    }
    th.join();
    std::set<int> seen;
    int v;
    ksim::quiet();
    for (int i = 0; i < cap; i++) {
        bool ok = st.pop(v);
        CHECK("pool-lost", ok, "only %d of %d elements left after everybody returned theirs", i, cap);
        CHECK("pool-duplicate", seen.insert(v).second, "element %d is in the stack twice", v);
    }
    CHECK("pool-duplicate", !st.pop(v), "more elements than capacity");
}

// The pool on top of it: objects are handed between threads, released by others, and written by each holder.
KSIM_SCENARIO(pool_conservation, 43)
{
    std_faults();
    pooled(true);
    bool large = large_run();
    int cap = sized(large, ksim::chance(1, 8) ? 0 : 1, 4, 80), nt = ksim::range(2, 4), ops = sized(large, 2, 6, 60);
    ksim::describe("capacity=%d threads=%d ops=%d", cap, nt, ops);
    int next = 0;
    typedef kpsr::SmartObjectPool<Obj> Pool;
    Pool pool("p", cap, [&](Obj &o) { o.id = next++; });
    std::vector<int> holder(cap, 0);
    std::vector<int> handle(cap, -1);
    Ledger led;
    std::vector<std::shared_ptr<Obj>> mailbox; // objects passed to whoever comes next
    std::atomic<int> refused{0};
    auto use = [&](Obj *o, int t) {
        for (int k = 0; k < 3; k++) {
            ksim::cell_write(&o->data[k], "pooled object");
            o->data[k] = t * 100 + k;
        }
        ksim::point();
        for (int k = 0; k < 3; k++)
            CHECK("pool-shared", o->data[k] == t * 100 + k, "object %d changed while thread %d held it", o->id, t);
    };
    {
        Threads th;
        for (int t = 1; t <= nt; t++)
            th.go([&, t] {
                std::vector<std::shared_ptr<Obj>> mine;
                auto drop = [&](std::shared_ptr<Obj> p) {
                    int id = p->id, h;
                    {
                        ksim::NoPreempt np;
                        h = handle[id];
                        holder[id] = 0;
                    }
                    p.reset();
                    led.back(h);
                };
                for (int i = 0; i < ops; i++) {
                    int what = mine.empty() ? ksim::choose(2) * 3 : ksim::choose(4);
                    if (what == 0) {
                        int h = led.begin();
                        Pool::ptr_type p(nullptr, Pool::ptr_type::deleter_type(std::weak_ptr<Pool *>()));
                        try {
                            p = pool.acquire();
                        } catch (const std::out_of_range &) {
                        }
                        if (!p) {
                            refused++;
                            led.fail(h);
                            continue;
                        }
                        {
                            ksim::NoPreempt np;
                            CHECK("pool-invented", p->id >= 0 && p->id < cap, "acquired an object that is not the pool's");
                            CHECK("pool-duplicate", holder[p->id] == 0, "object %d acquired by %d while held by %d", p->id, t,
                                  holder[p->id]);
                            holder[p->id] = t;
                            handle[p->id] = h;
                        }
                        mine.push_back(std::shared_ptr<Obj>(std::move(p)));
                        use(mine.back().get(), t);
                    } else if (what == 1) {
                        auto p = std::move(mine.back());
                        mine.pop_back();
                        drop(std::move(p));
                    } else if (what == 2) { // hand over
                        auto p = std::move(mine.back());
                        mine.pop_back();
                        ksim::NoPreempt np;
                        mailbox.push_back(std::move(p));
                    } else {
                        std::shared_ptr<Obj> p;
                        {
                            ksim::NoPreempt np;
                            if (!mailbox.empty()) {
                                p = std::move(mailbox.back());
                                mailbox.pop_back();
                                ksim::cell_forget(&p->data[0]), ksim::cell_forget(&p->data[1]), ksim::cell_forget(&p->data[2]);
                                holder[p->id] = t;
                            }
                        }
                        if (p) drop(std::move(p));
                    }
                }
                while (!mine.empty()) {
                    auto p = std::move(mine.back());
                    mine.pop_back();
                    drop(std::move(p));
                }
            });
        th.join();
        for (auto &p : mailbox)
            p.reset();
    }
    CHECK("pool-refusals", (long) pool.objectPoolFails == (long) refused, "the pool counted %ld refused acquisitions, there were %d", (long) pool.objectPoolFails, (int) refused);
    led.check(cap);
    ksim::quiet();
    std::set<Obj *> seen;
    std::vector<std::shared_ptr<Obj>> all;
    for (int i = 0; i < cap; i++) {
        try {
            all.push_back(std::shared_ptr<Obj>(pool.acquire()));
        } catch (const std::out_of_range &) {
            ksim::fail("pool-lost", "only %d of %d objects left after everybody returned theirs", i, cap);
        }
        CHECK("pool-duplicate", seen.insert(all.back().get()).second, "the same object was acquired twice");
    }
    bool threw = false;
    try {
        auto p = pool.acquire();
    } catch (const std::out_of_range &) {
        threw = true;
    }
    CHECK("pool-duplicate", threw, "acquired more objects than the capacity %d", cap);
}
