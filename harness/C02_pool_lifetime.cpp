// C02: pooled objects outliving their pool, and their destruction.
#include "hcommon.h"
#include <klepsydra/core/object_pool_publisher.h>
#include <klepsydra/core/smart_object_pool.h>

namespace {
struct World
{
    int born = 0, dead = 0, bomb = -1; // the bomb-th object's constructor throws
    std::map<int, int> finalised, deleted;
    std::set<int> held;
} *W;
struct Obj
{
    int id;
    uint32_t magic = 0xABCD1234;
    int64_t data = 0;
    Obj()
    {
        ksim::NoPreempt np;
        if (W->bomb == 0) throw std::runtime_error("constructor");
        W->bomb--;
        id = W->born++;
    }
    Obj(const Obj &o)
        : Obj()
    {
        data = o.data;
    }
    Obj &operator=(const Obj &o)
    {
        data = o.data;
        return *this;
    }
    ~Obj()
    {
        ksim::NoPreempt np;
        CHECK("pool-lifetime", magic == 0xABCD1234, "pooled object destroyed twice");
        CHECK("pool-lifetime", !W->held.count(id), "object %d destroyed while a holder still has it", id);
        magic = 0;
        W->dead++;
    }
};
struct Del // custom deleter, must run exactly once per object
{
    void operator()(Obj *o) const
    {
        {
            ksim::NoPreempt np;
            ksim::AllocPause ap;
            CHECK("pool-lifetime", o->magic == 0xABCD1234 && ++W->deleted[o->id] == 1, "pooled object deleted twice");
        }
        delete o;
    }
};
void finalise(Obj &o)
{
    ksim::NoPreempt np;
    ksim::AllocPause ap;
    CHECK("pool-lifetime", o.magic == 0xABCD1234, "finaliser called on a destroyed object");
    CHECK("pool-lifetime", !W->held.count(o.id), "finaliser called on object %d while it is held", o.id);
    CHECK("pool-lifetime", ++W->finalised[o.id] == 1, "finaliser called twice for object %d", o.id);
}
void hold(Obj *o)
{
    ksim::NoPreempt np;
    W->held.insert(o->id);
}
void unhold(Obj *o)
{
    ksim::NoPreempt np;
    W->held.erase(o->id);
}
void use(Obj *o, int64_t v)
{
    CHECK("pool-lifetime", o->magic == 0xABCD1234, "a held object is dead");
    o->data = v;
    ksim::point();
    CHECK("pool-shared", o->data == v, "a held object was changed by somebody else");
    CHECK("pool-lifetime", o->magic == 0xABCD1234, "a held object is dead");
}
template<class D>
void outlive()
{
    std_faults();
    pooled(true);
    World w;
    W = &w;
    typedef kpsr::SmartObjectPool<Obj, D> Pool;
    bool large = large_run();
    int cap = sized(large, 1, 4, 60), nt = ksim::range(1, 3);
    bool early = ksim::chance(1, 4); // the pool goes first, always
    int fin = ksim::choose(2);
    ksim::describe("capacity=%d holders=%d finaliser=%d pool destroyed %s the releases", cap, nt, fin,
                   early ? "before" : "while");
    {
        Pool *pool = new Pool("p", cap, nullptr, fin ? std::function<void(Obj &)>(finalise) : nullptr);
        std::atomic<int> acquired{0};
        std::atomic<bool> gone{false};
        Threads th;
        for (int t = 0; t < nt; t++)
            th.go([&, t] {
                std::vector<std::shared_ptr<Obj>> mine;
                int n = sized(large, 1, 2, 30);
                for (int i = 0; i < n; i++) {
                    try {
                        mine.push_back(std::shared_ptr<Obj>(pool->acquire()));
                        hold(mine.back().get());
                        use(mine.back().get(), t * 10 + i);
                    } catch (const std::out_of_range &) {
                    }
                    if (!mine.empty() && ksim::chance(1, 4)) {
                        unhold(mine.back().get());
                        mine.pop_back();
                    }
                }
                acquired++;
                while (early && !gone)
                    std::this_thread::yield();
                for (auto &p : mine)
                    use(p.get(), t * 10 + 7);
                for (auto &p : mine) {
                    unhold(p.get());
                    p.reset();
                }
            });
        while (acquired < nt)
            std::this_thread::yield();
        destroying([&] { delete pool; });
        gone = true;
        th.join();
    }
    ksim::quiet();
    CHECK("pool-leak", w.born == cap, "the pool created %d objects for capacity %d", w.born, cap);
    CHECK("pool-leak", w.dead == w.born, "%d objects created but %d destroyed", w.born, w.dead);
}

struct CapturePub : kpsr::ObjectPoolPublisher<Obj>
{
    std::function<void(std::shared_ptr<const Obj>)> sink;
    CapturePub(int pool, std::function<void(const Obj &, Obj &)> cloner, std::function<void(Obj &)> fin,
               std::function<void(Obj &)> init = nullptr)
        : kpsr::ObjectPoolPublisher<Obj>(nullptr, "pub", "TEST", pool, init, cloner, fin)
    {}
    using kpsr::ObjectPoolPublisher<Obj>::internalPublish;
    void internalPublish(std::shared_ptr<const Obj> e) override { sink(e); }
};
} // namespace

// A pool or a pooling publisher whose construction fails at any point has taken everything down again; so has one whose use ran
// out of memory, once it is gone.
KSIM_SCENARIO(fails, 10)
{
    std_faults();
    pooled(true);
    World w;
    W = &w;
    bool publisher = ksim::choose(2), low = ksim::choose(2);
    int pool = ksim::range(publisher ? 0 : 1, 8), done = 0, refused = 0, n = ksim::range(0, 6);
    int init_bomb = ksim::chance(1, 3) ? ksim::choose(pool + 4) : -1;
    if (ksim::chance(1, 3)) w.bomb = ksim::choose(pool + 4);
    if (low) ksim::enable(ksim::F_BADALLOC, 500);
    ksim::describe("%s of %d%s%s%s", publisher ? "publisher" : "pool", pool, low ? ", memory short" : "",
                   init_bomb >= 0 ? ", initialiser throws" : "", w.bomb >= 0 ? ", constructor throws" : "");
    auto init = [&](Obj &) {
        if (init_bomb == 0) throw std::runtime_error("initialiser");
        init_bomb--;
    };
    auto quietly = [&](const std::function<void()> &f) {
        try {
            ksim::alloc_faults(low);
            f();
            ksim::alloc_faults(false);
            return true;
        } catch (std::bad_alloc &) {
            ksim::alloc_faults(false);
            ksim::probe("no-memory");
        } catch (std::runtime_error &) {
            ksim::alloc_faults(false);
            ksim::probe("user-code-threw");
        }
        return false;
    };
    std::function<void(Obj &)> fi = init, ff = ksim::choose(2) ? std::function<void(Obj &)>(finalise) : nullptr;
    std::vector<std::shared_ptr<const Obj>> kept;
    kept.reserve(8);
    if (publisher) {
        std::function<void(const Obj &, Obj &)> cl = [](const Obj &a, Obj &b) { b.data = a.data; };
        std::unique_ptr<CapturePub> pub;
        if (quietly([&] { pub.reset(new CapturePub(pool, cl, ff, fi)); })) {
            pub->sink = [&](std::shared_ptr<const Obj> e) { // the reserved space suffices
                kept.push_back(e);
            };
            w.bomb++; // the original below
            bool go = w.bomb != 0 || (w.bomb = -1);
            Obj o;
            for (int i = 0; i < n && go; i++) {
                o.data = i;
                size_t had = kept.size();
                bool ok = quietly([&] { pub->publish(o); });
                CHECK("pool-lost", kept.size() == had + ok, "a publication that %s published %zu events", ok ? "returned" : "failed",
                      kept.size() - had);
                CHECK("pool-shared", !ok || kept.back()->data == i, "the event has other content");
                if (ksim::choose(2)) kept.clear();
            }
            if (ksim::choose(2)) kept.clear();
        }
    } else {
        typedef kpsr::SmartObjectPool<Obj> Pool;
        std::unique_ptr<Pool> p;
        if (quietly([&] { p.reset(new Pool("p", pool, fi, ff)); })) {
            for (int i = 0; i < n * 3; i++) {
                bool full = (int) kept.size() == pool;
                try {
                    if (quietly([&] { kept.push_back(std::shared_ptr<Obj>(p->acquire())); })) done++;
                } catch (std::out_of_range &) {
                    ksim::alloc_faults(false);
                    refused++;
                    CHECK("pool-lost", full, "the pool is exhausted although only %zu of %d objects are held", kept.size(), pool);
                }
                if (ksim::chance(1, 3)) kept.clear();
            }
        }
    }
    kept.clear();
    CHECK("pool-leak", w.dead == w.born, "%d objects created but %d destroyed", w.born, w.dead);
}
KSIM_SCENARIO(outlive_default_deleter, 40) { outlive<std::default_delete<Obj>>(); }
KSIM_SCENARIO(outlive_custom_deleter, 30) { outlive<Del>(); }

// Events of a pooling publisher are still referenced, and released by another thread, when it is destroyed.
KSIM_SCENARIO(publisher_outlived, 30)
{
    std_faults();
    pooled(true);
    World w;
    W = &w;
    bool large = large_run();
    int pool = sized(large, 0, 3, 40), n = sized(large, 1, 4, 60);
    ksim::describe("pool=%d events=%d", pool, n);
    {
        std::deque<std::shared_ptr<const Obj>> q;
        std::mutex m;
        auto *pub = new CapturePub(pool, [](const Obj &a, Obj &b) { b.data = a.data; },
                                   ksim::choose(2) ? std::function<void(Obj &)>(finalise) : nullptr);
        pub->sink = [&](std::shared_ptr<const Obj> e) {
            hold(const_cast<Obj *>(e.get()));
            std::lock_guard<std::mutex> l(m);
            q.push_back(std::move(e));
        };
        std::atomic<int> got{0};
        Threads th;
        std::atomic<bool> end{false};
        th.go([&] {
            for (;;) {
                std::shared_ptr<const Obj> e;
                bool fini = end;
                {
                    std::lock_guard<std::mutex> l(m);
                    if (!q.empty()) {
                        e = std::move(q.front());
                        q.pop_front();
                    }
                }
                if (e) {
                    CHECK("pool-shared", e->magic == 0xABCD1234 && e->data == 1000 + got, "event %d has content %lld",
                          (int) got, (long long) e->data);
                    got++;
                    unhold(const_cast<Obj *>(e.get()));
                } else if (fini)
                    return;
                else
                    std::this_thread::yield();
            }
        });
        for (int i = 0; i < n; i++) {
            Obj o;
            o.data = 1000 + i;
            pub->publish(o);
        }
        destroying([&] { delete pub; });
        end = true;
        th.join();
        CHECK("pool-lost", got == n, "%d events published, %d received", n, (int) got);
    }
    CHECK("pool-leak", w.dead == w.born, "%d objects created but %d destroyed", w.born, w.dead);
}
