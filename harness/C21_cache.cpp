// C21: cache listeners read while events arrive.
#include "test_container.h"
#include "lin.h"
#include <sys/types.h>
#include <klepsydra/core/cache_listener.h>

namespace {
bool may_throw; // whether copies may fail in this run
int copy_us;    // how long a copy takes
int64_t copied_at, copying;
struct Item
{
    Ev ev;
    std::string text;
    Item() {}
    Item(int64_t s, int64_t q) : ev(s, q), text(make(s, q)) {}
    Item(const Item &o) : ev(o.ev)
    {
        int64_t t0 = ksim::now_ns();
        ksim::point();
        if (copy_us) ksim::advance(copy_us * 1000ll);
        if (may_throw && ksim::fault(ksim::F_LISTENERTHROW, 1, 3)) throw std::runtime_error("copy");
        text = o.text;
        copied_at = ksim::now_ns();
        copying = copied_at - t0;
    }
    Item &operator=(const Item &o)
    {
        ev = o.ev;
        ksim::point();
        if (may_throw && ksim::fault(ksim::F_LISTENERTHROW, 1, 3)) throw std::runtime_error("copy");
        text = o.text;
        return *this;
    }
    static std::string make(int64_t s, int64_t q) { return "event number " + std::to_string(q) + " received from source " + std::to_string(s); }
    int64_t id() const { return ev.src * 1000 + ev.seq; }
    void check(const char *w) const
    {
        ev.check(w);
        CHECK("torn-event", ev.src == 0 ? text.empty() : text == make(ev.src, ev.seq), "%s: text and numbers of two events", w);
    }
};
struct Kept
{
    std::shared_ptr<Item> e;
    int64_t id;
};

KSIM_SCENARIO(threads, 5)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 300);
    ksim::enable(ksim::F_BADALLOC, 300);
    may_throw = ksim::enabled(ksim::F_LISTENERTHROW);
    copy_us = 0;
    std::unique_ptr<kpsr::mem::MultiThreadCacheListener<Item>> cache_(new kpsr::mem::MultiThreadCacheListener<Item>);
    auto &cache = *cache_;
    int np = ksim::range(1, 2), nr = ksim::range(1, 3);
    std::vector<int> per(np), reads(nr);
    int all = 0;
    bool large = large_run();
    for (auto &x : per) all += x = sized(large, 1, 4, 60);
    for (auto &x : reads) x = sized(large, 1, 4, 60);
    ksim::describe("threads sources=%d readers=%d events=%d", np, nr, all);
    struct Get
    {
        uint64_t begin, end;
        int c;
        int64_t id;
    };
    struct Put
    {
        uint64_t begin, end;
        int64_t id;
    };
    std::vector<lin::Op> h;
    std::vector<Put> puts;
    std::vector<Get> gets;
    h.reserve(200);
    puts.reserve(100);
    gets.reserve(100);
    Threads ts;
    for (int i = 0; i < np; i++)
        ts.go([&, i] {
            for (int j = 1; j <= per[i]; j++) {
                std::shared_ptr<Item> e = std::make_shared<Item>(i + 1, j);
                bool raw = ksim::chance(1, 3), ok = true;
                uint64_t b = ksim::step();
                ksim::alloc_faults(true);
                try {
                    if (raw)
                        cache.onEventReceivedRaw(e);
                    else if (ksim::chance(1, 2))
                        cache.cacheListenerFunction(*e);
                    else
                        cache.onEventReceived(*e);
                } catch (std::bad_alloc &) {
                    ok = false;
                } catch (std::runtime_error &) {
                    ok = false;
                }
                ksim::alloc_faults(false);
                if (!raw) e->ev.fill(9, 9); // the source reuses its own event
                if (!raw) e->text = "reused";
                if (!ok) {
                    ksim::probe("copy-failed");
                    continue;
                }
                ksim::NoPreempt n;
                lin::Op o;
                o.call = b;
                o.ret = ksim::step();
                o.kind = lin::RSET;
                o.b = (i + 1) * 1000 + j;
                o.thread = i;
                h.push_back(o);
                puts.push_back({b, o.ret, o.b});
            }
        });
    for (int i = 0; i < nr; i++)
        ts.go([&, i] {
            std::vector<Kept> kept;
            for (int j = 0; j < reads[i]; j++) {
                uint64_t b = ksim::step();
                std::shared_ptr<Item> e;
                int c = -1;
                if (ksim::chance(1, 2)) {
                    auto p = cache.getCounterAndEvent();
                    c = p.first;
                    e = p.second;
                } else
                    e = cache.getLastReceivedEvent();
                uint64_t end = ksim::step();
                int64_t id = 0;
                if (e) {
                    e->check("cached event");
                    id = e->id();
                    kept.push_back({e, id});
                }
                {
                    ksim::NoPreempt n;
                    lin::Op o;
                    o.call = b;
                    o.ret = end;
                    o.kind = lin::RGET;
                    o.res = e ? 1 : 0;
                    o.res2 = id;
                    o.thread = np + i;
                    h.push_back(o);
                    if (c >= 0) gets.push_back({b, end, c, id});
                }
                for (auto &k : kept) {
                    k.e->check("event kept by a reader");
                    CHECK("kept-event", k.e->id() == k.id, "an event changed while a reader kept it");
                }
            }
        });
    ksim::quiet();
    ts.join();
    CHECK("cache-counter", (int) cache.counter == (int) puts.size(), "counter %d after %d events", (int) cache.counter, (int) puts.size());
    // the newest event in the end
    lin::Op o;
    o.call = ksim::step();
    auto e = cache.getLastReceivedEvent();
    o.ret = ksim::step();
    o.kind = lin::RGET;
    o.res = e ? 1 : 0;
    o.res2 = e ? e->id() : 0;
    o.thread = 99;
    h.push_back(o);
    CHECK("cache-not-newest", lin::check(lin::REGISTERS, h, {}) != 0,
          "reads are not explained by any order of the receptions: %s", lin::show(lin::REGISTERS, h).c_str());
    // counter and event belong together: the counter is the number of receptions up to that event
    std::map<int, int64_t> at;
    for (auto &g : gets) {
        auto r = at.insert({g.c, g.id});
        CHECK("cache-pair", r.second || r.first->second == g.id, "counter %d returned with two different events", g.c);
        CHECK("cache-pair", (g.c == 0) == (g.id == 0), "counter %d with event %lld", g.c, (long long) g.id);
        int before = 0, begun = 0;
        for (auto &p : puts) {
            before += p.end < g.begin;
            begun += p.begin < g.end;
            if (p.id == g.id) {
                int done = 0, started = 0;
                for (auto &q : puts) {
                    done += q.end <= p.begin || q.id == p.id;
                    started += q.begin < p.end;
                }
                CHECK("cache-pair", g.c >= done && g.c <= started, "counter %d with an event that was number %d to %d", g.c, done, started);
            }
        }
        CHECK("cache-pair", g.c >= before && g.c <= begun, "counter %d while %d to %d events had been received", g.c, before, begun);
    }
}

KSIM_SCENARIO(single, 1)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 400);
    ksim::enable(ksim::F_BADALLOC, 300);
    may_throw = ksim::enabled(ksim::F_LISTENERTHROW);
    copy_us = ksim::chance(1, 2) ? ksim::range(1, 3000) : 0;
    int64_t least = 0, most = 0; // copying time
    int sleep = ksim::choose(4) * ksim::range(1, 700);
    int kind = ksim::choose(3);
    std::unique_ptr<kpsr::mem::CacheListener<Item>> c;
    if (kind == 0)
        c.reset(new kpsr::mem::CacheListener<Item>());
    else if (kind == 1)
        c.reset(new kpsr::mem::MultiThreadCacheListener<Item>());
    else
        c.reset(new kpsr::mem::TestCacheListener<Item>(sleep));
    ksim::describe("single kind=%d sleep=%d", kind, sleep);
    bool calm = !ksim::enabled(ksim::F_CLOCKJUMP);
    bool large = large_run();
    int n = sized(large, 1, 8, 200), count = 0;
    int64_t last = 0;
    CHECK("cache-empty", !c->getLastReceivedEvent() && c->counter == 0, "a new cache holds an event");
    std::vector<Kept> kept;
    for (int i = 1; i <= n; i++) {
        auto e = std::make_shared<Item>(1, i);
        bool raw = ksim::chance(1, 3), ok = true;
        bool q = kind == 2 && ksim::chance(1, 2);
        if (q) ksim::quiet();
        int64_t t0 = ksim::now_ns();
        ksim::alloc_faults(true);
        try {
            if (raw)
                c->onEventReceivedRaw(e);
            else
                c->cacheListenerFunction(*e);
        } catch (std::bad_alloc &) {
            ok = false;
        } catch (std::runtime_error &) {
            ok = false;
        }
        ksim::alloc_faults(false);
        int64_t dt = ksim::now_ns() - t0;
        if (q) ksim::unquiet();
        if (!raw) most += dt;
        if (ok) {
            if (!raw) least += copying;
            count++;
            last = 1000 + i;
            if (kind == 2) {
                CHECK("cache-sleep", dt >= sleep * 1000000LL, "the callback returned after %lld ns of %d ms", (long long) dt, sleep);
                if (!raw) CHECK("cache-sleep", copied_at - t0 <= dt - sleep * 1000000LL, "the event was copied %lld ns into a callback of %lld ns that sleeps %d ms: the cache shows it only after the sleep", (long long) (copied_at - t0), (long long) dt, sleep);
                if (q && !large) CHECK("cache-sleep", dt <= sleep * 1000000LL + copy_us * 1000LL + 2000000, "the callback took %lld ns instead of %d ms", (long long) dt, sleep);
            }
        } else
            ksim::probe("copy-failed");
        if (!raw) e->ev.fill(9, 9);
        if (!raw) e->text = "reused";
        if (calm) CHECK("cache-time", c->totalCopyingTime >= least && c->totalCopyingTime <= most, "%ld ns of copying were counted; it took %lld to %lld ns", c->totalCopyingTime, (long long) least, (long long) most);
        auto g = c->getLastReceivedEvent();
        CHECK("cache-counter", (int) c->counter == count, "counter %d after %d events", (int) c->counter, count);
        CHECK("cache-not-newest", (g ? g->id() : 0) == last, "the cache shows event %lld instead of %lld", (long long) (g ? g->id() : 0), (long long) last);
        if (g) {
            g->check("cached event");
            if (raw && ok) CHECK("cache-raw", g == e, "the cache does not show the event it was given");
            if (!raw) CHECK("cache-raw", g != e, "the cache shows the source's event instead of a copy");
            kept.push_back({g, last});
        }
        for (auto &k : kept) {
            k.e->check("event kept by a reader");
            CHECK("kept-event", k.e->id() == k.id, "an event changed while a reader kept it");
        }
    }
}
} // namespace
