// C27: events of pooling publishers while listeners keep them, user code throws and allocations fail.
#include "mem_common.h"
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>

namespace {
struct Kept
{
    std::shared_ptr<const Ev> e;
    int64_t src, seq;
};
struct Outcome
{
    int64_t src, seq;
    bool ok;
};
const int64_t FRESH = 777; // what the initialiser writes
const int64_t CLONED = 1000000; // the cloner marks its copies: a plain copy would share whatever events point to

struct World
{
    kpsr::Publisher<Ev> *pub = nullptr;
    kpsr::Subscriber<Ev> *sub = nullptr;
    std::mutex m;
    std::vector<Kept> kept;
    std::map<std::pair<int64_t, int64_t>, int> seen[3];
    int64_t calls = 0;
    int keep_limit = 3;
    std::vector<Outcome> out;
    bool custom_cloner = false, custom_init = false;
    // user code may throw in publish calls of threads that say so
    std::set<int> throwing;
    void maybe_throw(const char *what)
    {
        bool may;
        {
            ksim::NoPreempt np;
            may = throwing.count(ksim::self());
        }
        if (may && ksim::fault(ksim::F_LISTENERTHROW, 1, 4)) {
            ksim::probe("user-code-throws");
            if (ksim::chance(1, 3)) throw std::out_of_range(what);
            if (ksim::chance(1, 3)) throw 42;
            throw std::runtime_error(what);
        }
    }
    std::function<void(Ev &)> init()
    {
        if (!custom_init) return nullptr;
        return [this](Ev &e) {
            e.fill(FRESH, 1);
            maybe_throw("initialiser");
        };
    }
    std::function<void(const Ev &, Ev &)> cloner()
    {
        if (!custom_cloner) return nullptr;
        return [this](const Ev &a, Ev &b) {
            CHECK("not-initialised", !custom_init || b.src != 0, "the cloner got an event that was not initialised");
            bool half = ksim::chance(1, 2);
            if (half) { // the target is in pieces when the cloner throws
                ksim::cell_write(&b, "cloner");
                ksim::cell_read(&a, "cloner");
                b.src = a.src;
                b.seq = -1;
                maybe_throw("cloner");
            }
            a.check("cloner");
            b.fill(a.src, a.seq + CLONED);
            if (!half) maybe_throw("cloner");
        };
    }
    void received(int which, const std::shared_ptr<const Ev> &e)
    {
        e->check("listener");
        int64_t src = e->src, seq = e->seq;
        {
            ksim::NoPreempt np;
            CHECK("event-twice", (++seen[which][std::make_pair(src, seq)] == 1), "event %lld/%lld was delivered twice", (long long) src, (long long) seq);
        }
        if (ksim::chance(1, 4)) ksim::advance(ksim::choose(3) * 2000);
        std::vector<Kept> drop;
        {
            std::lock_guard<std::mutex> l(m);
            for (auto &k : kept)
                CHECK("shared-memory", k.e.get() != e.get() || (k.src == src && k.seq == seq),
                      "event %lld/%lld lives in the memory of event %lld/%lld, which a listener still holds", (long long) src, (long long) seq,
                      (long long) k.src, (long long) k.seq);
            if (ksim::chance(2, 3) && (int) kept.size() < keep_limit) kept.push_back({e, src, seq});
            while (!kept.empty() && ksim::chance(1, 4)) {
                size_t j = ksim::choose((int) kept.size());
                drop.push_back(std::move(kept[j]));
                kept.erase(kept.begin() + j);
            }
        }
        look(drop);
        drop.clear();
        e->check("listener");
        CHECK("kept-event", e->src == src && e->seq == seq, "an event changed while its listener ran");
        ksim::NoPreempt np;
        calls++;
    }
    void look(const std::vector<Kept> &v)
    {
        for (auto &k : v) {
            k.e->check("event kept by a listener");
            CHECK("kept-event", k.e->src == k.src && k.e->seq == k.seq, "event %lld/%lld became %lld/%lld while a listener held it",
                  (long long) k.src, (long long) k.seq, (long long) k.e->src, (long long) k.e->seq);
        }
    }
    // a holder thread: looks at and releases what listeners kept
    void holder_step()
    {
        std::vector<Kept> v, drop;
        {
            std::lock_guard<std::mutex> l(m);
            v = kept;
            while (!kept.empty() && ksim::chance(1, 3)) {
                drop.push_back(std::move(kept.back()));
                kept.pop_back();
            }
        }
        look(v);
        look(drop);
    }
    void publish(int64_t src, int64_t seq)
    {
        bool ok = true, faults = ksim::chance(1, 2);
        if (faults) {
            ksim::NoPreempt np;
            throwing.insert(ksim::self());
        }
        int style = ksim::choose(3);
        std::shared_ptr<const Ev> own;
        {
            Ev e(src, seq);
            if (style == 2) own = std::make_shared<Ev>(src, seq);
            if (faults) ksim::alloc_faults(true);
            try {
                if (style == 0)
                    pub->publish(e);
                else if (style == 1)
                    pub->processAndPublish([&](Ev &x) {
                        ksim::cell_read(&x, "process function");
                        if (custom_init)
                            CHECK("not-initialised", x.src == FRESH && x.intact(), "the process function got an event that was not initialised");
                        x.fill(src, seq);
                        maybe_throw("process function");
                    });
                else
                    pub->publish(own);
            } catch (std::bad_alloc &) {
                ok = false;
                ksim::probe("bad_alloc-reported");
            } catch (std::exception &) {
                ok = false;
            } catch (int) {
                ok = false;
            }
            ksim::alloc_faults(false);
            e.fill(9, 9); // the caller reuses its event at once
        }
        ksim::NoPreempt np;
        throwing.erase(ksim::self());
        out.push_back({src, seq + (style == 0 && custom_cloner ? CLONED : 0), ok});
    }
    void listen(int n)
    {
        auto *s = dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(sub);
        for (int i = 0; i < n; i++)
            s->registerSharedPtrListener("listener" + std::to_string(i), [this, i](const std::shared_ptr<const Ev> &e) { received(i, e); });
    }
    // threads publish, a holder releases; returns when all is quiet
    void run(int nt, int per, int nl, std::function<int64_t()> discarded, bool exact_discards)
    {
        std::atomic<bool> end{false};
        out.reserve(100);
        {
            Threads h;
            if (ksim::chance(2, 3))
                h.go([&] {
                    int64_t d = 3000;
                    while (!end) {
                        holder_step();
                        ksim::advance(d);
                        d = std::min<int64_t>(d + d / 8, 1000000);
                    }
                    holder_step();
                });
            Threads ts;
            for (int i = 0; i < nt; i++)
                ts.go([&, i] {
                    for (int q = 1; q <= per; q++) {
                        publish(i + 1, q);
                        if (ksim::chance(1, 4)) ksim::advance(ksim::choose(4) * 2000);
                    }
                });
            ts.join();
            ksim::quiet();
            int64_t good = 0;
            for (auto &o : out) good += o.ok;
            int64_t d = 20000;
            for (int k = 0; exact_discards || k < 20; k++) { // every successful publication arrives, or was discarded
                {
                    ksim::NoPreempt np;
                    if (calls >= (good - discarded()) * nl) break;
                }
                ksim::advance(d);
                d += d / 4;
            }
            ksim::advance(200000);
            end = true;
        }
        std::unique_ptr<ksim::NoPreempt> still(new ksim::NoPreempt);
        for (auto &o : out)
            for (int i = 0; i < nl; i++) {
                CHECK("not-cloned", o.seq < CLONED || !seen[i].count({o.src, o.seq - CLONED}), "event %lld/%lld was not copied with the publisher's cloner",
                      (long long) o.src, (long long) o.seq - CLONED);
                auto f = seen[i].find({o.src, o.seq});
                bool got = f != seen[i].end();
                CHECK("failed-delivered", o.ok || !got, "event %lld/%lld was delivered although its publication failed", (long long) o.src, (long long) o.seq);
                if (o.ok && discarded() == 0 && exact_discards)
                    CHECK("event-lost", got, "event %lld/%lld was published but not delivered", (long long) o.src, (long long) o.seq);
            }
        int64_t good = 0;
        for (auto &o : out) good += o.ok;
        for (int i = 0; i < nl; i++) {
            CHECK("event-invented", (int64_t) seen[i].size() <= good, "%zu events delivered of %lld", seen[i].size(), (long long) good);
            if (exact_discards)
                CHECK("event-lost", (int64_t) seen[i].size() + discarded() == good, "%lld published, %zu delivered, %lld discarded", (long long) good,
                      seen[i].size(), (long long) discarded());
        }
        still.reset();
        {
            std::lock_guard<std::mutex> l(m);
            look(kept);
        }
        // usable afterwards
        ksim::unquiet();
        holder_step();
        std::lock_guard<std::mutex> l(m);
        kept.clear();
    }
};

void faults(bool alloc = true)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 500);
    if (alloc) ksim::enable(ksim::F_BADALLOC, 500);
}
void setup(World &w)
{
    w.custom_cloner = ksim::chance(1, 2);
    w.custom_init = ksim::chance(1, 2);
    w.keep_limit = sized(ksim::chance(1, 50), 1, 6, 40);
}

template<class Q>
void memory()
{
    faults();
    World w;
    setup(w);
    bool large = large_run();
    int nt = ksim::range(1, 3), per = sized(large, 1, 4, 40), nl = ksim::range(1, 2), pool = sized(large, 0, 4, 50), queue = sized(large, 1, 4, 40);
    bool discard = ksim::chance(1, 3);
    pooled(pool);
    ksim::describe("%s pool=%d threads=%d x%d listeners=%d queue=%d%s", Q::exact ? "basic" : "concurrent", pool, nt, per, nl, queue, discard ? " discarding" : "");
    auto prov = Q::make(nullptr, queue, pool, discard, w.init(), w.cloner());
    w.pub = prov->getPublisher();
    w.sub = prov->getSubscriber();
    w.listen(nl);
    try {
        prov->start();
    } catch (std::runtime_error &) { // its thread is slow; it is starting
    }
    // an allocation that fails after older events were discarded loses them uncounted
    w.run(nt, per, nl, [&] { return (int64_t) w.pub->publicationStats.totalDiscardedEvents; },
          !discard || !ksim::enabled(ksim::F_BADALLOC));
    bool stop_first = ksim::chance(1, 2);
    if (stop_first) prov->stop();
    destroying([&] { prov.reset(); });
}
KSIM_SCENARIO(basic, 3) { memory<memtest::Basic>(); }
KSIM_SCENARIO(concurrent, 2) { memory<memtest::Concurrent>(); }

template<std::size_t N>
void loop()
{
    faults();
    World w;
    setup(w);
    using namespace kpsr::high_performance;
    bool large = large_run();
    int nt = ksim::range(1, 3), per = sized(large, 1, 4, 40), nl = ksim::range(1, 2), pool = sized(large, 0, 4, 50);
    bool unsafe_mode = ksim::chance(1, 3);
    pooled(pool);
    ksim::describe("event loop of %zu pool=%d threads=%d x%d listeners=%d%s", N, pool, nt, per, nl, unsafe_mode ? " unsafe" : "");
    {
        EventLoopMiddlewareProvider<N> prov(nullptr, "loop", 100000000);
        w.pub = prov.template getPublisher<Ev>("an event name longer than a small string", pool, w.init(), w.cloner(), unsafe_mode);
        w.sub = prov.template getSubscriber<Ev>("an event name longer than a small string");
        w.listen(nl);
        prov.start();
        auto *p = dynamic_cast<EventLoopPublisher<Ev, N> *>(w.pub);
        w.run(nt, per, nl, [&] { return (int64_t) p->_discardedMessages; }, true);
        prov.stop();
    }
}
KSIM_SCENARIO(event_loop, 2) { loop<16>(); }
KSIM_SCENARIO(event_loop_small, 2) { loop<4>(); }

KSIM_SCENARIO(emitter, 2)
{
    faults(false); // an allocation failing inside the synchronous emission may come after the first listener
    World w;
    setup(w);
    bool large = large_run();
    int per = sized(large, 1, 10, 60), nl = ksim::range(1, 2), pool = sized(large, 0, 4, 50);
    pooled(pool);
    ksim::describe("emitter pool=%d events=%d listeners=%d", pool, per, nl);
    kpsr::EventEmitterMiddlewareProvider<Ev> prov(nullptr, "event", pool, w.init(), w.cloner());
    w.pub = prov.getPublisher();
    w.sub = prov.getSubscriber();
    w.listen(nl);
    w.run(1, per, nl, [] { return 0; }, true);
}
} // namespace
