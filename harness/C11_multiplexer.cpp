// C11: data multiplexer: complete, unchanging, ordered, newest values; slow listeners do not hold up others.
#include "test_container.h"
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>

namespace {
using namespace kpsr::high_performance;

struct Boom : std::runtime_error
{
    Boom() : std::runtime_error("user code") {}
};
struct Rec
{
    int64_t q;
    uint64_t begin, end;
    int res; // 1 accepted, 0 refused, 2 threw, -1 in progress
};
struct Sub
{
    std::string name;
    uint64_t prev_end = 0, cur_end = 0;
    int64_t cur = 0;
};
struct Lis
{
    Sub *sub;
    bool slow, throws;
    std::vector<int64_t> got;
    bool in = false;
    int thread = -1;
    kpsr::Subscriber<Ev> *of = nullptr;
    std::string name;
    std::shared_ptr<const Ev> held; // what it was last given, as far as it keeps it
};
const int64_t MODEL = 1000000;

template<std::size_t N>
struct Mux
{
    typedef DataMultiplexerMiddlewareProvider<Ev, N> Prov;
    TestContainer box;
    std::vector<Rec> recs;
    std::deque<Sub> subs;
    std::deque<Lis> ls;
    bool cl_throw = false;
    std::vector<std::pair<std::shared_ptr<const Ev>, int64_t>> kept; // published events the user goes on holding
    std::unique_ptr<Prov> make(bool usebox, int kind, bool cloner)
    {
        std::function<void(const Ev &, Ev &)> cl;
        if (cloner)
            cl = [this](const Ev &a, Ev &b) {
                if (cl_throw && ksim::choose(3) == 1) {
                    if (ksim::choose(2)) b.fill(77, 77); // half done
                    throw Boom();
                }
                b = a;
            };
        kpsr::Container *c = usebox ? &box : nullptr;
        if (kind == 2) {
            Ev model(5, MODEL);
            return std::unique_ptr<Prov>(new Prov(c, "mux", model, cl));
        }
        std::function<void(Ev &)> init;
        if (kind == 1) init = [](Ev &e) { e.fill(5, MODEL); };
        return std::unique_ptr<Prov>(new Prov(c, "mux", init, cl));
    }
    kpsr::Subscriber<Ev> *subscriber(Prov &p, const std::string &n)
    {
        for (int k = 0;; k++) {
            try {
                return p.getSubscriber(n);
            } catch (std::system_error &) {
                ksim::probe("thread-creation-failed");
            } catch (std::runtime_error &) {
                ksim::probe("start-timed-out");
            }
            CHECK("mux-start", k < 60, "a subscriber can never be created");
            if (k > 20) ksim::quiet();
        }
    }
    void deliver(Lis &l, const Ev &e)
    {
        int64_t newest = 0;
        {
            ksim::NoPreempt np;
            CHECK("mux-overlap", !l.in, "two callbacks of a listener at once");
            l.in = true;
            if (l.thread < 0) l.thread = ksim::self();
            CHECK("mux-thread", l.thread == ksim::self(), "a listener was called on two threads");
        }
        e.check("multiplexer listener");
        int64_t q = e.seq;
        {
            ksim::NoPreempt np;
            CHECK("mux-invented", e.src == 1 && q >= 1, "a listener got a value that was never published (%lld/%lld)",
                  (long long) e.src, (long long) q);
            CHECK("mux-order", l.got.empty() || l.got.back() < q, "value %lld came after %lld", (long long) q,
                  (long long) l.got.back());
            l.got.push_back(q);
            Sub &s = *l.sub;
            if (q != s.cur) {
                for (auto &r : recs)
                    if (r.res == 1 && r.end < s.cur_end) newest = std::max(newest, r.q);
                CHECK("mux-newest", q >= newest, "a listener got value %lld although %lld had been published before it was "
                      "ready for its next value", (long long) q, (long long) newest);
                s.cur = q;
            }
        }
        if (l.slow && ksim::choose(2)) ksim::advance(ksim::choose(5) * 3000);
        e.check("multiplexer listener");
        {
            ksim::NoPreempt np;
            CHECK("mux-changed", e.seq == q && e.src == 1, "value %lld changed to %lld during the callback", (long long) q,
                  (long long) e.seq);
            l.in = false;
            l.sub->cur_end = ksim::step();
        }
        if (l.throws && ksim::choose(3) == 1) {
            ksim::probe("listener-throws");
            throw Boom();
        }
    }
    void reg(kpsr::Subscriber<Ev> *s, Sub *sub, const std::string &n, bool slow, bool throws, bool sharedptr)
    {
        ls.push_back({sub, slow, throws, {}});
        Lis *l = &ls.back();
        l->of = s, l->name = n;
        bool keep = ksim::choose(2); // without looking at it again
        if (sharedptr)
            dynamic_cast<kpsr::EventEmitterSubscriber<Ev> *>(s)
                ->registerSharedPtrListener(n, [this, l, keep](const std::shared_ptr<const Ev> &e) {
                    if (keep) l->held = e;
                    deliver(*l, *e);
                });
        else
            s->registerListener(n, [this, l](const Ev &e) { deliver(*l, e); });
    }
    int publish(Prov &p, int64_t q, bool may_throw)
    {
        auto *pub = p.getPublisher();
        int64_t d0 = pub->publicationStats.totalDiscardedEvents;
        uint64_t b = ksim::step();
        size_t k;
        {
            ksim::NoPreempt np;
            k = recs.size();
            recs.push_back({q, b, 0, -1});
        }
        int res;
        try {
            switch (ksim::choose(3)) {
            case 0:
                ksim::alloc_faults(may_throw);
                pub->publish(Ev(1, q));
                break;
            case 1: {
                std::shared_ptr<const Ev> ev = std::make_shared<Ev>(1, q);
                if (ksim::choose(2)) kept.push_back({ev, q});
                ksim::alloc_faults(may_throw);
                pub->publish(ev);
                break;
            }
            default:
                ksim::alloc_faults(may_throw);
                pub->processAndPublish([&](Ev &e) {
                    ksim::AllocPause ap;
                    if (may_throw && ksim::choose(3) == 1) {
                        if (ksim::choose(2)) e.fill(78, 78);
                        throw Boom();
                    }
                    e.fill(1, q);
                });
            }
            ksim::alloc_faults(false);
            ksim::NoPreempt np;
            int64_t d = (int64_t) pub->publicationStats.totalDiscardedEvents - d0;
            CHECK("mux-discard", d == 0 || d == 1, "one publish counted %lld discards", (long long) d);
            res = d ? 0 : 1;
            if (d) ksim::probe("refused");
        } catch (Boom &) {
            ksim::probe("publish-threw");
            CHECK("mux-discard", (int64_t) pub->publicationStats.totalDiscardedEvents == d0, "a failed publish counted a discard");
            res = 2;
        } catch (std::bad_alloc &) {
            ksim::alloc_faults(false);
            ksim::probe("no-memory");
            CHECK("mux-discard", (int64_t) pub->publicationStats.totalDiscardedEvents == d0, "a failed publish counted a discard");
            res = 2;
        }
        ksim::alloc_faults(false);
        ksim::NoPreempt np;
        recs[k].end = ksim::step();
        recs[k].res = res;
        return res;
    }
    // every accepted value was either handed to a listener or counted as discarded for it
    void accounting()
    {
        int64_t acc = 0;
        for (auto &r : recs)
            acc += r.res == 1;
        for (auto &l : ls) {
            auto st = l.of->getSubscriptionStats(l.name);
            CHECK("mux-stats", st, "a registered listener has no statistics");
            int64_t d = (int64_t) st->totalDiscardedEvents;
            CHECK("mux-stats", (int64_t) l.got.size() + d == acc, "%lld values accepted, %zu delivered to a listener and %lld "
                  "counted as discarded", (long long) acc, l.got.size(), (long long) d);
        }
    }
    void final_checks(Prov &p)
    {
        int64_t acc = 0, last = 0;
        std::set<int64_t> ok;
        for (auto &r : recs)
            if (r.res == 1) acc++, last = r.q, ok.insert(r.q);
        for (auto &l : ls) {
            for (int64_t q : l.got)
                CHECK("mux-invented", ok.count(q), "value %lld was delivered but its publication was refused or had failed",
                      (long long) q);
            CHECK("mux-last", last == 0 || (!l.got.empty() && l.got.back() == last), "the last value published, %lld, never "
                  "reached a listener (its last: %lld)", (long long) last, (long long) (l.got.empty() ? 0 : l.got.back()));
        }
    }
};

template<std::size_t N>
void mux()
{
    std_faults();
    Mux<N> m;
    bool large = large_run();
    int ns = sized(large, 1, 3, 9), count = sized(large, 1, 12, 100), kind = ksim::choose(3);
    bool cloner = ksim::choose(2), throwing = ksim::chance(1, 3), lthrow = ksim::chance(1, 5), usebox = ksim::chance(1, 3);
    bool tfail = ksim::chance(1, 5);
    m.cl_throw = throwing;
    bool low = throwing && !large && ksim::choose(2);
    if (low) ksim::enable(ksim::F_BADALLOC, 800);
    ksim::describe("buffer=%zu subscribers=%d values=%d kind=%d%s%s%s%s", N, ns, count, kind, cloner ? " cloner" : "",
                   low ? " throwing, memory short" : throwing ? " throwing" : "", lthrow ? " listener-throws" : "", usebox ? " container" : "");
    {
        auto p = m.make(usebox, kind, cloner);
        if (tfail) ksim::enable(ksim::F_THREADFAIL, 600);
        std::set<kpsr::Subscriber<Ev> *> others;
        const bool alike = ksim::chance(1, 4); // each name is the beginning of those before it
        for (int i = 0; i < ns; i++) {
            m.subs.emplace_back();
            std::string n = alike ? std::string(ns - i, 's') : "s" + std::to_string(i);
            auto *s = m.subscriber(*p, n);
            CHECK("mux-start", s == p->getSubscriber(n), "asking again for a subscriber gave another one");
            CHECK("mux-start", others.insert(s).second, "asking for a subscriber gave one of another name");
            for (int k = ksim::range(1, 2); k > 0; k--)
                m.reg(s, &m.subs.back(), n + "l" + std::to_string(k), ksim::chance(1, 2), lthrow && ksim::choose(2) && k == 1,
                      ksim::chance(1, 3));
        }
        ksim::unquiet();
        std::thread pub;
        while (!pub.joinable()) try {
                pub = std::thread([&] {
                    for (int q = 1; q <= count; q++) {
                        m.publish(*p, q, throwing);
                        if (ksim::choose(2)) ksim::advance(ksim::choose(5) * 2000);
                    }
                });
            } catch (std::system_error &) {
            }
        pub.join();
        if (ksim::choose(4)) {
            ksim::quiet();
            auto done = [&] {
                ksim::NoPreempt np;
                int64_t last = 0;
                for (auto &r : m.recs)
                    if (r.res == 1) last = r.q;
                for (auto &l : m.ls)
                    if (last && (l.in || l.got.empty() || l.got.back() != last)) return false;
                return true;
            };
            // a throwing listener keeps the ones after it from getting that value
            if (!lthrow) {
                while (!done()) ksim::advance(20000);
                m.final_checks(*p);
            } else
                ksim::advance(3000000);
            ksim::advance(100000);
            int r = m.publish(*p, count + 1, false);
            CHECK("mux-stuck", r != 0, "a publication was refused although every listener was idle");
            if (!lthrow) {
                while (!done()) ksim::advance(20000);
                m.final_checks(*p);
                m.accounting();
            }
        } else
            ksim::quiet();
        destroying([&] { p.reset(); });
        for (auto &k : m.kept)
            CHECK("mux-changed", k.first->src == 1 && k.first->seq == k.second, "the publisher's own event %lld became %lld",
                  (long long) k.second, (long long) k.first->seq);
        for (auto &l : m.ls)
            CHECK("mux-destroy", !l.in, "destroyed while a callback was running");
    }
    CHECK("container-use", m.box.att.empty(), "%zu statistics still attached", m.box.att.size());
}

// what a listener got
struct Numbers
{
    std::vector<int64_t> v;
    void push_back(int64_t x)
    {
        ksim::NoPreempt n;
        v.push_back(x);
    }
    int64_t back() const
    {
        ksim::NoPreempt n;
        return v.empty() ? 0 : v.back();
    }
    size_t size() const
    {
        ksim::NoPreempt n;
        return v.size();
    }
    bool empty() const { return size() == 0; }
    void clear()
    {
        ksim::NoPreempt n;
        v.clear();
    }
};
// one listener does not return for a long time: the others get everything the buffer can take, at once
template<std::size_t N>
void slow()
{
    std_faults();
    Mux<N> m;
    ksim::describe("one listener stuck, buffer=%zu", N);
    auto p = m.make(false, ksim::choose(3), ksim::choose(2));
    bool again = ksim::choose(2); // the first value is published a second time, and that is where the listener gets stuck
    bool stick = !again, stuck = false, go = false;
    Numbers got, fast;
    m.subscriber(*p, "stuck")->registerListener("l", [&](const Ev &e) {
        int64_t q = e.seq;
        got.push_back(q);
        if (!stick) return;
        stuck = true;
        while (!go) ksim::advance(50000);
        e.check("stuck listener");
        CHECK("mux-changed", e.seq == q, "value %lld changed to %lld during the callback", (long long) q, (long long) e.seq);
    });
    m.subscriber(*p, "fast")->registerListener("l", [&](const Ev &e) {
        e.check("fast listener");
        fast.push_back(e.seq);
    });
    std::shared_ptr<const Ev> same = std::make_shared<Ev>(1, 1);
    if (again) {
        p->getPublisher()->publish(same);
        while (got.empty() || fast.empty()) ksim::advance(20000);
        ksim::quiet(); // until both have passed it
        ksim::advance(1000000);
        ksim::unquiet();
        got.clear();
        fast.clear();
        stick = true;
    }
    for (size_t q = 1; q <= N; q++) {
        int r = 1;
        if (q == 1 && again)
            p->getPublisher()->publish(same);
        else
            r = m.publish(*p, (int64_t) q, false);
        CHECK("mux-refused", r == 1, "value %zu of a buffer of %zu was refused", q, N);
        if (q == 1)
            while (!stuck) ksim::advance(20000);
        if (ksim::choose(2))
            while (fast.back() != (int64_t) q) ksim::advance(20000);
    }
    ksim::quiet();
    while (fast.back() != (int64_t) N) ksim::advance(20000);
    CHECK("mux-stuck", got.size() == 1, "a stuck listener got another value");
    int r = m.publish(*p, N + 1, false);
    CHECK("mux-overwrite", r == 0, "a value was accepted over one that a listener still works on");
    ksim::advance(500000);
    CHECK("mux-invented", fast.back() == (int64_t) N, "a refused value was delivered");
    go = true;
    while (N > 1 && got.back() != (int64_t) N) ksim::advance(20000);
    CHECK("mux-newest", got.size() == (N > 1 ? 2 : 1), "the stuck listener got %zu values instead of the newest one", got.size());
    ksim::advance(100000);
    r = m.publish(*p, N + 2, false);
    CHECK("mux-stuck", r == 1, "refused although every listener was idle");
    while (got.back() != (int64_t) N + 2 || fast.back() != (int64_t) N + 2) ksim::advance(20000);
    CHECK("mux-changed", same->seq == 1, "the publisher's own event 1 became %lld", (long long) same->seq);
}
// a subscriber of its own on a ring that outlives it
void bare()
{
    std_faults();
    if (ksim::choose(2)) ksim::enable(ksim::F_THREADFAIL, 700);
    typedef DataMultiplexerSubscriber<Ev, 4> S;
    auto ring = std::unique_ptr<S::RingBuffer>(new S::RingBuffer());
    long timeout = ksim::choose(3) * 300;
    ksim::describe("bare subscriber timeout=%ld", timeout);
    DataMultiplexerPublisher<Ev, 4> pub(nullptr, "m", nullptr, *ring);
    int n = ksim::range(1, 2);
    for (int k = 0; k < n; k++) {
        bool alive = true;
        try {
            std::unique_ptr<S> s(new S(nullptr, "m", "s", *ring, timeout));
            s->registerListener("l", [&](const Ev &) {
                CHECK("mux-destroy", alive, "a callback ran after the subscriber was destroyed");
                if (ksim::choose(2)) ksim::advance(20000);
            });
            for (int i = ksim::choose(6); i > 0; i--)
                pub.publish(Ev(1, i));
            s.reset();
        } catch (std::system_error &) {
            ksim::probe("thread-creation-failed");
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out");
        }
        alive = false;
        int64_t d0 = pub.publicationStats.totalDiscardedEvents;
        for (int i = 0; i < 6; i++)
            pub.publish(Ev(1, i + 1));
        CHECK("mux-stuck", (int64_t) pub.publicationStats.totalDiscardedEvents == d0,
              "a subscriber that is gone still holds the publisher back");
    }
    ksim::quiet();
}
} // namespace
KSIM_SCENARIO(mux4, 40) { mux<4>(); }
KSIM_SCENARIO(mux2, 20) { mux<2>(); }
KSIM_SCENARIO(mux1, 5) { mux<1>(); }
KSIM_SCENARIO(mux8, 10) { mux<8>(); }
KSIM_SCENARIO(slow4, 10) { slow<4>(); }
KSIM_SCENARIO(slow2, 5) { slow<2>(); }
KSIM_SCENARIO(bare, 10) { bare(); }
