// C15: SafeEventEmitter under concurrent and re-entrant emits, registrations, removals and queries.
#include "test_container.h"
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/core/safe_event_emitter.h>

namespace {
struct Emit
{
    uint64_t begin, end = UINT64_MAX;
    int name;
    std::map<int, int> calls; // listener -> count
};
struct Lis
{
    Mine<uint64_t> on_begin, on_end = UINT64_MAX, rm_begin = UINT64_MAX, rm_end = UINT64_MAX;
    Mine<unsigned> id = 0;
    Mine<int> name, behaviour = 0, total = 0;
    Mine<bool> once, removed_by_all = false;
    std::atomic<int> claim{0}; // who removes it
    std::shared_ptr<int> guard;
};
const char *NAMES[] = {"alpha", "beta"};

struct World
{
    kpsr::SafeEventEmitter<Ev> em;
    TestContainer box;
    bool use_box;
    std::deque<Emit> emits;
    std::deque<std::unique_ptr<Lis>> ls;
    std::atomic<int> depth{0};
    Mine<int> budget = 24; // callbacks may start at most this many further operations
    bool allow_throw = false;

    int add(int name, bool once)
    {
        Lis *l;
        int k;
        {
            ksim::NoPreempt np;
            k = (int) ls.size();
            ls.emplace_back(new Lis);
            l = ls.back().get();
            l->name = name;
            l->once = once;
            l->behaviour = ksim::choose(8);
            l->guard = std::make_shared<int>(k);
            l->on_begin = ksim::step();
        }
        std::weak_ptr<int> g = l->guard;
        auto cb = [this, k, g](const Ev &e) { called(k, e); };
        unsigned id = once ? em.once(NAMES[name], cb)
                           : em.on(use_box ? &box : nullptr, "listener" + std::to_string(k), NAMES[name], cb);
        ksim::NoPreempt np;
        for (auto &o : ls)
            CHECK("emitter-id", o->on_end == UINT64_MAX || o->id != id, "listener id %u handed out twice", id);
        l->id = id;
        l->on_end = ksim::step();
        return k;
    }
    void remove(int k)
    {
        Lis *l = ls[k].get();
        if (l->on_end == UINT64_MAX || l->once || l->claim.exchange(1)) return;
        l->rm_begin = ksim::step();
        em.removeListener(use_box ? &box : nullptr, l->id);
        l->rm_end = ksim::step();
    }
    void emit(int name)
    {
        int n;
        {
            ksim::NoPreempt np;
            n = (int) emits.size();
            emits.emplace_back();
            emits[n].name = name;
            emits[n].begin = ksim::step();
        }
        Ev e(1 + name, n + 1);
        try {
            em.emitEvent(NAMES[name], 0, e);
        } catch (const std::exception &x) {
            ksim::fail("emitter-throw", "emitEvent threw %s", x.what());
        }
        emits[n].end = ksim::step();
    }
    void query()
    {
        if (ls.empty()) return;
        int k = ksim::choose((int) ls.size());
        Lis *l = ls[k].get();
        if (l->on_end == UINT64_MAX) return;
        uint64_t t0 = ksim::step();
        auto st = em.getListenerStats(l->id);
        if (!l->once && l->rm_begin == UINT64_MAX && !l->removed_by_all)
            CHECK("emitter-stats", st && st->name == std::string(NAMES[l->name]) + "_listener" + std::to_string(k),
                  "stats of listener %d are %s", k, st ? st->name.c_str() : "missing");
        if (l->rm_end < t0) CHECK("emitter-stats", !st, "stats of the removed listener %d are still there", k);
    }
    void some_op()
    {
        switch (ksim::choose(8)) {
        case 0: add(ksim::choose(2), ksim::choose(2)); break;
        case 1:
        case 2:
            if (!ls.empty()) remove(ksim::choose((int) ls.size()));
            break;
        case 3: query(); break;
        case 4: em.discardEvent(NAMES[ksim::choose(2)]); break;
        default: emit(ksim::choose(2));
        }
    }
    void called(int k, const Ev &e)
    {
        Lis *l = ls[k].get();
        CHECK("emitter-payload", e.intact(), "the event changed");
        int n = (int) e.seq - 1;
        {
            ksim::NoPreempt np;
            CHECK("emitter-payload", n >= 0 && n < (int) emits.size(), "unknown event");
            Emit &m = emits[n];
            CHECK("emitter-name", m.name == l->name, "listener of %s got an event of %s", NAMES[l->name], NAMES[m.name]);
            CHECK("emitter-double", ++m.calls[k] == 1, "listener %d got one event twice", k);
            CHECK("emitter-removed", !(l->rm_end < m.begin), "listener %d was called by an emit that began after its removal", k);
            l->total++;
            if (l->once) CHECK("emitter-once", l->total == 1, "a once-listener ran %d times", (int) l->total);
        }
        ksim::point();
        if (l->behaviour == 1 && budget-- > 0) remove(k); // itself
        else if (l->behaviour == 2 && budget-- > 0 && depth < 4) {
            depth++;
            some_op();
            depth--;
        } else if (l->behaviour == 3) ksim::advance(500);
    }
    void finish()
    {
        int n = 0;
        for (auto &l : ls)
            if (l->on_end != UINT64_MAX) n++;
        for (auto &m : emits) {
            if (m.end == UINT64_MAX) continue;
            for (int k = 0; k < (int) ls.size(); k++) {
                Lis *l = ls[k].get();
                if (l->name != m.name || l->on_end > m.begin) continue;
                if (l->once) {
                    CHECK("emitter-once", l->total == 1, "a once-listener registered before an emit ran %d times", (int) l->total);
                    continue;
                }
                if (l->rm_begin < m.end || l->removed_by_all) continue;
                CHECK("emitter-missed", m.calls.count(k), "listener %d missed an event emitted while it was registered", k);
            }
        }
        // whatever is left, works: one more emit of each name, then everything is removed
        for (int i = 0; i < 2; i++)
            emit(i);
        for (auto &m : emits)
            if (m.end != UINT64_MAX)
                for (int k = 0; k < (int) ls.size(); k++)
                    if (ls[k]->once && ls[k]->name == m.name && ls[k]->on_end < m.begin)
                        CHECK("emitter-once", ls[k]->total == 1, "a once-listener ran %d times", ls[k]->total);
        if (use_box) {
            size_t want = 0;
            for (auto &l : ls)
                want += !l->once && l->rm_end == UINT64_MAX;
            CHECK("emitter-container", box.att.size() == want, "%zu statistics attached to the container, %zu listeners left",
                  box.att.size(), want);
        }
        if (ksim::choose(2)) add(ksim::choose(2), true); // a once-listener that never ran
        em.removeAllListeners(use_box ? &box : nullptr);
        CHECK("emitter-container", box.att.empty(), "removeAllListeners left %zu statistics attached", box.att.size());
        for (auto &l : ls)
            l->rm_end = ksim::step(), l->removed_by_all = true;
        for (int i = 0; i < 2; i++)
            emit(i);
    }
};
void run(int maxthreads)
{
    std_faults();
    auto wp = std::make_shared<World>();
    World &w = *wp;
    w.use_box = ksim::choose(2);
    int nl = ksim::range(0, 4), nt = ksim::range(1, maxthreads), ops = ksim::range(1, 6);
    ksim::describe("listeners=%d threads=%d ops=%d%s", nl, nt, ops, w.use_box ? " container" : "");
    for (int i = 0; i < nl; i++)
        w.add(ksim::choose(2), ksim::chance(1, 3));
    Threads t;
    for (int i = 0; i < nt; i++)
        t.go([&] {
            for (int k = 0; k < ops; k++)
                w.some_op();
        });
    t.join();
    w.budget = 0;
    ksim::quiet();
    w.finish();
}
// removeAllListeners against everything else
void clear_race()
{
    std_faults();
    auto wp = std::make_shared<World>();
    World &w = *wp;
    w.use_box = false;
    int nl = ksim::range(1, 4);
    ksim::describe("removeAllListeners with %d listeners", nl);
    for (int i = 0; i < nl; i++)
        w.add(ksim::choose(2), ksim::chance(1, 3));
    for (auto &l : w.ls)
        l->behaviour = 0, l->claim = 1;
    Threads t;
    t.go([&] {
        for (int k = 0; k < 3; k++)
            w.emit(ksim::choose(2));
    });
    t.go([&] { // discards and queries
        for (int k = 0; k < 3; k++)
            if (ksim::choose(2)) w.em.discardEvent(NAMES[ksim::choose(2)]);
            else w.em.getListenerStats(1 + ksim::choose(5));
    });
    for (auto &l : w.ls)
        l->removed_by_all = true;
    uint64_t b = ksim::step();
    for (auto &l : w.ls)
        l->rm_begin = b;
    w.em.removeAllListeners(nullptr);
    uint64_t e = ksim::step();
    for (auto &l : w.ls)
        l->rm_end = e;
    t.join();
    w.emit(0);
    w.emit(1);
    for (auto &l : w.ls)
        if (l->once) CHECK("emitter-once", l->total <= 1, "a once-listener ran %d times", (int) l->total);
}
// one thread: EventEmitterSubscriber over each kind of emitter against a list of who is registered
void subscriber()
{
    int type = ksim::choose(3);
    kpsr::EventEmitterType et = type == 0 ? kpsr::SAFE : type == 1 ? kpsr::UNSAFE_MULTI : kpsr::UNSAFE_SINGLE;
    bool use_box = ksim::choose(2);
    TestContainer box;
    kpsr::Container *c = use_box ? &box : nullptr;
    ksim::describe("subscriber of a %s emitter%s", type == 0 ? "safe" : type == 1 ? "multi" : "single", use_box ? " container" : "");
    typedef std::shared_ptr<const Ev> P;
    struct L
    {
        int name, discards = 0, got = 0, want = 0;
        bool throws = false, once = false;
    };
    std::deque<L> all;
    std::map<int, L *> live;
    std::vector<L *> once;
    auto em = kpsr::EventEmitterFactory::createEventEmitter<P>(et);
    auto *s = new kpsr::EventEmitterSubscriber<Ev>(c, em, "topic");
    int64_t seq = 0;
    auto name = [](int n) { return "listener" + std::string(n % 3 * 8, 'x') + std::to_string(n / 3); };
    bool large = large_run(), low = !large && ksim::chance(1, 3);
    if (low) ksim::enable(ksim::F_BADALLOC, 1000);
    // runs f while memory is short; returns whether it got through
    auto got_through = [low](const std::function<void()> &f) {
        try {
            ksim::alloc_faults(low);
            f();
            ksim::alloc_faults(false);
        } catch (std::bad_alloc &) {
            ksim::alloc_faults(false);
            ksim::probe("no-memory");
            return false;
        } catch (...) {
            ksim::alloc_faults(false);
            throw;
        }
        return true;
    };
    int names = large ? 60 : 7;
    for (int k = sized(large, 4, 30, 1200); k > 0; k--) {
        int n = ksim::choose(names);
        auto i = live.find(n);
        switch (ksim::choose(8)) {
        case 0:
        case 1: { // register
            if (ksim::chance(1, 10)) { // nothing to call: refused, also under a name that is in use
                int how = ksim::choose(4);
                try {
                    if (got_through([&] {
                            switch (how) {
                            case 0: s->registerListener(name(n), std::function<void(const Ev &)>()); break;
                            case 1: s->registerSharedPtrListener(name(n), std::function<void(const P &)>()); break;
                            case 2: s->registerListenerOnce(std::function<void(const Ev &)>()); break;
                            default: s->registerSharedPtrListenerOnce(std::function<void(const P &)>());
                            }
                        }))
                        ksim::fail("emitter-empty", "a listener without a callback was taken");
                } catch (std::invalid_argument &) {
                    ksim::probe("empty-callback");
                }
                break;
            }
            if (i != live.end() || (type == 2 && !live.empty())) break;
            all.emplace_back();
            L *l = &all.back();
            l->name = n;
            l->throws = ksim::chance(1, 8);
            auto f = [l, &seq](const Ev &e) {
                ksim::AllocPause ap;
                CHECK("emitter-payload", e.intact() && e.seq == seq, "a listener got another event");
                l->got++;
                if (l->throws && seq % 3 == 0) throw std::out_of_range("user code");
            };
            bool by_ref = ksim::choose(2);
            std::string nm = name(n);
            std::function<void(const Ev &)> fr = f;
            std::function<void(const P &)> fp = [f](const P &e) { f(*e); };
            // a registration that failed has left nothing behind: the name is free, nobody is called
            if (!got_through([&] {
                    if (by_ref) s->registerListener(nm, fr);
                    else s->registerSharedPtrListener(nm, fp);
                }))
                break;
            live[n] = l;
            for (int churn = large && type != 2 && ksim::chance(1, 30) ? 300 : 0; churn > 0; churn--) { // many come and go meanwhile
                s->registerListener("passing", [](const Ev &) { ksim::fail("emitter-removed", "a removed listener was called"); });
                s->removeListener("passing");
            }
            break;
        }
        case 2: // remove, or remove nothing
            if (std::string nm = name(n); got_through([&] { s->removeListener(nm); })) {
                if (i != live.end()) live.erase(i);
            }
            break;
        case 3: { // statistics, also of names nobody uses
            auto st = s->getSubscriptionStats(name(n));
            if (i == live.end()) {
                CHECK("emitter-stats", !st, "there are statistics of a listener that is not registered: %s", st->name.c_str());
                break;
            }
            if (!st && !use_box && type) break; // kept for containers only
            CHECK("emitter-stats", st && st->name == "topic_" + name(n), "statistics of %s are %s", name(n).c_str(),
                  st ? st->name.c_str() : "missing");
            CHECK("emitter-stats", (int) st->totalDiscardedEvents == i->second->discards, "%s had %d events discarded, its "
                  "statistics say %d", name(n).c_str(), i->second->discards, (int) st->totalDiscardedEvents);
            break;
        }
        case 4: // discard
            if (std::string t = n ? "topic" : "other"; got_through([&] { em->discardEvent(t); }) && n)
                for (auto &x : live)
                    x.second->discards++;
            break;
        case 5: { // once
            all.emplace_back();
            L *l = &all.back();
            l->once = true;
            auto f = [l](const Ev &) { l->got++; };
            bool by_ref = ksim::choose(2);
            try {
                if (!got_through([&] {
                        if (by_ref) s->registerListenerOnce(f);
                        else s->registerSharedPtrListenerOnce([f](const P &e) { f(*e); });
                    }))
                    break;
                CHECK("emitter-once", type == 0, "an emitter took a once-listener it does not support");
                once.push_back(l);
            } catch (std::invalid_argument &) {
                CHECK("emitter-once", type != 0, "a once-listener was refused");
                all.pop_back();
            }
            break;
        }
        default: { // emit
            bool mine = ksim::choose(6);
            P e = std::make_shared<Ev>(1, ++seq);
            bool threw = false, may = false;
            for (auto &x : live)
                may |= mine && x.second->throws && seq % 3 == 0;
            std::string t = mine ? "topic" : ksim::choose(2) ? "topi" : "topicx";
            try {
                if (!got_through([&] { em->emitEvent(t, 0, e); })) break; // then nobody was called
            } catch (std::out_of_range &) {
                threw = true;
            }
            CHECK("emitter-throw", threw == may, threw ? "an emit threw" : "an exception of a listener got lost");
            if (threw) ksim::probe("listener-throws");
            for (auto &x : live) { // after an exception the rest may miss the event, but none gets it twice
                L *l = x.second;
                if (threw) l->want = std::min(l->got, l->want + 1);
                else l->want += mine;
            }
            std::vector<L *> rest;
            for (L *l : once)
                if (l->got || (mine && !threw)) l->want = 1;
                else rest.push_back(l);
            once.swap(rest);
        }
        }
        for (auto &l : all)
            CHECK("emitter-sequential", l.got == l.want, "listener %d was called %d times instead of %d", l.name, l.got, l.want);
        CHECK("emitter-container", box.att.size() == (use_box ? live.size() + 0 : 0), "%zu statistics attached to the container, %zu "
              "listeners registered", box.att.size(), live.size());
    }
    destroying([&] { delete s; });
    CHECK("emitter-container", box.att.empty(), "%zu statistics still attached to the container", box.att.size());
    em->emitEvent("topic", 0, std::make_shared<Ev>(1, ++seq));
    for (auto &l : all)
        CHECK("emitter-removed", l.got == l.want, "a listener was called after its subscriber was gone");
}
} // namespace

KSIM_SCENARIO(concurrent, 60) { run(4); }
KSIM_SCENARIO(reentrant, 20) { run(1); }
KSIM_SCENARIO(remove_all, 20) { clear_race(); }
KSIM_SCENARIO(subscriber, 15) { subscriber(); }
