// C28: state machines and their listeners against a model, driven by hand and by an event loop with a scheduler.
#include "hcommon.h"
#include <klepsydra/state_machine/config_state_machine.h>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_machine.h>
#include <klepsydra/state_machine/state_machine_listener.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>

namespace {
using namespace kpsr::fsm;
struct Thrown : std::runtime_error
{
    Thrown() : std::runtime_error("user code") {}
};
// what the machine may be: after a failed allocation there is more than one possibility
struct Cand
{
    int cur;
    std::deque<int> q;
    bool operator==(const Cand &o) const { return cur == o.cur && q == o.q; }
};
struct World;
// one call into the machine and what observers have to be told during it
struct Frame
{
    bool notify = false; // some candidate notifies
    std::vector<Cand> cands; // after the state change, as told to the observers
    std::vector<char> notifies, changed;
    std::set<int> must, may, served;
    bool disturbed = false; // an exception went through: nothing more has to come
};
enum Kind { ONEOFF, EACH, PERIODIC };
struct Act
{
    int id, kind, lst, state;
    bool must = true, may = true; // registered
    int behaviour;
};
struct Round // one notification of one listener
{
    int lst, state;
    bool changed;
    std::set<int> must[3], may[3], ran;
    int last[3] = {-1, -1, -1}, phase = 0;
};
struct World
{
    ConfigStateMachine cfg;
    std::shared_ptr<StateMachine> sm;
    std::vector<std::unique_ptr<StateMachineListener>> lst;
    std::vector<bool> named;
    std::vector<Cand> cands;
    bool started = false, nested_ok, alloc;
    std::vector<std::unique_ptr<Frame>> frames;
    std::vector<std::unique_ptr<Round>> rounds;
    std::vector<std::unique_ptr<Act>> acts;
    std::set<int> observers;
    std::vector<std::vector<std::pair<int, int>>> table; // per state: event, destination
    int next_observer = 0, depth = 0, ne;
    long notified = 0, ran = 0;

    static std::string sid(int i) { return i == 0 ? "idle" : "state" + std::string(i == 1 ? "" : std::to_string(i)); }
    static std::string eid(int i) { return i == 2 ? "event" : (i % 2 ? "event" : "an event with a name that does not fit into a small string, number ") + std::to_string(i); }
    int state_of(const std::string &full)
    {
        for (size_t i = 0; i < cfg.states.size(); i++)
            if (full == cfg.id + ":" + cfg.states[i].id) return (int) i;
        ksim::fail("state-unknown", "a state nobody configured: '%s'", full.c_str());
        return -1;
    }
    World(bool alloc_) : alloc(alloc_)
    {
        nested_ok = !alloc && ksim::chance(1, 3);
        cfg.id = ksim::chance(1, 2) ? "sm" : "a machine whose name is long enough for the heap";
        const bool wide = ksim::chance(1, 40);
        const int ns = sized(wide, 1, 4, 40);
        ne = sized(wide, 1, 4, 10);
        table.resize(ns);
        for (int i = 0; i < ns; i++) {
            ConfigState s;
            s.id = sid(i);
            for (int t = ksim::choose(wide ? 12 : 4); t > 0; t--) {
                ConfigTransition tr;
                const int to = ksim::choose(ns), ev = ksim::choose(ne);
                tr.destinationId = sid(to);
                tr.event = eid(ev);
                s.transitions.push_back(tr);
                table[i].emplace_back(ev, to);
            }
            cfg.states.push_back(s);
        }
        sm = SMFactoryImpl().createStateMachine(cfg);
        cands.push_back({0, {}});
        const int nl = ksim::range(0, 2);
        for (int i = 0; i < nl; i++) {
            named.push_back(ksim::chance(1, 2));
            lst.emplace_back(new StateMachineListener(named[i] ? cfg.id : ""));
        }
        ksim::describe("states=%d events=%d listeners=%d nested=%d alloc=%d", ns, ne, nl, nested_ok, alloc);
    }
    ~World()
    {
        destroying([&] {
            sm.reset();
            lst.clear();
        });
    }
    std::string name_for(int l, int s) { return named[l] ? cfg.states[s].id : cfg.id + ":" + cfg.states[s].id; }

    // --- the machine ---
    int dest(int cur, int e)
    {
        for (auto &t : table[cur])
            if (t.first == e) return t.second;
        return -1;
    }
    void add(std::vector<Cand> &v, const Cand &c)
    {
        for (auto &x : v)
            if (x == c) return;
        v.push_back(c);
    }
    // op: 0 start, 1 stop, 2 reset, 3 enqueue, 4 update, 5 enqueue and update
    void call(int op, int e)
    {
        ksim::log("op %d event %d (%zu)", op, e, cands.size());
        std::unique_ptr<Frame> f(new Frame);
        const bool was_started = started;
        const size_t n0 = cands.size();
        std::vector<Cand> failed; // possible after an exception thrown by a failed allocation
        if (alloc)
            for (auto &c : cands)
                add(failed, c);
        f->may = f->must = observers;
        if (op == 0) {
            started = true;
            for (auto &c : cands) {
                f->cands.push_back(c);
                f->notifies.push_back(1);
                f->changed.push_back(1);
            }
        } else if (op == 1)
            started = false;
        else if (op == 2) {
            started = false;
            std::vector<Cand> n;
            for (auto c : cands) {
                c.cur = 0;
                add(n, c);
            }
            cands = n;
        } else if (started) {
            if (op != 4) {
                for (auto &c : cands)
                    c.q.push_back(e);
                for (auto &x : frames)
                    for (auto &c : x->cands)
                        c.q.push_back(e);
            }
            if (alloc)
                for (auto &c : cands)
                    add(failed, c);
            if (op != 3)
                for (auto c : cands) {
                    bool changed = false;
                    while (!c.q.empty() && !changed) {
                        int d = dest(c.cur, c.q.front());
                        c.q.pop_front();
                        if (alloc) add(failed, c);
                        if (d >= 0) {
                            c.cur = d;
                            changed = true;
                        }
                    }
                    if (alloc) add(failed, c);
                    f->cands.push_back(c);
                    f->notifies.push_back(1);
                    f->changed.push_back(changed);
                }
        }
        f->notify = !f->cands.empty();
        if (f->notify) {
            cands.clear();
            for (auto &c : f->cands)
                add(cands, c);
        }
        Frame *fp = f.get();
        frames.push_back(std::move(f));
        depth++;
        bool bad = false, thrown = false;
        auto go = [&] {
            switch (op) {
            case 0: sm->start(); break;
            case 1: sm->stop(); break;
            case 2: sm->reset(); break;
            case 3: sm->enqueueEvent(eid(e)); break;
            case 4: sm->update(); break;
            default: sm->enqueueAndUpdate(eid(e));
            }
        };
        if (alloc && depth == 1 && n0 < 3) {
            const std::string ev = eid(e); // outside the faults
            ksim::alloc_faults(true);
            try {
                go();
            } catch (const std::bad_alloc &) {
                bad = true;
            } catch (const Thrown &) {
                thrown = true;
            }
            ksim::alloc_faults(false);
        } else
            try {
                go();
            } catch (const Thrown &) {
                thrown = true;
            }
        depth--;
        if (thrown) CHECK("state-throw", fp->disturbed, "the machine threw although no observer did");
        if (bad) {
            ksim::probe("a call on the machine ran out of memory");
            if (fp->served.empty()) { // it may have failed anywhere
                if (op == 2) failed = cands;
                if (op == 0) started = true;
                (void) was_started;
                for (auto &c : failed)
                    add(cands, c);
            }
        } else if (!fp->disturbed)
            for (int o : fp->must)
                CHECK("state-notify", !fp->notify || fp->served.count(o), "an observer was not told of the state after an update");
        std::unique_ptr<Frame> top = std::move(frames.back());
        frames.pop_back();
        if (thrown && depth) {
            // passes through the caller, which is an observer
            for (auto &x : frames)
                x->disturbed = true;
            throw Thrown();
        }
    }
    void told(int o, const std::string &full, bool changed)
    {
        const int s = state_of(full);
        notified++;
        CHECK("state-notify", !frames.empty(), "an observer was called outside any call on the machine");
        Frame &f = *frames.back();
        CHECK("state-notify", f.notify, "an observer was told of state '%s' during a call that does not update", full.c_str());
        CHECK("state-observer", f.may.count(o), "an observer that is not registered was called");
        CHECK("state-notify", f.served.insert(o).second, "an observer was told twice during one update");
        std::vector<Cand> ok;
        std::vector<char> nn, ch;
        for (size_t i = 0; i < f.cands.size(); i++)
            if (f.cands[i].cur == s && (bool) f.changed[i] == changed) {
                ok.push_back(f.cands[i]);
                nn.push_back(1);
                ch.push_back(f.changed[i]);
            }
        CHECK("state-transition", !ok.empty(), "told of state '%s' (%s); the configuration leads to '%s' (%s)", full.c_str(), changed ? "new" : "unchanged",
              cfg.states[f.cands[0].cur].id.c_str(), f.changed[0] ? "new" : "unchanged");
        f.cands = ok;
        f.changed = ch;
        f.notifies = nn;
        if (alloc) { // no nested updates: these are the possibilities
            cands.clear();
            for (auto &c : ok)
                add(cands, c);
        }
    }
    // --- observers ---
    void observe(int l) // l < 0: a plain one
    {
        int o = next_observer++;
        const int behaviour = ksim::choose(8);
        std::function<void(const std::string &, bool)> inner;
        if (l >= 0) inner = lst[l]->getObserverFunc();
        std::string pad(64, 'x'); // too big for std::function itself
        sm->registerObserver([this, o, l, inner, behaviour, pad](const std::string &full, bool changed) {
            {
                ksim::AllocPause p;
                told(o, full, changed);
            }
            if (l >= 0)
                round(l, full, changed, inner);
            else {
                ksim::AllocPause p;
                react(behaviour);
            }
        });
        observers.insert(o);
        if (!frames.empty()) frames.back()->may.insert(o); // told of this update or not
        for (auto &f : frames)
            f->may.insert(o);
    }
    void unobserve()
    {
        sm->unregisterObservers();
        observers.clear();
        for (auto &f : frames)
            f->must.clear();
    }
    // what user code does when it is called
    void react(int b)
    {
        if (ksim::fault(ksim::F_LISTENERTHROW, 1, 5)) {
            for (auto &f : frames)
                f->disturbed = true;
            throw Thrown();
        }
        switch (b) {
        case 0: call(3, ksim::choose(ne)); break;
        case 1:
            if (nested_ok && depth < 3 && ksim::chance(1, 2)) call(ksim::chance(1, 2) ? 4 : 5, ksim::choose(ne));
            break;
        case 2:
            if (ksim::chance(1, 3)) call(1, 0);
            break;
        case 3:
            if (observers.size() < 8 && ksim::chance(1, 3)) observe(-1);
            break;
        case 4:
            if (ksim::chance(1, 4)) unobserve();
            break;
        default: break;
        }
    }
    // --- listeners ---
    void round(int l, const std::string &full, bool changed, const std::function<void(const std::string &, bool)> &inner)
    {
        std::unique_ptr<Round> r;
        {
            ksim::AllocPause p;
            r.reset(new Round);
            r->lst = l;
            r->state = state_of(full);
            r->changed = changed;
            for (auto &a : acts)
                if (a->lst == l && a->state == r->state && (changed || a->kind == PERIODIC)) {
                    if (a->must) r->must[a->kind].insert(a->id);
                    if (a->may) r->may[a->kind].insert(a->id);
                }
            for (auto &x : rounds) // what an outer notification is about to run once may come then
                if (x->lst == l && x->state == r->state && x->changed)
                    for (int id : x->may[ONEOFF])
                        r->must[ONEOFF].erase(id);
            rounds.push_back(std::move(r));
        }
        Round *rp = rounds.back().get();
        bool finished = false;
        try {
            inner(full, changed);
            finished = true;
        } catch (...) {
            ksim::AllocPause p;
            // one-off actions that did not get their turn may or may not be kept
            for (int id : rp->may[ONEOFF])
                if (!rp->ran.count(id)) acts[id]->must = false;
            for (auto &f : frames)
                f->disturbed = true;
            rounds.pop_back();
            throw;
        }
        ksim::AllocPause p;
        if (finished)
            for (int k = 0; k < 3; k++)
                for (int id : rp->must[k])
                    CHECK("state-action", rp->ran.count(id), "an action registered for '%s' did not run", full.c_str());
        rounds.pop_back();
    }
    void run_act(int id, const std::string &full)
    {
        ran++;
        Act &a = *acts[id];
        CHECK("state-action", !rounds.empty(), "an action ran outside any notification");
        Round &r = *rounds.back();
        CHECK("state-action", a.state == state_of(full) && r.state == a.state && r.lst == a.lst, "an action ran for '%s', for which it is not registered", full.c_str());
        CHECK("state-action", r.may[a.kind].count(id), a.kind == ONEOFF && !a.may ? "a one-off action ran again" : "an action ran that is not registered, or although the state is the same");
        CHECK("state-action", r.ran.insert(id).second, "an action ran twice for one notification");
        CHECK("state-action-order", id > r.last[a.kind] && a.kind >= r.phase, "the actions of a state ran out of order");
        r.last[a.kind] = id;
        r.phase = a.kind;
        if (a.kind == ONEOFF) {
            a.must = a.may = false;
            for (auto &x : rounds) {
                x->must[ONEOFF].erase(id);
                if (x.get() != &r) x->may[ONEOFF].erase(id);
            }
        }
        switch (a.behaviour) {
        case 5:
            if (acts.size() < 24) add_act(a.lst, ksim::choose(3), ksim::chance(1, 2) ? a.state : ksim::choose((int) cfg.states.size()));
            break;
        case 6: remove(a.lst, a.state); break;
        case 7:
            if (ksim::chance(1, 2)) remove(a.lst, -1);
            break;
        default: react(a.behaviour);
        }
    }
    void add_act(int l, int kind, int s)
    {
        std::unique_ptr<Act> a(new Act);
        const int id = (int) acts.size();
        a->id = id;
        a->kind = kind;
        a->lst = l;
        a->state = s;
        a->behaviour = ksim::choose(10);
        acts.push_back(std::move(a));
        std::string pad(64, 'x');
        auto f = [this, id, pad](const std::string &full) {
            ksim::AllocPause p;
            run_act(id, full);
        };
        switch (kind) {
        case ONEOFF: lst[l]->addOneOffAction(name_for(l, s), f); break;
        case EACH: lst[l]->addAction(name_for(l, s), f); break;
        default: lst[l]->addPeriodicAction(name_for(l, s), f);
        }
        for (auto &r : rounds) // run in this notification or not
            if (r->lst == l && r->state == s && (r->changed || kind == PERIODIC)) r->may[kind].insert(id);
    }
    void remove(int l, int s)
    {
        if (s < 0)
            lst[l]->removeActions();
        else
            lst[l]->removeActions(name_for(l, s));
        for (auto &a : acts)
            if (a->lst == l && a->kind == PERIODIC && (s < 0 || a->state == s)) {
                a->must = a->may = false;
                for (auto &r : rounds)
                    r->must[PERIODIC].erase(a->id);
            }
    }
    void step()
    {
        const int nl = (int) lst.size();
        switch (ksim::choose(12)) {
        case 0: call(0, 0); break;
        case 1:
            if (ksim::chance(1, 2)) call(1, 0);
            break;
        case 2:
            if (ksim::chance(1, 2)) call(2, 0);
            break;
        case 3:
        case 4: call(3, ksim::choose(ne)); break;
        case 5: call(4, 0); break;
        case 6:
        case 7:
        case 8: call(5, ksim::choose(ne)); break;
        case 9:
            if (observers.size() < 6) observe(ksim::choose(nl + 1) - 1);
            break;
        case 10:
            if (ksim::chance(1, 4)) unobserve();
            break;
        default:
            if (!nl) break;
            if (ksim::chance(3, 4))
                add_act(ksim::choose(nl), ksim::choose(3), ksim::choose((int) cfg.states.size()));
            else
                remove(ksim::choose(nl), ksim::choose((int) cfg.states.size() + 1) - 1);
        }
    }
};

// Any history of calls, from one thread.
KSIM_SCENARIO(history, 60)
{
    ksim::enable(ksim::F_LISTENERTHROW, 300);
    ksim::enable(ksim::F_MEMREUSE, 250);
    ksim::enable(ksim::F_BADALLOC, 250);
    ksim::set_budget(3000000, 10000000); // possibilities multiply
    World w(ksim::enabled(ksim::F_BADALLOC));
    for (int l = 0; l < (int) w.lst.size(); l++)
        w.observe(l);
    if (ksim::chance(3, 4)) w.call(0, 0);
    for (int k = sized(large_run(), 1, 30, 250); k > 0; k--)
        w.step();
    // whatever happened, the machine still works
    ksim::quiet();
    w.nested_ok = false;
    w.unobserve();
    w.observe(-1);
    w.call(0, 0);
    for (int k = 0; k < 12; k++)
        w.call(5, ksim::choose(w.ne));
    if (w.ran) ksim::probe("actions ran");
}

struct Order // what a publisher asks for
{
    int op = 0, event = 0, src = 0, seq = 0;
};
// The machine lives on an event loop: orders come from publishers, updates from a scheduler.
KSIM_SCENARIO(driven, 40)
{
    std_faults();
    ksim::enable(ksim::F_LISTENERTHROW, 250);
    ksim::set_budget(600000, 3000000);
    World w(false);
    const int np = ksim::range(1, 3), n = ksim::range(1, 6), period = ksim::range(0, 20) * 5000;
    ksim::describe("publishers=%d orders=%d period=%d", np, n, period);
    kpsr::high_performance::EventLoopMiddlewareProvider<32> loop(nullptr);
    std::vector<int> seen(np, 0);
    Mine<int> handled = 0, updates = 0;
    auto *sub = loop.getSubscriber<Order>("orders");
    sub->registerListener("machine", [&](const Order &o) {
        ksim::NoPreempt np_;
        CHECK("state-order", o.seq > seen[o.src], "order %d of publisher %d arrived after %d", o.seq, o.src, seen[o.src]);
        seen[o.src] = o.seq;
        handled++;
        w.call(o.op, o.event); // a throw is the event loop's to contain
    });
    for (int l = 0; l < (int) w.lst.size(); l++)
        w.observe(l);
    w.observe(-1);
    try {
        loop.start();
    } catch (const std::runtime_error &) {
        return; // its thread is slow: see C10
    }
    kpsr::Scheduler *sched = period ? loop.getScheduler() : nullptr;
    if (sched)
        sched->startScheduledTask("update", period, true, [&] {
            ksim::NoPreempt np_;
            updates++;
            w.call(4, 0);
        });
    auto *pub = loop.getPublisher<Order>("orders", 0, nullptr, nullptr);
    Threads th;
    for (int i = 0; i < np; i++)
        th.go([&, i] {
            for (int k = 1; k <= n; k++) {
                Order o;
                o.src = i;
                o.seq = k;
                o.op = k == 1 ? 0 : ksim::chance(3, 4) ? 5 : ksim::choose(5);
                o.event = ksim::choose(w.ne);
                pub->publish(o);
                if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 40) * 1000000ll);
            }
        });
    th.join();
    ksim::quiet();
    // the loop counts the orders it refused because it was full
    auto *elp = dynamic_cast<kpsr::high_performance::EventLoopPublisher<Order, 32> *>(pub);
    auto refused = [&] {
        ksim::NoPreempt np_;
        return (int) elp->_discardedMessages;
    };
    for (int tries = 0; handled < np * n - refused(); tries++) {
        CHECK("state-lost", tries < 400, "only %d of %d orders reached the machine", (int) handled, np * n - refused());
        ksim::advance(5000000);
    }
    CHECK("state-lost", handled == np * n - refused(), "%d orders reached the machine, %d were published and %d refused", (int) handled, np * n, refused());
    if (sched) {
        int u = updates;
        ksim::advance(period * 1000ll * 3 + 50000000);
        CHECK("state-update", updates > u, "the scheduled update does not come any more");
        sched->stopScheduledTask("update");
    }
    loop.stop();
}
} // namespace
