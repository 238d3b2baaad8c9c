// C26: CoreContainer registries under concurrent attach, detach, start and stop.
#include "hcommon.h"
#include <klepsydra/core/core_container.h>
#include <klepsydra/sdk/publisher.h>
#include <klepsydra/sdk/service.h>

namespace {
struct Srv : kpsr::Service
{
    explicit Srv(const std::string &n) : kpsr::Service(nullptr, nullptr, n) {}
    void start() override { CHECK("service-run", false, "the container started the service itself"); }
    void stop() override { CHECK("service-run", false, "the container stopped the service itself"); }
    void execute() override {}
};
// One attachable object of any kind.
struct Obj
{
    int kind;
    std::unique_ptr<Srv> srv;
    std::unique_ptr<kpsr::FunctionStats> fn;
    std::unique_ptr<kpsr::ServiceStats> ss;
    std::unique_ptr<kpsr::PublicationStats> pub;
    std::unique_ptr<kpsr::SubscriptionStats> sub;
    kpsr::FunctionStats *st = nullptr;
    bool attached = false;
    Obj(int k, const std::string &name) : kind(k)
    {
        switch (k) {
        case 0: srv.reset(new Srv(name)); st = &srv->serviceStats; break;
        case 1: fn.reset(new kpsr::FunctionStats(name)); st = fn.get(); break;
        case 2: ss.reset(new kpsr::ServiceStats(name)); st = ss.get(); break;
        case 3: pub.reset(new kpsr::PublicationStats(name, "type")); st = pub.get(); break;
        default: sub.reset(new kpsr::SubscriptionStats(name, "listener", "type")); st = sub.get();
        }
    }
    // false if the attachment failed for lack of memory
    bool attach(kpsr::CoreContainer &c)
    {
        ksim::alloc_faults(true);
        bool ok = true;
        try {
            attach_(c);
        } catch (std::bad_alloc &) {
            ok = false;
            ksim::probe("attach-failed");
        }
        ksim::alloc_faults(false);
        return ok;
    }
    void attach_(kpsr::CoreContainer &c)
    {
        switch (kind) {
        case 0: c.attach(srv.get()); break;
        case 1: c.attach(fn.get()); break;
        case 2: c.attach(ss.get()); break;
        case 3: c.attach(pub.get()); break;
        default: c.attach(sub.get());
        }
    }
    void detach(kpsr::CoreContainer &c)
    {
        switch (kind) {
        case 0: c.detach(srv.get()); break;
        case 1: c.detach(fn.get()); break;
        case 2: c.detach(ss.get()); break;
        case 3: c.detach(pub.get()); break;
        default: c.detach(sub.get());
        }
    }
};
const char *KINDS[] = {"service", "function", "service statistics", "publication", "subscription"};
struct Ctl // one start or stop of the container
{
    uint64_t begin, end = UINT64_MAX;
    bool start;
};
struct World
{
    std::unique_ptr<kpsr::CoreContainer> box_{new kpsr::CoreContainer(nullptr, "box")}; // on the heap, where races are looked for
    kpsr::CoreContainer &box = *box_;
    std::deque<Ctl> ctl;
    int kinds;
    bool same_names;
    void control(bool start)
    {
        Ctl *c;
        {
            ksim::NoPreempt n;
            ctl.push_back({ksim::step(), UINT64_MAX, start});
            c = &ctl.back();
        }
        if (start)
            box.start();
        else
            box.stop();
        ksim::NoPreempt n;
        c->end = ksim::step();
    }
    std::unique_ptr<Obj> make(int i)
    {
        int k = ksim::choose(kinds);
        return std::unique_ptr<Obj>(new Obj(k, same_names ? "name" : "name " + std::to_string(i)));
    }
    // Attach, live, detach. The counts must fit the starts and stops of the container in that time.
    void life(Obj &o, std::function<void()> live, bool keep)
    {
        uint64_t ab = ksim::step();
        if (!o.attach(box)) { // then it is not attached
            long s, p;
            {
                ksim::NoPreempt n;
                s = o.st->starts;
                p = o.st->stops;
            }
            live();
            CHECK("container-touched", o.st->starts == s && o.st->stops == p, "a %s whose attachment failed was started or stopped", KINDS[o.kind]);
            return;
        }
        uint64_t ae = ksim::step();
        live();
        if (keep) {
            o.attached = true;
            return;
        }
        uint64_t db = ksim::step();
        o.detach(box);
        uint64_t de = ksim::step();
        long starts, stops;
        int s_min = 0, s_max = 1, p_min = 0, p_max = 0;
        {
            ksim::NoPreempt n;
            starts = o.st->starts;
            stops = o.st->stops;
            for (auto &c : ctl) {
                int in = c.begin > ae && c.end < db, over = c.end > ab && c.begin < de;
                (c.start ? s_min : p_min) += in;
                (c.start ? s_max : p_max) += over;
            }
        }
        CHECK("container-missed", starts >= s_min && stops >= p_min,
              "a %s saw %ld starts and %ld stops of at least %d and %d while it was attached", KINDS[o.kind], starts, stops, s_min, p_min);
        CHECK("container-extra", starts <= s_max && stops <= p_max,
              "a %s saw %ld starts and %ld stops of at most %d and %d while it was attached", KINDS[o.kind], starts, stops, s_max, p_max);
        if (ksim::chance(1, 2)) { // watch it, or destroy it at once
            ksim::advance(ksim::choose(4) * 2000);
            CHECK("container-touched", o.st->starts == starts && o.st->stops == stops, "a detached %s was started or stopped", KINDS[o.kind]);
        }
    }
};

// One thread, exact: every object of a changing set knows whether it runs.
KSIM_SCENARIO(history, 2)
{
    ksim::enable(ksim::F_BADALLOC, 300);
    World w;
    w.kinds = 5;
    w.same_names = ksim::chance(1, 2);
    bool running = false;
    std::vector<std::unique_ptr<Obj>> objs; // attached
    std::vector<std::unique_ptr<Obj>> out;  // detached, kept
    std::vector<std::pair<long, long>> was;
    int n = sized(large_run(), 2, 24, 600);
    ksim::describe("history ops=%d same-names=%d", n, (int) w.same_names);
    for (int i = 0; i < n; i++) {
        switch (ksim::choose(6)) {
        case 0:
        case 1: {
            auto n = w.make(i);
            if (!n->attach(w.box)) {
                if (ksim::chance(1, 2)) n->detach(w.box); // no effect
                if (ksim::chance(1, 2)) {
                    was.push_back({n->st->starts, n->st->stops});
                    out.push_back(std::move(n));
                }
                break;
            }
            objs.push_back(std::move(n));
            CHECK("container-state", objs.back()->st->running == running, "a %s attached to a %s container is not", KINDS[objs.back()->kind],
                  running ? "running" : "stopped");
            break;
        }
        case 2: {
            if (objs.empty()) break;
            size_t j = ksim::choose((int) objs.size());
            auto o = std::move(objs[j]);
            objs.erase(objs.begin() + j);
            o->detach(w.box);
            if (ksim::chance(1, 3)) o->detach(w.box); // once more: no effect
            if (ksim::chance(1, 2)) {
                was.push_back({o->st->starts, o->st->stops});
                out.push_back(std::move(o));
            }
            break;
        }
        case 3: {
            if (ksim::chance(1, 4)) { // nothing
                kpsr::CoreContainer &c = w.box;
                switch (ksim::choose(5)) {
                case 0: c.attach((kpsr::Service *) nullptr), c.detach((kpsr::Service *) nullptr); break;
                case 1: c.attach((kpsr::FunctionStats *) nullptr), c.detach((kpsr::FunctionStats *) nullptr); break;
                case 2: c.attach((kpsr::ServiceStats *) nullptr), c.detach((kpsr::ServiceStats *) nullptr); break;
                case 3: c.attach((kpsr::PublicationStats *) nullptr), c.detach((kpsr::PublicationStats *) nullptr); break;
                default: c.attach((kpsr::SubscriptionStats *) nullptr), c.detach((kpsr::SubscriptionStats *) nullptr);
                }
            }
            auto o = w.make(i); // never attached
            o->detach(w.box);
            break;
        }
        case 4:
            w.box.start();
            running = true;
            break;
        default:
            w.box.stop();
            running = false;
        }
        if (ksim::chance(1, 3)) { // toggle, so that missing objects show
            if (running)
                w.box.stop();
            else
                w.box.start();
            running = !running;
        }
        for (auto &o : objs)
            CHECK("container-state", o->st->running == running, "a %s attached to a %s container is not", KINDS[o->kind], running ? "running" : "stopped");
        for (size_t j = 0; j < out.size(); j++)
            CHECK("container-touched", out[j]->st->starts == was[j].first && out[j]->st->stops == was[j].second, "a detached %s was started or stopped",
                  KINDS[out[j]->kind]);
    }
}

KSIM_SCENARIO(threads, 5)
{
    std_faults();
    ksim::enable(ksim::F_BADALLOC, 250);
    World w;
    w.kinds = ksim::chance(1, 2) ? 5 : 1;
    int base = w.kinds == 1 ? ksim::choose(5) : 0;
    w.same_names = ksim::chance(1, 2);
    int na = ksim::range(1, 3), nc = ksim::range(1, 2);
    std::vector<int> per(na), cops(nc);
    int objs = 0, ctls = 0;
    bool large = large_run();
    for (auto &x : per) objs += x = sized(large, 1, 3, 40);
    for (auto &x : cops) ctls += x = ksim::range(1, 4);
    ksim::describe("threads attachers=%d objects=%d controllers=%d ops=%d same-names=%d", na, objs, nc, ctls, (int) w.same_names);
    std::vector<std::vector<std::unique_ptr<Obj>>> kept(na);
    std::vector<std::unique_ptr<Obj>> first; // attached from the beginning to the end
    int nf = ksim::choose(3);
    auto make = [&](int i) {
        if (w.kinds == 5) return w.make(i);
        return std::unique_ptr<Obj>(new Obj(base, w.same_names ? "name" : "name " + std::to_string(i)));
    };
    for (int i = 0; i < nf; i++) {
        auto o = make(1000 + i);
        if (o->attach(w.box)) first.push_back(std::move(o));
    }
    bool pre = ksim::chance(1, 3);
    if (pre) w.control(true);
    Threads ts;
    for (int i = 0; i < na; i++)
        ts.go([&, i] {
            for (int j = 0; j < per[i]; j++) {
                auto o = make(i * 10 + j);
                bool keep = ksim::chance(1, 3);
                w.life(*o, [&] {
                    if (ksim::chance(1, 2)) ksim::advance(ksim::choose(4) * 1000);
                    std::unique_ptr<Obj> o2;
                    if (ksim::chance(1, 3)) { // another one's whole life in between
                        o2 = make(i * 10 + j + 100);
                        w.life(*o2, [] {}, false);
                    }
                }, keep);
                if (o->attached) kept[i].push_back(std::move(o));
            }
        });
    for (int i = 0; i < nc; i++)
        ts.go([&, i] {
            for (int j = 0; j < cops[i]; j++) {
                w.control(ksim::chance(1, 2));
                if (ksim::chance(1, 3)) ksim::advance(ksim::choose(3) * 1000);
            }
        });
    ksim::quiet();
    ts.join();
    // all agree, and with the last start or stop if that is a single one
    bool may_run = false, may_stop = false;
    uint64_t last = 0;
    for (auto &c : w.ctl)
        if (c.begin > last) last = c.begin;
    if (w.ctl.empty()) may_stop = true;
    uint64_t latest_begin_of_finished = 0;
    for (auto &c : w.ctl)
        latest_begin_of_finished = std::max(latest_begin_of_finished, c.begin);
    for (auto &c : w.ctl) // candidates: not followed by another one that began after its end
        if (c.end > latest_begin_of_finished) (c.start ? may_run : may_stop) = true;
    int run = 0, idle = 0;
    std::vector<Obj *> all;
    for (auto &o : first) all.push_back(o.get());
    for (auto &v : kept)
        for (auto &o : v) all.push_back(o.get());
    for (auto o : all) {
        (o->st->running ? run : idle)++;
        CHECK("container-state", o->st->running ? may_run : may_stop, "a %s is %s in a container that is not", KINDS[o->kind],
              o->st->running ? "running" : "stopped");
    }
    CHECK("container-state", !run || !idle, "%d attached objects run and %d do not", run, idle);
    for (int start = 1; start >= 0; start--) {
        if (start)
            w.box.start();
        else
            w.box.stop();
        for (auto o : all) CHECK("container-state", o->st->running == (start == 1), "a %s was not reached by the final %s", KINDS[o->kind], start ? "start" : "stop");
    }
    for (auto o : all) {
        o->detach(w.box);
        long s = o->st->starts, p = o->st->stops;
        w.box.start();
        w.box.stop();
        CHECK("container-touched", o->st->starts == s && o->st->stops == p, "a detached %s was started or stopped", KINDS[o->kind]);
    }
}
} // namespace
