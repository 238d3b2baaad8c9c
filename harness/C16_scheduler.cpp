// C16: scheduled tasks run when due and never after stop; the scheduler always stops.
#include "hcommon.h"
#include "test_container.h"
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_scheduler.h>
#include <klepsydra/sdk/service.h>

namespace {
const int64_t US = 1000;

bool calm; // no faults any more
int64_t base; // periods are multiples of this (us)

// One scheduled task, from one start to its stop.
struct Inst
{
    std::string name;
    Mine<int64_t> after = 0;
    Mine<bool> repeat = false, stopped = false, in = false, loop = false;
    Mine<int64_t> cost = 0, started = 0, last = -1, last_cost = 0, runs = 0;
    bool jumps = false;
    int calm_runs = 0;
    std::function<void()> extra;

    void run()
    {
        int64_t n = ksim::now_ns();
        CHECK("run-after-stop", !stopped, "task %s runs although its stop has returned", name.c_str());
        CHECK("task-overlap", !in, "task %s runs twice at once", name.c_str());
        CHECK("task-extra-run", repeat || runs == 0, "one-shot task %s runs again", name.c_str());
        CHECK("task-early", n - started >= after * US, "task %s due after %lld us ran after %lld us", name.c_str(), (long long) after,
              (long long) ((n - started) / US));
        if (!loop && repeat)
            CHECK("task-early", n - started >= (runs + 1) * (after - 2) * US, "run %lld of task %s of period %lld us after %lld us", (long long) runs + 1,
                  name.c_str(), (long long) after, (long long) ((n - started) / US));
        // without stalls the starts are a period apart too
        if (!loop && calm && calm_runs++ > 1)
            CHECK("task-early", n - last >= (after - after / 4 - 20) * US, "task %s of period %lld us ran %lld us after its last run", name.c_str(),
                  (long long) after, (long long) ((n - last) / US));
        // nor further than a period, or as long as the run took
        if (!loop && calm && calm_runs > 2 && !extra) {
            int64_t most = std::max<int64_t>(after, last_cost);
            CHECK("task-late", n - last <= (most + most / 10 + 50) * US, "task %s of period %lld us, whose last run took %lld us, ran %lld us "
                  "after its last run", name.c_str(), (long long) after, (long long) last_cost, (long long) ((n - last) / US));
        }
        last = n;
        in = true;
        if (jumps && ksim::choose(2)) {
            static const int64_t j[] = {-3600, -1, 1, 3600};
            ksim::jump_wall(j[ksim::choose(4)] * 1000000000ll);
            ksim::probe("clock-jump-during-task");
        }
        int64_t cst = cost;
        last_cost = cst ? cst > 1000000000 || ksim::choose(2) ? cst : cst / 2 : 0;
        if (last_cost) ksim::advance(last_cost * US);
        if (extra) extra();
        in = false;
        runs++;
    }
};
struct Svc : kpsr::Service
{
    Inst *inst;
    Svc(const std::string &name, Inst *i) : Service(nullptr, nullptr, name), inst(i) {}
    void start() override {}
    void stop() override {}
    void execute() override { inst->run(); }
};

int64_t some_cost(int64_t period, bool alone)
{
    switch (ksim::choose(6)) {
    case 1: return period / 3;
    case 2: return period + 7;
    case 3: return period * 3;
    case 4: return base / 2;
    case 5: return !alone || ksim::choose(2) ? 11 : 2400000000ll; // 40 minutes
    }
    return 0;
}

int names_kind = 0;
std::string task_name(int i)
{
    if (names_kind == 2) return "task" + std::string(i, '1'); // each is the beginning of the next
    return (names_kind ? "a scheduled task with a long name, number " : "task") + std::to_string(i);
}

// The thread that owns one name: every start and stop of that name comes from here.
struct Owner
{
    kpsr::Scheduler &s;
    std::string name;
    bool service, loop, alone = false, low = false;
    std::deque<Inst> all; // outlives the scheduler
    std::deque<Svc> svcs;
    Inst *cur = nullptr;
    Svc *cur_svc = nullptr;
    std::function<void()> extra;
    Owner(kpsr::Scheduler &sc, const std::string &n, bool sv, bool lp) : s(sc), name(n), service(sv), loop(lp) {}

    bool start()
    {
        static const int64_t mult[] = {1, 3, 0, 2, 7, 20};
        all.emplace_back();
        Inst *i = &all.back();
        i->name = name;
        i->after = base * mult[ksim::choose(6)];
        i->repeat = ksim::chance(1, 2) && i->after > 0;
        i->cost = some_cost(i->after, alone);
        i->jumps = ksim::chance(1, 3);
        i->loop = loop;
        i->extra = extra;
        i->started = ksim::now_ns();
        Inst *old = cur;
        std::function<void()> task = [i] { i->run(); };
        if (service) svcs.emplace_back(name, i), cur_svc = &svcs.back();
        try {
            ksim::alloc_faults(low);
            if (service) s.startScheduledService(i->after, i->repeat, cur_svc);
            else s.startScheduledTask(name, i->after, i->repeat, task);
            ksim::alloc_faults(false);
            cur = i;
        } catch (std::system_error &) {
            ksim::alloc_faults(false);
            ksim::probe("thread-creation-failed");
            i->stopped = true;
            cur = nullptr;
        } catch (std::bad_alloc &) { // the task never runs; the one it was to replace may or may not have been stopped
            ksim::alloc_faults(false);
            ksim::probe("no-memory");
            i->stopped = true;
            cur = old;
            stop();
            return false;
        }
        if (old) {
            ksim::probe("task-replaced");
            ended(old);
        }
        return cur != nullptr;
    }
    void ended(Inst *i)
    {
        if (loop) return; // a run may still be queued in the event loop
        ksim::NoPreempt np;
        CHECK("run-after-stop", !i->in, "stop of task %s returned while it was running", name.c_str());
        i->stopped = true;
    }
    void stop()
    {
        if (service && cur_svc)
            s.stopScheduledService(cur_svc);
        else
            s.stopScheduledTask(name);
        if (cur) ended(cur);
        cur = nullptr;
    }
    void work(int ops)
    {
        for (; ops > 0; ops--)
            switch (ksim::choose(4)) {
            case 0:
            case 1: start(); break;
            case 2: ksim::advance(ksim::choose(5) * (1 + ksim::choose(20)) * base * 300); break;
            case 3:
                if (cur) ksim::probe("stop-active-task");
                stop();
                break;
            }
    }
    // no faults any more: the task has to be on time
    void on_time()
    {
        if (!cur) return;
        ksim::NoPreempt *np = new ksim::NoPreempt;
        int64_t runs = cur->runs, due = cur->repeat ? runs + 2 + ksim::choose(4) : 1;
        calm = true;
        int64_t wait = 2 * cur->after + 3 * cur->cost;
        if (cur->repeat) wait = (due - runs) * std::max(cur->after, cur->cost) + 2 * cur->after + cur->cost;
        delete np;
        if (cur->runs >= due) return;
        ksim::advance(wait * US);
        for (int k = 0; cur->runs < due; k++) {
            CHECK("task-late", k < 10, "%s task %s (period %lld us, takes %lld us) ran %lld times within %lld us",
                  cur->repeat ? "repeating" : "one-shot", name.c_str(), (long long) cur->after, (long long) cur->cost,
                  (long long) (cur->runs - runs), (long long) (wait + wait / 4));
            ksim::advance((wait / 40 + 20) * US);
        }
        ksim::probe("ran-on-time");
    }
};

void basic()
{
    std_faults();
    names_kind = ksim::chance(1, 4) ? ksim::range(1, 2) : 0;
    calm = false;
    base = 1;
    for (int k = ksim::chance(1, 8) ? 3 : ksim::choose(3); k > 0; k--)
        base *= 60;
    std::unique_ptr<kpsr::mem::BasicScheduler> s(new kpsr::mem::BasicScheduler);
    int nt = ksim::range(1, 3), ops = sized(large_run(), 1, 5, 30);
    bool child = ksim::chance(1, 4);
    ksim::describe("threads=%d ops=%d%s", nt, ops, child ? " tasks-schedule-tasks" : "");
    std::deque<Owner> owners, children;
    for (int i = 0; i < nt; i++) {
        owners.emplace_back(*s, task_name(i), ksim::chance(1, 4), false);
        if (child) {
            children.emplace_back(*s, "the child of " + task_name(i), false, false);
            Owner *c = &children.back();
            owners.back().extra = [c] {
                if (ksim::choose(3) == 1) {
                    ksim::probe("task-schedules-task");
                    c->work(1);
                }
            };
        }
    }
    if (nt == 1 && !child) owners[0].alone = true;
    bool low = ksim::chance(1, 5);
    if (low) ksim::enable(ksim::F_BADALLOC, 1000);
    for (auto &o : owners)
        o.low = low;
    {
        Threads t;
        for (int i = 1; i < nt; i++)
            t.go([&, i] { owners[i].work(ops); });
        if (!child && ksim::chance(1, 4)) ksim::enable(ksim::F_THREADFAIL, 600);
        owners[0].work(ops);
        t.join();
    }
    bool check = ksim::chance(2, 3);
    if (check) {
        ksim::quiet();
        if (!child)
            for (auto &o : owners)
                o.on_time();
    }
    if (ksim::choose(2)) {
        for (auto &o : owners)
            o.stop();
    } else
        ksim::probe("destroyed-with-tasks");
    if (!check) ksim::quiet();
    if (low) calm = false, ksim::unquiet();
    ksim::alloc_faults(low); // a destructor cannot fail
    s.reset();
    ksim::alloc_faults(false);
    ksim::quiet();
    for (auto *v : {&owners, &children})
        for (auto &o : *v)
            for (auto &i : o.all) {
                CHECK("run-after-stop", !i.in, "scheduler destroyed while task %s was running", i.name.c_str());
                i.stopped = true;
            }
    ksim::advance(70000 * US);
    CHECK("scheduler-thread-left", ksim::live_threads() == 1, "a task thread outlives its scheduler");
}

// several threads start and stop the same name
void shared_name()
{
    std_faults();
    names_kind = ksim::chance(1, 4) ? ksim::range(1, 2) : 0;
    calm = false;
    base = 1;
    for (int k = ksim::choose(3); k > 0; k--)
        base *= 60;
    std::unique_ptr<kpsr::mem::BasicScheduler> s(new kpsr::mem::BasicScheduler);
    int nt = ksim::range(2, 3), ops = sized(large_run(), 1, 4, 30), names = ksim::range(1, 2);
    ksim::describe("threads=%d ops=%d names=%d", nt, ops, names);
    std::list<Inst> all;
    {
        Threads t;
        for (int i = 0; i < nt; i++)
            t.go([&] {
                for (int k = 0; k < ops; k++) {
                    std::string n = task_name(ksim::choose(names));
                    if (ksim::choose(3)) {
                        Inst *i;
                        {
                            ksim::NoPreempt np;
                            all.emplace_back();
                            i = &all.back();
                            i->name = n;
                            i->after = ksim::choose(3) * 40;
                            i->repeat = i->after && ksim::choose(2);
                            i->started = ksim::now_ns();
                        }
                        s->startScheduledTask(n, i->after, i->repeat, [i] { i->run(); });
                    } else
                        s->stopScheduledTask(n);
                    if (ksim::choose(2)) ksim::advance(ksim::choose(3) * 30000);
                }
            });
        t.join();
    }
    ksim::quiet();
    if (ksim::choose(2))
        for (int k = 0; k < names; k++)
            s->stopScheduledTask(task_name(k));
    else
        s.reset();
    for (auto &i : all) {
        CHECK("run-after-stop", !i.in, "everything was stopped while task %s was running", i.name.c_str());
        i.stopped = true;
    }
    ksim::advance(5000 * US);
    s.reset();
    CHECK("scheduler-thread-left", ksim::live_threads() == 1, "a task thread outlives its scheduler");
}

void event_loop()
{
    std_faults();
    names_kind = ksim::chance(1, 4) ? ksim::range(1, 2) : 0;
    calm = false;
    base = 1;
    for (int k = ksim::choose(3); k > 0; k--)
        base *= 60;
    TestContainer cont;
    std::unique_ptr<kpsr::high_performance::EventLoopMiddlewareProvider<16>> p(
        new kpsr::high_performance::EventLoopMiddlewareProvider<16>(ksim::chance(1, 2) ? &cont : nullptr));
    kpsr::Scheduler *s = p->getScheduler();
    auto *pub = static_cast<kpsr::high_performance::EventLoopPublisher<std::function<void()>, 16> *>(
        p->getPublisher<std::function<void()>>("EVENTLOOP_SCHEDULER", 0, nullptr, nullptr));
    int nt = ksim::range(1, 2), ops = sized(large_run(), 1, 4, 25);
    ksim::describe("threads=%d ops=%d", nt, ops);
    std::deque<Owner> owners;
    int where = 0;
    bool in = false;
    auto extra = [&] {
        if (!where) where = ksim::self();
        CHECK("loop-thread", where == ksim::self(), "tasks of one event loop run on two threads");
        CHECK("loop-thread", !in, "two tasks of one event loop at once");
        in = true;
        ksim::point();
        in = false;
    };
    for (int i = 0; i < nt; i++) {
        owners.emplace_back(*s, task_name(i), ksim::chance(1, 4), true);
        owners.back().extra = extra;
    }
    try {
        p->start();
    } catch (std::runtime_error &) {
        ksim::probe("start-timed-out");
        return;
    }
    {
        Threads t;
        for (int i = 1; i < nt; i++)
            t.go([&, i] { owners[i].work(ops); });
        owners[0].work(ops);
        t.join();
    }
    ksim::quiet();
    auto runs = [&] {
        int64_t n = 0;
        for (auto &o : owners)
            for (auto &i : o.all)
                n += i.runs;
        return n;
    };
    if (nt == 1 && owners[0].all.size() == 1 && !pub->_discardedMessages) owners[0].on_time();
    if (ksim::choose(3)) {
        for (auto &o : owners)
            o.stop();
        auto expected = [&] {
            ksim::NoPreempt np;
            return (int64_t) (pub->publicationStats.totalProcessed - pub->_discardedMessages);
        };
        int64_t want = expected();
        for (int64_t d = 100000; runs() < want; d += d / 4)
            ksim::advance(d);
        ksim::advance(70000 * US);
        CHECK("task-conservation", runs() == want && expected() == want, "%lld runs queued when the tasks were stopped, %lld run",
              (long long) want, (long long) runs());
        ksim::probe("drained");
    } else if (ksim::choose(2)) {
        p->stop();
        for (auto &o : owners)
            for (auto &i : o.all) {
                CHECK("run-after-stop", !i.in, "event loop stopped while task %s was running", i.name.c_str());
                i.stopped = true;
            }
    }
    p.reset();
    for (auto &o : owners)
        for (auto &i : o.all) {
            CHECK("run-after-stop", !i.in, "provider destroyed while task %s was running", i.name.c_str());
            i.stopped = true;
        }
    ksim::advance(70000 * US);
    CHECK("scheduler-thread-left", ksim::live_threads() == 1, "a thread outlives the provider");
}
} // namespace
KSIM_SCENARIO(basic, 50) { basic(); }
KSIM_SCENARIO(shared_name, 20) { shared_name(); }
KSIM_SCENARIO(event_loop, 30) { event_loop(); }
