// C30: middlewares composed with forwarders, and services managed by system events.
#include "mem_common.h"
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/manage_service.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/sdk/event_transform_forwarder.h>

namespace {
using kpsr::high_performance::EventLoopMiddlewareProvider;
using kpsr::high_performance::EventLoopPublisher;
enum Kind { BASIC, CONCURRENT, LOOP, SAME_LOOP, EMITTER, KINDS };
const char *KIND[] = {"basic", "concurrent", "loop", "same-loop", "emitter"};
typedef EventLoopMiddlewareProvider<16> Loop;

// one middleware for events of type T, whatever its kind
template<class T>
struct Node
{
    int kind = 0, number = 0;
    bool blocking = false;
    std::unique_ptr<kpsr::mem::BasicMiddlewareProvider<T>> basic;
    std::unique_ptr<kpsr::mem::ConcurrentMiddlewareProvider<T>> conc;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<T>> emit;
    std::shared_ptr<Loop> loop;
    EventLoopPublisher<T, 16> *elp = nullptr;
    kpsr::Publisher<T> *pub = nullptr;
    kpsr::Subscriber<T> *sub = nullptr;

    void make(int k, int n, kpsr::Container *c, const std::shared_ptr<Loop> &shared, bool may_block, int pool)
    {
        kind = k;
        number = n;
        std::string name = "stage " + std::to_string(n);
        blocking = may_block && ksim::chance(1, 2);
        int queue = ksim::range(1, 4);
        switch (kind) {
        case BASIC:
            basic.reset(new kpsr::mem::BasicMiddlewareProvider<T>(c, name, queue, pool, nullptr, nullptr, !blocking));
            pub = basic->getPublisher();
            sub = basic->getSubscriber();
            break;
        case CONCURRENT:
            conc.reset(new kpsr::mem::ConcurrentMiddlewareProvider<T>(c, name, queue, pool, nullptr, nullptr, !blocking, 1 + ksim::choose(3) * 500));
            pub = conc->getPublisher();
            sub = conc->getSubscriber();
            break;
        case EMITTER:
            emit.reset(new kpsr::EventEmitterMiddlewareProvider<T>(c, name, pool, nullptr, nullptr));
            pub = emit->getPublisher();
            sub = emit->getSubscriber();
            break;
        default:
            loop = kind == SAME_LOOP ? shared : std::make_shared<Loop>(c, name);
            pub = loop->template getPublisher<T>(name, pool, nullptr, nullptr);
            elp = static_cast<EventLoopPublisher<T, 16> *>(pub);
            sub = loop->template getSubscriber<T>(name);
        }
    }
    bool queued() const { return kind == BASIC || kind == CONCURRENT; }
    void start()
    {
        try {
            if (basic) basic->start();
            if (conc) conc->start();
            if (loop) loop->start();
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out"); // it is starting
        }
    }
    void stop()
    {
        if (basic) basic->stop();
        if (conc) conc->stop();
        if (loop) loop->stop();
    }
    void destroy()
    {
        destroying([&] {
            basic.reset();
            conc.reset();
            emit.reset();
            loop.reset();
        });
    }
    int64_t discarded() { return elp ? (int64_t) elp->_discardedMessages : emit ? 0 : (int64_t) pub->publicationStats.totalDiscardedEvents; }
    template<class F>
    std::shared_ptr<kpsr::EventTransformForwarder<T, T>> forwarder(const F &f)
    {
        if (basic) return basic->template getProcessForwarder<T>(f);
        if (conc) return conc->template getProcessForwarder<T>(f);
        if (emit) return emit->template getProcessForwarder<T>(f);
        return std::make_shared<kpsr::EventTransformForwarder<T, T>>(f, pub);
    }
};

const int64_t IDS = 1000; // an event is number + IDS * (sum of 2^edge over the marking edges it came along)

struct Stage : Node<Ev>
{
    std::vector<int> from;              // stages
    std::set<int64_t> paths;            // marks an event can have here
    int64_t published = 0, delivered = 0; // by the heads, to the listeners
    std::map<std::pair<int64_t, int64_t>, int64_t> last; // source, path -> number
    std::vector<std::unique_ptr<kpsr::EventForwarder<Ev>>> plain;
    std::vector<std::shared_ptr<kpsr::EventTransformForwarder<Ev, Ev>>> marking;
};

void pipeline()
{
    std_faults();
    TestContainer box;
    bool large = large_run();
    int ns = sized(large, 1, 4, 7), heads = ksim::range(1, 2), per = sized(large, 1, 5, 50);
    bool slow = ksim::chance(1, 4), usebox = ksim::chance(1, 3);
    bool restarts = ksim::chance(1, 4);
    int pool = ksim::choose(3);
    pooled(pool);
    kpsr::Container *c = usebox ? &box : nullptr;
    std::shared_ptr<Loop> shared = std::make_shared<Loop>(c, "shared");
    std::vector<std::unique_ptr<Stage>> st;
    std::string what;
    int edges = 0;
    for (int i = 0; i < ns; i++) {
        st.emplace_back(new Stage);
        Stage &s = *st.back();
        s.make(ksim::choose(KINDS), i, c, shared, true, pool);
        what += std::string(i ? ", " : "") + KIND[s.kind] + (s.queued() && s.blocking ? " (blocking)" : "");
        if (i) {
            int np = i > 1 && ksim::chance(1, 3) ? 2 : 1, a = ksim::chance(2, 3) ? i - 1 : ksim::choose(i);
            s.from.push_back(a);
            if (np == 2) {
                int b = ksim::choose(i - 1);
                s.from.push_back(b >= a ? b + 1 : b);
            }
        } else
            s.paths.insert(0);
        auto tap = [&s, per](const Ev &e) {
            e.check("listener");
            ksim::NoPreempt np;
            int64_t path = e.seq / IDS, n = e.seq % IDS;
            CHECK("pipe-invented", n >= 1 && n <= per && s.paths.count(path), "stage %d got event %lld of source %lld along path %llx, which is none",
                  s.number, (long long) n, (long long) e.src, (long long) path);
            int64_t &l = s.last[{e.src, path}];
            CHECK("pipe-duplicate", n != l, "stage %d got event %lld of source %lld twice along one path", s.number, (long long) n, (long long) e.src);
            CHECK("pipe-order", n > l, "stage %d got event %lld of source %lld after event %lld", s.number, (long long) n, (long long) e.src, (long long) l);
            l = n;
            s.delivered++;
        };
        bool first = ksim::choose(2);
        if (first) s.sub->registerListener("tap", tap);
        if (slow && ksim::choose(2)) s.sub->registerListener("slow", [](const Ev &) { ksim::advance(ksim::choose(4) * 5000); });
        for (int p : s.from) {
            Stage &u = *st[p];
            std::string name = "to stage " + std::to_string(i);
            if (s.from.size() == 1 && ksim::choose(2)) {
                s.plain.emplace_back(new kpsr::EventForwarder<Ev>(s.pub));
                kpsr::EventForwarder<Ev> *f = s.plain.back().get();
                u.sub->registerListener(name, std::bind(&kpsr::EventForwarder<Ev>::onMessageReceived, f, std::placeholders::_1));
                s.paths.insert(u.paths.begin(), u.paths.end());
            } else {
                int64_t mark = 1 << edges++;
                s.marking.push_back(s.forwarder([mark](const Ev &in, Ev &out) {
                    in.check("transformation");
                    out.fill(in.src, in.seq + mark * IDS);
                }));
                u.sub->registerListener(name, s.marking.back()->forwarderListenerFunction);
                for (int64_t x : u.paths)
                    s.paths.insert(x + mark);
            }
        }
        if (!first) s.sub->registerListener("tap", tap);
    }
    ksim::describe("stages: %s; sources=%d x%d pool=%d%s%s", what.c_str(), heads, per, pool, slow ? " slow" : "", restarts ? " restarts" : "");
    // an event loop does not keep what was published before it was started
    for (auto &s : st)
        if (s->loop) s->start();
    std::vector<Stage *> order;
    for (auto &s : st)
        order.insert(order.begin() + ksim::choose((int) order.size() + 1), s.get());
    {
        Threads t;
        for (int h = 0; h < heads; h++)
            t.go([&, h] {
                for (int n = 1; n <= per; n++) {
                    Stage &s = *st[0];
                    switch (ksim::choose(3)) {
                    case 0: s.pub->publish(Ev(h + 1, n)); break;
                    case 1: s.pub->publish(std::shared_ptr<const Ev>(std::make_shared<Ev>(h + 1, n))); break;
                    default: s.pub->processAndPublish([&](Ev &e) { e.fill(h + 1, n); });
                    }
                    {
                        ksim::NoPreempt np;
                        s.published++;
                    }
                    if (ksim::choose(3) == 1) ksim::advance(ksim::choose(4) * 10000);
                }
            });
        for (Stage *s : order) {
            if (ksim::choose(3) == 1) ksim::advance(ksim::choose(4) * 10000);
            if (!s->loop) s->start();
        }
        if (restarts)
            for (int k = ksim::range(1, 3); k > 0; k--) {
                Stage *s = order[ksim::choose(ns)];
                if (!s->queued()) continue;
                s->stop();
                ksim::probe("stage-restarted");
                ksim::advance(ksim::choose(4) * 10000);
                s->start();
            }
        t.join();
    }
    ksim::quiet();
    for (auto &s : st) {
        auto in = [&] {
            ksim::NoPreempt np;
            int64_t n = s->published;
            for (int p : s->from)
                n += st[p]->delivered;
            return n;
        };
        auto out = [&] {
            ksim::NoPreempt np;
            return s->delivered + s->discarded();
        };
        while (out() < in()) ksim::advance(50000);
    }
    ksim::advance(300000); // whatever comes too often comes now
    for (auto &s : st) {
        int64_t in = s->published;
        for (int p : s->from)
            in += st[p]->delivered;
        CHECK("pipe-conservation", in == s->delivered + s->discarded(), "stage %d (%s): %lld events came in, %lld were delivered and %lld discarded",
              s->number, KIND[s->kind], (long long) in, (long long) s->delivered, (long long) s->discarded());
        if (s->kind == EMITTER || (s->queued() && s->blocking))
            CHECK("pipe-lost", in == s->delivered, "stage %d (%s), which never discards, lost %lld events", s->number, KIND[s->kind],
                  (long long) (in - s->delivered));
    }
    for (Stage *s : order)
        s->stop();
    for (Stage *s : order)
        s->destroy();
    shared.reset();
    CHECK("pipe-container", box.att.empty(), "%zu statistics are left in the container", box.att.size());
}

// services that system events start and stop
struct Managed : kpsr::ManagedService
{
    std::vector<int> log;
    size_t from = 0; // of the events delivered before it was there
    Managed(kpsr::Subscriber<kpsr::SystemEventData> *s, const std::string &name) : ManagedService(nullptr, s, name) {}
    void did(int what)
    {
        if (ksim::chance(1, 4)) ksim::advance(ksim::choose(3) * 5000);
        ksim::NoPreempt np;
        log.push_back(what);
    }
    void start() override { did(kpsr::SystemEventData::Start); }
    void stop() override { did(kpsr::SystemEventData::Stop); }
    void execute() override { ksim::fail("service-run", "a system event ran a service"); }
};
void managed()
{
    std_faults();
    int kind = ksim::choose(KINDS), heads = kind == EMITTER ? 1 : ksim::range(1, 3), per = sized(large_run(), 1, 6, 60), nserv = ksim::range(1, 3);
    int pool = ksim::choose(3);
    pooled(pool);
    ksim::describe("%s, %d services, sources=%d x%d", KIND[kind], nserv, heads, per);
    std::shared_ptr<Loop> shared = std::make_shared<Loop>(nullptr, "shared");
    std::vector<std::unique_ptr<Managed>> services;
    std::vector<int> got, expected;
    Node<kpsr::SystemEventData> n;
    n.make(kind, 0, nullptr, shared, true, pool);
    bool first = ksim::choose(2);
    auto tap = [&](const kpsr::SystemEventData &e) {
        ksim::NoPreempt np;
        got.push_back(e);
        if (e == kpsr::SystemEventData::Start || e == kpsr::SystemEventData::Stop) expected.push_back(e);
    };
    if (first) n.sub->registerListener("tap", tap);
    auto name = [](int i) { return "service " + std::to_string(i); };
    for (int i = 0; i < nserv; i++)
        services.emplace_back(new Managed(n.sub, name(i)));
    Managed deaf(nullptr, "service without a subscriber");
    if (!first) n.sub->registerListener("tap", tap);
    n.start();
    std::map<int, std::vector<int>> sent;
    auto total = [&] {
        ksim::NoPreempt np;
        return (int64_t) got.size() + n.discarded();
    };
    auto check = [&](Managed &s) {
        CHECK("service-events", s.log.size() == expected.size() - s.from && std::equal(s.log.begin(), s.log.end(), expected.begin() + s.from),
              "%zu start and stop events were delivered, the service was started or stopped %zu times or in another order", expected.size() - s.from,
              s.log.size());
    };
    const int rounds = ksim::chance(1, 2) ? ksim::range(2, 3) : 1;
    ksim::enable(ksim::F_BADALLOC, 300);
    for (int r = 1; r <= rounds; r++) {
        {
            Threads t;
            for (int h = 0; h < heads; h++)
                t.go([&, h] {
                    for (int k = 0; k < per; k++) {
                        kpsr::SystemEventData e = (kpsr::SystemEventData) ksim::choose(3);
                        if (ksim::choose(2))
                            n.pub->publish(e);
                        else
                            n.pub->publish(std::make_shared<const kpsr::SystemEventData>(e));
                        ksim::NoPreempt np;
                        sent[h].push_back(e);
                    }
                });
            t.join();
        }
        if (r == rounds) ksim::quiet();
        const int64_t want = heads * per * r;
        while (total() < want) ksim::advance(50000);
        ksim::advance(300000);
        CHECK("pipe-conservation", total() == want, "%lld system events published, %zu delivered, %lld discarded", (long long) want, got.size(),
              (long long) n.discarded());
        n.stop();
        for (auto &s : services)
            if (s) check(*s);
        if (r == rounds) break;
        for (int i = 0; i < nserv; i++) { // while nothing is delivered services come and go
            if (services[i] ? ksim::chance(1, 2) : ksim::chance(1, 3)) continue;
            destroying([&] { services[i].reset(); });
            if (ksim::chance(1, 3)) continue;
            ksim::alloc_faults(true);
            try {
                services[i].reset(new Managed(n.sub, name(i)));
            } catch (std::bad_alloc &) {
                ksim::probe("no-service");
            }
            ksim::alloc_faults(false);
            if (services[i]) services[i]->from = expected.size();
        }
        n.start();
    }
    if (heads == 1 && !n.discarded()) CHECK("service-order", got == sent[0], "system events were delivered in another order");
    CHECK("service-events", deaf.log.empty(), "a service without a subscriber was started or stopped");
    if (ksim::chance(1, 2)) services.clear();
    n.destroy();
    shared.reset();
}
} // namespace
KSIM_SCENARIO(pipeline, 70) { pipeline(); }
KSIM_SCENARIO(managed, 30) { managed(); }
