// C20: request/reply handlers against a simulated replier that loses, duplicates, reorders and delays replies,
// answers inside the publication, and callbacks that issue further requests.
#include "mem_common.h"
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/event_emitter_subscriber.h>

namespace {
struct Req
{
    int64_t id = 0, handler = 0;
    std::string text;
    Ev ev;
};
struct Rep
{
    int64_t id = 0, handler = 0, serial = 0;
    std::string text;
};
std::string text_of(int64_t h, int64_t id) { return "request " + std::to_string(h) + "/" + std::to_string(id) + " with a text beyond the small buffer"; }

// what became of one request
struct Pending
{
    int64_t handler, id;
    int replies_after = 0;  // replies handed over completely after the request was issued
    int calls = 0;
    bool failed = false;    // its publication threw
    uint64_t begin = 0, end = UINT64_MAX; // of requestAndReply
    uint64_t first_reply_begin = UINT64_MAX;
    int behaviour = 0;
    std::shared_ptr<int> guard;
};

// Publishes synchronously to a function.
struct FnPublisher : kpsr::Publisher<Req>
{
    std::function<void(const Req &)> f;
    FnPublisher() : kpsr::Publisher<Req>(nullptr, "requests", "TEST") {}
    void processAndPublish(std::function<void(Req &)> p) override
    {
        Req r;
        p(r);
        publish(r);
    }
    void internalPublish(const Req &r) override { f(r); }
    void internalPublish(std::shared_ptr<const Req> r) override { f(*r); }
};

typedef kpsr::CallbackHandler<Req, Rep> Base;
typedef kpsr::MultiThreadCallbackHandler<Req, Rep> Multi;

struct World
{
    std::vector<std::unique_ptr<Base>> hs;
    std::deque<Pending> reqs;
    std::vector<int64_t> next_id = std::vector<int64_t>(4, 0);
    int64_t serial = 0;
    int budget = 12;
    bool same_ids = false;
    bool nested = true;
    bool throwing = false, low = false;
    // The request is matched by the handler's number and its id.
    static bool match(const Req &q, const Rep &r)
    {
        q.ev.check("pending request");
        CHECK("request-intact", q.text == text_of(q.handler, q.id), "a pending request changed its content");
        return q.handler == r.handler && q.id == r.id;
    }
    int new_request(int h)
    {
        ksim::NoPreempt np;
        int k = (int) reqs.size();
        reqs.emplace_back();
        Pending &p = reqs.back();
        p.handler = h;
        p.id = same_ids ? 1 + ksim::choose(2) : ++next_id[h];
        p.behaviour = nested ? ksim::choose(6) : 0;
        p.guard = std::make_shared<int>(k);
        p.begin = ksim::step();
        return k;
    }
    void issue(int h, int k)
    {
        int64_t id = reqs[k].id;
        Req q;
        q.id = id;
        q.handler = h;
        q.text = text_of(h, id);
        q.ev.fill(h + 1, id + 1);
        std::weak_ptr<int> g = reqs[k].guard;
        std::string own = "state owned by the callback of request " + std::to_string(k);
        std::string copy = own;
        bool failed = false;
        std::function<void(const Rep &)> cb = [this, k, g, own](const Rep &r) { called(k, g, r, own); };
        bool was = ksim::alloc_faults(low);
        try {
            hs[h]->requestAndReply(q, cb);
        } catch (std::bad_alloc &) {
            failed = true;
            ksim::probe("no-memory");
        } catch (std::runtime_error &) {
            failed = true;
            ksim::probe("publication-failed");
        }
        ksim::alloc_faults(was);
        ksim::NoPreempt np;
        reqs[k].failed = failed;
        reqs[k].end = ksim::step();
    }
    void request(int h) { issue(h, new_request(h)); }
    void called(int k, const std::weak_ptr<int> &, const Rep &r, const std::string &own)
    {
        int behaviour;
        int h;
        {
            ksim::NoPreempt np;
            Pending &p = reqs[k];
            CHECK("reply-mixup", p.handler == r.handler && p.id == r.id,
                  "the callback of request %lld/%lld got the reply to %lld/%lld", (long long) p.handler, (long long) p.id,
                  (long long) r.handler, (long long) r.id);
            CHECK("reply-content", r.text == text_of(r.handler, r.id), "the reply's content is not what was sent");
            p.calls++;
            CHECK("reply-twice", p.calls == 1, "the callback of request %lld/%lld was called twice", (long long) p.handler,
                  (long long) p.id);
            behaviour = p.behaviour;
            h = (int) p.handler;
        }
        if (behaviour == 5) ksim::advance(20000);
        if (behaviour >= 2 && behaviour <= 4) {
            int n = behaviour == 4 ? 3 : 1;
            for (int i = 0; i < n; i++) {
                {
                    ksim::NoPreempt np;
                    if (budget <= 0) break;
                    budget--;
                    ksim::probe("request-in-callback");
                }
                request(h);
            }
        }
        // the callback must live as long as it runs
        CHECK("callback-alive", own == "state owned by the callback of request " + std::to_string(k),
              "a callback was destroyed while it was running");
        if (throwing && ksim::fault(ksim::F_LISTENERTHROW, 1, 4)) throw std::runtime_error("callback");
    }
    Rep make(int64_t h, int64_t id)
    {
        ksim::NoPreempt np;
        Rep r;
        r.handler = h;
        r.id = id;
        r.serial = ++serial;
        r.text = text_of(h, id);
        return r;
    }
};

// ---- one thread, exact model ------------------------------------------------
template<class H>
void single()
{
    ksim::enable(ksim::F_MSGLOSS, 500);
    ksim::enable(ksim::F_MSGDUP, 500);
    ksim::enable(ksim::F_NETDELAY, 600);
    ksim::enable(ksim::F_MEMREUSE, 300);
    FnPublisher pub;
    std::shared_ptr<kpsr::EventEmitterInterface<std::shared_ptr<const Rep>>> em =
        std::make_shared<kpsr::SafeEventEmitter<std::shared_ptr<const Rep>>>();
    kpsr::EventEmitterSubscriber<Rep> sub(nullptr, em, "replies");
    World w; // its handlers go first
    w.same_ids = ksim::chance(1, 3);
    int nh = ksim::range(1, 2);
    std::vector<std::pair<int64_t, int64_t>> wire; // replies under way
    std::vector<std::deque<int>> model(4);         // pending request numbers in order, per handler
    bool refuse = false;
    auto deliver = [&](int64_t h, int64_t id) {
        Rep r = w.make(h, id);
        // the model's choice: the oldest pending request with that id
        int expect = -1;
        if (h < nh)
            for (size_t i = 0; i < model[h].size(); i++)
                if (w.reqs[model[h][i]].id == id) {
                    expect = model[h][i];
                    model[h].erase(model[h].begin() + i);
                    break;
                }
        int64_t before = 0, after = 0;
        for (auto &p : w.reqs) before += p.calls;
        size_t n = w.reqs.size();
        em->emitEvent("replies", 0, std::make_shared<const Rep>(r));
        if (expect >= 0)
            CHECK("reply-lost", w.reqs[expect].calls == 1,
                  "the reply to request %lld/%lld did not reach its callback", (long long) h, (long long) id);
        else if (n == w.reqs.size()) {
            for (auto &p : w.reqs) after += p.calls;
            CHECK("reply-stray", before == after, "a reply without a pending request reached a callback");
            ksim::probe("reply-without-request");
        }
    };
    int depth = 0;
    if (ksim::chance(1, 3)) { // a request that cannot be noted is not published, and nothing waits for its reply
        w.low = true;
        ksim::enable(ksim::F_BADALLOC, 1500);
    }
    pub.f = [&](const Req &q) {
        ksim::AllocPause ap;
        // find which request this is: the newest of the handler with that id that is not in the model yet
        for (int k = (int) w.reqs.size() - 1; k >= 0; k--)
            if (w.reqs[k].handler == q.handler && w.reqs[k].id == q.id) {
                model[q.handler].push_back(k);
                break;
            }
        if (refuse && ksim::chance(1, 6)) return;
        if (ksim::fault(ksim::F_MSGLOSS, 1, 4)) return;
        int n = ksim::fault(ksim::F_MSGDUP, 1, 4) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            if (!ksim::fault(ksim::F_NETDELAY, 1, 2) && depth < 6) {
                depth++;
                ksim::probe("reply-in-publish");
                int64_t h = q.handler, id = q.id;
                deliver(h, id);
                depth--;
            } else
                wire.push_back({q.handler, q.id});
        }
    };
    for (int h = 0; h < nh; h++) w.hs.emplace_back(new H("handler" + std::to_string(h), &pub, &sub, World::match));
    bool large = large_run(40);
    int n = sized(large, 1, 10, 250), flood = large ? ksim::choose(n) : 0; // that many requests before anything else
    ksim::describe("single %s handlers=%d ops=%d", typeid(H) == typeid(Base) ? "plain" : "multithread", nh, n);
    for (int i = 0; i < n; i++) {
        switch (i < flood ? 0 : ksim::choose(4)) {
        case 0:
        case 1: w.request(ksim::choose(nh)); break;
        case 2:
            if (!wire.empty()) {
                size_t j = ksim::choose((int) wire.size());
                auto x = wire[j];
                wire.erase(wire.begin() + j);
                deliver(x.first, x.second);
            }
            break;
        default: deliver(ksim::choose(nh + 1), ksim::choose(4)); // a reply nobody may have asked for
        }
    }
    while (!wire.empty()) {
        auto x = wire.back();
        wire.pop_back();
        deliver(x.first, x.second);
    }
    for (int h = 0; h < nh; h++)
        for (int k : model[h]) CHECK("reply-stray", w.reqs[k].calls == 0, "a callback ran although its reply was lost");
    // after its destruction a handler gets nothing
    ksim::quiet();
    destroying([&] { w.hs.erase(w.hs.begin()); });
    int64_t before = 0, after = 0;
    for (auto &p : w.reqs) before += p.handler == 0 ? p.calls : 0;
    int b = w.budget;
    w.budget = 0;
    if (!model[0].empty()) {
        int64_t id = w.reqs[model[0].front()].id;
        em->emitEvent("replies", 0, std::make_shared<const Rep>(w.make(0, id)));
    }
    w.budget = b;
    for (auto &p : w.reqs) after += p.handler == 0 ? p.calls : 0;
    CHECK("reply-after-destroy", before == after, "a destroyed handler called a callback");
}
KSIM_SCENARIO(single_plain, 2) { single<Base>(); }
KSIM_SCENARIO(single_multi, 1) { single<Multi>(); }

// ---- threads -----------------------------------------------------------------
// Several threads issue requests; replier threads deliver replies concurrently, some inside the publication.
void threads()
{
    std_faults();
    ksim::enable(ksim::F_MSGLOSS, 300);
    ksim::enable(ksim::F_MSGDUP, 400);
    ksim::enable(ksim::F_NETDELAY, 600);
    ksim::enable(ksim::F_LISTENERTHROW, 300);
    FnPublisher pub;
    std::shared_ptr<kpsr::EventEmitterInterface<std::shared_ptr<const Rep>>> em =
        std::make_shared<kpsr::SafeEventEmitter<std::shared_ptr<const Rep>>>();
    kpsr::EventEmitterSubscriber<Rep> sub(nullptr, em, "replies");
    World w; // its handlers go first
    w.same_ids = ksim::chance(1, 4);
    w.throwing = ksim::enabled(ksim::F_LISTENERTHROW);
    std::mutex mu;
    std::condition_variable cv;
    std::deque<std::pair<int64_t, int64_t>> wire;
    bool stop = false;
    std::map<std::pair<int64_t, int64_t>, int> sent; // replies delivered
    auto deliver = [&](int64_t h, int64_t id) {
        Rep r = w.make(h, id);
        {
            ksim::NoPreempt np;
            sent[{h, id}]++;
        }
        em->emitEvent("replies", 0, std::make_shared<const Rep>(r));
    };
    int owner[2] = {-1, -1}, depth[2] = {0, 0};
    auto idx = [&](size_t n) { return (size_t) ksim::choose((int) n); };
    pub.f = [&](const Req &q) {
        // one handler's requests are published one at a time: its publisher need not be made for several threads
        struct Publishing
        {
            int *owner, *depth;
            Publishing(int *o, int *d) : owner(o), depth(d)
            {
                ksim::NoPreempt np;
                CHECK("publish-overlap", *depth == 0 || *owner == ksim::self(), "two threads publish requests of one handler at once");
                *owner = ksim::self();
                ++*depth;
            }
            ~Publishing()
            {
                ksim::NoPreempt np;
                --*depth;
            }
        } publishing(owner + q.handler, depth + q.handler);
        ksim::point();
        if (ksim::fault(ksim::F_LISTENERTHROW, 1, 5)) throw std::runtime_error("publication");
        if (ksim::fault(ksim::F_MSGLOSS, 1, 5)) return;
        int n = ksim::fault(ksim::F_MSGDUP, 1, 3) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            if (!ksim::fault(ksim::F_NETDELAY, 2, 3)) {
                ksim::probe("reply-in-publish");
                deliver(q.handler, q.id);
            } else {
                std::lock_guard<std::mutex> g(mu);
                wire.push_back({q.handler, q.id});
                cv.notify_one();
            }
        }
    };
    int nh = ksim::range(1, 2);
    for (int h = 0; h < nh; h++) w.hs.emplace_back(new Multi("handler" + std::to_string(h), &pub, &sub, World::match));
    int nt = ksim::range(1, 3), nr = ksim::range(1, 2);
    ksim::describe("threads handlers=%d requesters=%d repliers=%d same=%d", nh, nt, nr, (int) w.same_ids);
    std::vector<int> per;
    for (int i = 0; i < nt; i++) per.push_back(ksim::range(1, 3));
    Threads rs, ts;
    for (int i = 0; i < nr; i++)
        rs.go([&] {
            for (;;) {
                std::pair<int64_t, int64_t> x;
                {
                    std::unique_lock<std::mutex> g(mu);
                    cv.wait(g, [&] { return stop || !wire.empty(); });
                    if (wire.empty()) return;
                    size_t j = idx(wire.size());
                    x = wire[j];
                    wire.erase(wire.begin() + j);
                }
                if (ksim::chance(1, 3)) ksim::advance(ksim::choose(4) * 5000);
                try {
                    deliver(x.first, x.second);
                } catch (std::runtime_error &) {
                    ksim::probe("callback-failed");
                }
            }
        });
    for (int i = 0; i < nt; i++)
        ts.go([&, i] {
            for (int j = 0; j < per[i]; j++) w.request(ksim::choose(nh));
        });
    ksim::quiet();
    ts.join();
    {
        std::lock_guard<std::mutex> g(mu);
        stop = true;
        cv.notify_all();
    }
    rs.join();
    while (!wire.empty()) { // replies to requests issued by the last callbacks
        auto x = wire.front();
        wire.pop_front();
        try {
            deliver(x.first, x.second);
        } catch (std::runtime_error &) {
        }
    }
    // conservation: every request's callback ran at most once (checked), and as many as replies allow
    std::map<std::pair<int64_t, int64_t>, int> asked, got;
    for (auto &p : w.reqs) {
        // (no request may be pending after its publication failed before any reply was sent; either is allowed)
        asked[{p.handler, p.id}]++;
        got[{p.handler, p.id}] += p.calls;
    }
    for (auto &a : asked) {
        int s = sent[a.first];
        CHECK("reply-stray", got[a.first] <= s, "%d callbacks for %d replies", got[a.first], s);
        // each reply was delivered after at least one request with its id was registered; with unique ids it is exact
        if (!w.same_ids)
            CHECK("reply-lost", got[a.first] == std::min(1, s), "%d replies to request %lld/%lld reached %d callbacks", s,
                  (long long) a.first.first, (long long) a.first.second, got[a.first]);
        else if (s > 0)
            CHECK("reply-lost", got[a.first] >= 1, "no callback got any of %d replies", s);
    }
}
KSIM_SCENARIO(threads, 4) { threads(); }

// ---- over the in-memory middleware ------------------------------------------
// Bounded request and reply queues, real pollers; the replier answers every request.
KSIM_SCENARIO(middleware, 2)
{
    std_faults();
    int qcap = ksim::range(1, 3), rcap = ksim::range(1, 3), pool = ksim::choose(3);
    pooled(pool);
    kpsr::mem::BasicMiddlewareProvider<Req> reqs(nullptr, "requests", qcap, pool, nullptr, nullptr, false);
    kpsr::mem::BasicMiddlewareProvider<Rep> reps(nullptr, "replies", rcap, pool, nullptr, nullptr, false);
    World w;
    w.nested = false; // a callback that publishes to a full queue from the replies' poller may wait for itself
    int dup = ksim::choose(2);
    std::atomic<int> answered{0};
    reqs.getSubscriber()->registerListener("server", [&](const Req &q) {
        q.ev.check("server");
        if (ksim::chance(1, 3)) ksim::advance(ksim::choose(3) * 4000);
        for (int i = 0; i <= dup; i++) reps.getPublisher()->publish(w.make(q.handler, q.id));
        answered++;
    });
    w.hs.emplace_back(new Multi("handler", reqs.getPublisher(), reps.getSubscriber(), World::match));
    int nt = ksim::range(1, 3);
    std::vector<int> per;
    int total = 0;
    for (int i = 0; i < nt; i++) {
        per.push_back(ksim::range(1, 4));
        total += per.back();
    }
    ksim::describe("middleware queues %d/%d requesters=%d requests=%d dup=%d", qcap, rcap, nt, total, dup);
    try {
        reps.start();
    } catch (std::runtime_error &) { // the poller's thread is slow; it is starting
    }
    try {
        reqs.start();
    } catch (std::runtime_error &) {
    }
    {
        Threads ts;
        for (int i = 0; i < nt; i++)
            ts.go([&, i] {
                for (int j = 0; j < per[i]; j++) w.request(0);
            });
        ksim::quiet();
    }
    for (int64_t d = 10000;; d += d / 4) {
        bool done = true;
        {
            ksim::NoPreempt np;
            for (auto &p : w.reqs) done = done && p.calls;
            done = done && answered == total;
        }
        if (done) break;
        ksim::advance(d);
    }
    reqs.stop();
    reps.stop();
}
} // namespace
