// C24: start, stop, registration and destruction of ZMQ pollers at any moment.
#include "zmq_common.h"
using namespace zt;

namespace {
constexpr int NT = 2;
template<class C>
struct World
{
    typedef typename C::T T;
    typedef kpsr::zmq_mdlw::FromZmqChannel<typename C::U> Channel;
    zmq::context_t ctx;
    zmq::socket_t pub{ctx, ZMQ_PUB}, sub{ctx, ZMQ_SUB};
    std::unique_ptr<kpsr::zmq_mdlw::ToZMQMiddlewareProvider> to;
    kpsr::Publisher<T> *out[NT];
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<T>> prov[NT];
    std::atomic<int> running{0};      // 0: nobody may deliver, 1: may
    std::atomic<int> registered[NT];  // 0: unregistered for sure
    std::atomic<long> got[NT];
    std::atomic<long> newest[NT];
    int64_t callback_ns = 0;
    long period;
    std::unique_ptr<Channel> ch;
    bool started = false; // start() returned or threw and stop() has not been called since
    int64_t seq = 0;

    World()
    {
        for (int t = 0; t < NT; t++) {
            registered[t] = 0;
            got[t] = 0;
            newest[t] = 0;
        }
        pub.bind("tcp://*:5000");
        sub.setsockopt(ZMQ_SUBSCRIBE, "", 0);
        sub.connect("tcp://localhost:5000");
        to.reset(new kpsr::zmq_mdlw::ToZMQMiddlewareProvider(nullptr, pub));
        for (int t = 0; t < NT; t++) {
            out[t] = C::to(*to, topic_name(t), 1);
            prov[t].reset(new kpsr::EventEmitterMiddlewareProvider<T>(nullptr, topic_name(t), 0, nullptr, nullptr));
            prov[t]->getSubscriber()->registerListener("l", [this, t](const T &m) {
                CHECK("zmq-decode", m.ok(), "broken message");
                CHECK("zmq-topic", m.src == t, "topic %d: a message of topic %d", t, (int) m.src);
                CHECK("zmq-after-stop", running, "a listener ran although the poller is stopped");
                CHECK("zmq-after-unregister", registered[t], "topic %d: a listener ran after its topic was unregistered", t);
                if (ksim::fault(ksim::F_SLOWCALLBACK, 1, 3)) ksim::advance(1 + ksim::fault_val(ksim::F_SLOWCALLBACK, 20000000));
                CHECK("zmq-after-stop", running, "stop returned while a listener was running");
                CHECK("zmq-after-unregister", registered[t], "topic %d: unregister returned while its listener was running", t);
                newest[t] = m.seq;
                got[t]++;
                if (ksim::fault(ksim::F_LISTENERTHROW, 1, 4)) throw std::runtime_error("listener");
            });
        }
    }
    void create()
    {
        ch = C::from(sub, period);
        started = false;
    }
    void reg(int t)
    {
        registered[t] = 1;
        ch->registerToTopic(topic_name(t), prov[t]->getPublisher());
    }
    void unreg(int t)
    {
        ch->unregisterFromTopic(topic_name(t));
        registered[t] = 0;
    }
    bool start()
    {
        sub.allow();
        running = 1;
        try {
            ch->start();
            started = true;
            return true;
        } catch (const std::system_error &) {
            if (!started) { // no thread could be created
                running = 0;
                ksim::probe("thread creation failed in start");
            }
        } catch (const std::runtime_error &) {
            started = true; // too slow: the thread may still come
            ksim::probe("start gave up waiting for its thread");
        }
        return false;
    }
    void stop()
    {
        ch->stop();
        running = 0;
        started = false;
        sub.forbid();
    }
    void destroy(bool timed = false)
    {
        if (timed) ch.reset();
        else destroying([&] { ch.reset(); });
        running = 0;
        for (int t = 0; t < NT; t++)
            registered[t] = 0;
        started = false;
        sub.forbid();
    }
    int64_t publish(int t)
    {
        T m;
        int64_t s;
        {
            ksim::NoPreempt n;
            s = ++seq;
        }
        m.fill(t, s);
        out[t]->publish(m);
        return s;
    }
};

template<class C>
void run()
{
    std_faults();
    ksim::enable(ksim::F_EINTR, 300);
    ksim::enable(ksim::F_NETDELAY, 400);
    ksim::enable(ksim::F_LISTENERTHROW, 200);
    ksim::enable(ksim::F_SLOWCALLBACK, 300);
    ksim::set_budget(600000, 3000000);
    World<C> w;
    w.period = ksim::range(0, 3) * 7 + 2;
    const bool second = ksim::chance(1, 2); // registrations come from a thread of their own
    const bool large = large_run();
    const int nops = sized(large, 2, 8, 40), npub = sized(large, 0, 10, 60);
    ksim::describe("codec=%s period=%ld ops=%d messages=%d registrar=%d", C::name(), w.period, nops, npub, second);
    w.create();
    Threads th;
    if (npub)
        th.go([&] {
            for (int k = 0; k < npub; k++) {
                w.publish(ksim::choose(NT));
                if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 40) * 1000000ll);
            }
        });
    if (second)
        th.go([&] {
            for (int k = ksim::range(1, 5); k > 0; k--) {
                int t = ksim::choose(NT);
                w.registered[t] ? w.unreg(t) : w.reg(t);
                if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 20) * 1000000ll);
            }
        });
    ksim::enable(ksim::F_THREADFAIL, 250);
    for (int k = 0; k < nops; k++) {
        if (ksim::chance(1, 3)) ksim::hold_cancel();
        switch (ksim::choose(second ? 3 : 6)) {
        case 0: w.start(); break;
        case 1: w.stop(); break;
        case 2: ksim::advance(ksim::range(1, 60) * 500000ll); break;
        case 3:
        case 4: {
            int t = ksim::choose(NT);
            w.registered[t] ? w.unreg(t) : w.reg(t);
            break;
        }
        default:
            w.destroy();
            w.create();
        }
    }
    if (second && ksim::chance(1, 2)) { // destruction needs exclusive use of the channel
        th.join();
        w.destroy();
        w.create();
    }
    if (ksim::chance(1, 3)) { // straight to the end of its life
        th.join();
        ksim::quiet();
        w.destroy();
        return;
    }
    th.join();
    ksim::quiet();
    if (!w.started) CHECK("zmq-start", w.start(), "the poller did not start although all faults have stopped");
    w.start(); // no effect on a started poller
    for (int t = 0; t < NT; t++)
        if (!w.registered[t]) w.reg(t);
    long s[NT];
    for (int t = 0; t < NT; t++)
        s[t] = w.publish(t);
    for (int tries = 0;; tries++) {
        bool done;
        {
            ksim::NoPreempt n;
            done = w.newest[0] == s[0] && w.newest[1] == s[1];
        }
        if (done) break;
        CHECK("zmq-dead", tries < 300, "a started poller with registered topics delivers nothing");
        ksim::advance(5000000);
    }
    int64_t t0 = ksim::now_ns();
    bool how = ksim::chance(1, 2);
    how ? w.stop() : w.destroy(true);
    int64_t dt = ksim::now_ns() - t0;
    CHECK("zmq-slow-stop", dt <= w.period * 1000000 + 20000000, "%s took %lld us with a poll period of %ld ms", how ? "stop" : "destruction", (long long) dt / 1000, w.period);
    if (how) {
        w.stop(); // no effect on a stopped poller
        for (int t = 0; t < NT; t++)
            w.publish(t);
        ksim::advance(50000000);
    }
    w.destroy();
}
} // namespace
KSIM_SCENARIO(json, 20) { run<Json>(); }
KSIM_SCENARIO(binary, 40) { run<Bin>(); }
KSIM_SCENARIO(void_caster, 40) { run<Void>(); }
