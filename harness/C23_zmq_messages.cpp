// C23: whole messages over ZMQ, decoded as they were encoded.
#include "zmq_common.h"
using namespace zt;

namespace {
constexpr int NT = 3;
struct Rec
{
    int64_t last[4] = {-1, -1, -1, -1}; // per publisher
    int count[4] = {0, 0, 0, 0};
    bool final_seen[4] = {false, false, false, false};
};
template<class C>
struct Sub
{
    typedef typename C::T T;
    zmq::socket_t sock;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<T>> prov[NT];
    Rec rec[NT];
    bool has[NT] = {false, false, false};
    std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<typename C::U>> ch;
    explicit Sub(zmq::context_t &c) : sock(c, ZMQ_SUB) {}
};
constexpr int64_t FINAL = 1000000;

template<class C>
void run()
{
    typedef typename C::T T;
    ksim::enable(ksim::F_SPURIOUS, 300);
    ksim::enable(ksim::F_STALL, 300);
    ksim::enable(ksim::F_CLOCKJUMP, 250);
    ksim::enable(ksim::F_STOREBUF, 400);
    ksim::enable(ksim::F_OVERSLEEP, 300);
    ksim::enable(ksim::F_MEMREUSE, 250);
    ksim::enable(ksim::F_EINTR, 300);
    ksim::enable(ksim::F_MSGLOSS, 500);
    ksim::enable(ksim::F_PARTITION, 250);
    ksim::enable(ksim::F_NETDELAY, 500);
    // cereal's JSON archive terminates the process when an allocation fails while it writes: not this repository's code
    if (!std::is_same<C, Json>::value) ksim::enable(ksim::F_BADALLOC, 250);
    ksim::enable(ksim::F_LISTENERTHROW, 250);
    ksim::set_budget(600000, 3000000);
    const bool loss = ksim::enabled(ksim::F_MSGLOSS) || ksim::enabled(ksim::F_PARTITION) || ksim::enabled(ksim::F_BADALLOC);
    if (ksim::enabled(ksim::F_MSGLOSS) && ksim::chance(1, 3)) zmq::sim::net().hwm = ksim::range(1, 4);

    zmq::context_t ctx(1);
    const int np = ksim::range(1, 2), ns = ksim::range(1, 2), nt = ksim::range(1, NT), nmsg = sized(large_run(), 1, 8, 60);
    const bool bad = ksim::chance(1, 2);
    const long period = ksim::range(1, 20);
    ksim::describe("codec=%s pubs=%d subs=%d topics=%d msgs=%d period=%ld garbage=%d loss=%d", C::name(), np, ns, nt, nmsg, period, bad, loss);
    std::vector<std::unique_ptr<zmq::socket_t>> pubs;
    for (int i = 0; i < np + bad; i++) {
        pubs.emplace_back(new zmq::socket_t(ctx, ZMQ_PUB));
        pubs.back()->bind("tcp://*:" + std::to_string(5000 + i));
    }
    struct PubSide
    {
        std::unique_ptr<kpsr::zmq_mdlw::ToZMQMiddlewareProvider> prov;
        kpsr::Publisher<T> *pub[NT] = {nullptr, nullptr, nullptr};
        int sent[NT] = {0, 0, 0};
        std::vector<int64_t> seqs[NT];
    };
    std::vector<PubSide> ps(np);
    for (int i = 0; i < np; i++) {
        ps[i].prov.reset(new kpsr::zmq_mdlw::ToZMQMiddlewareProvider(nullptr, *pubs[i]));
        for (int t = 0; t < nt; t++)
            ps[i].pub[t] = C::to(*ps[i].prov, topic_name(t), ksim::choose(3));
        CHECK("same-channel", C::to(*ps[i].prov, topic_name(0), 0) == ps[i].pub[0], "asking again for a topic's channel gave another one");
    }
    std::vector<std::unique_ptr<Sub<C>>> subs;
    bool started = true;
    for (int i = 0; i < ns; i++) {
        subs.emplace_back(new Sub<C>(ctx));
        Sub<C> &s = *subs.back();
        const bool all = ksim::chance(1, 2);
        if (all) s.sock.setsockopt(ZMQ_SUBSCRIBE, "", 0);
        for (int t = 0; t < nt; t++) {
            s.has[t] = t == 0 || ksim::chance(3, 4);
            if (!all && s.has[t]) s.sock.setsockopt(ZMQ_SUBSCRIBE, topic_name(t), strlen(topic_name(t)));
        }
        for (int k = 0; k < np + bad; k++)
            s.sock.connect("tcp://localhost:" + std::to_string(5000 + k));
        s.ch = C::from(s.sock, period);
        for (int t = 0; t < nt; t++) {
            if (!s.has[t]) continue;
            s.prov[t].reset(new kpsr::EventEmitterMiddlewareProvider<T>(nullptr, topic_name(t), ksim::choose(3), nullptr, nullptr));
            Rec *r = &s.rec[t];
            s.prov[t]->getSubscriber()->registerListener("l", [r, t, &ps, np](const T &m) {
                CHECK("zmq-decode", m.ok() && m.src / 8 < np, "topic %d: decoded an object nobody published (src %lld seq %lld)", t, (long long) m.src, (long long) m.seq);
                int p = (int) (m.src / 8);
                CHECK("zmq-topic", m.src % 8 == t, "an object published under topic %d arrived under topic %d", (int) (m.src % 8), t);
                CHECK("zmq-order", m.seq > r->last[p], "topic %d of publisher %d: message %lld after %lld", t, p, (long long) m.seq, (long long) r->last[p]);
                r->last[p] = m.seq;
                if (m.seq >= FINAL)
                    r->final_seen[p] = true;
                else
                    r->count[p]++;
                if (m.seq < FINAL && ksim::fault(ksim::F_LISTENERTHROW, 1, 4)) throw std::runtime_error("listener");
            });
            s.ch->registerToTopic(topic_name(t), s.prov[t]->getPublisher());
        }
        try {
            s.ch->start();
        } catch (const std::runtime_error &) {
            started = false; // its thread is slow: see C24
        }
    }
    if (started) {
        Threads th;
        for (int i = 0; i < np; i++)
            th.go([&, i] {
                for (int k = 0; k < nmsg; k++) {
                    int t = ksim::choose(nt);
                    T m;
                    int64_t seq = k + 1;
                    m.fill(i * 8 + t, seq);
                    std::shared_ptr<T> shared = std::make_shared<T>(m);
                    int how = ksim::choose(3);
                    bool sent = true;
                    ksim::alloc_faults(true);
                    try {
                        if (how == 0)
                            ps[i].pub[t]->publish(m);
                        else if (how == 1)
                            ps[i].pub[t]->processAndPublish([&](T &e) {
                                CHECK("zmq-fresh", e.src == -1 && e.seq == -1, "the process function got the event %lld/%lld to fill", (long long) e.src, (long long) e.seq);
                                e = m;
                            });
                        else
                            ps[i].pub[t]->publish(shared);
                    } catch (const std::bad_alloc &) {
                        sent = false;
                    }
                    ksim::alloc_faults(false);
                    if (sent) ps[i].sent[t]++;
                    if (ksim::chance(1, 3)) ksim::advance(ksim::range(1, 30) * 1000000ll);
                }
            });
        if (bad)
            th.go([&] {
                zmq::socket_t &s = *pubs[np];
                for (int k = ksim::range(1, 5); k > 0; k--) {
                    std::string t = topic_name(ksim::choose(nt));
                    T foreign; // encoded as it should be, but not in a message of two parts
                    foreign.fill(np * 8 + ksim::choose(nt), 77);
                    switch (ksim::choose(8)) {
                    case 5: send_raw(s, {t, C::enc(foreign), "and more"}); break;
                    case 6: send_raw(s, {t, garbage(), topic_name(ksim::choose(nt)), C::enc(foreign)}); break;
                    case 7: send_raw(s, {t, garbage(), garbage(), t, C::enc(foreign)}); break;
                    case 0: send_raw(s, {t}); break;
                    case 1: send_raw(s, {t, ksim::chance(1, 3) ? garbage() : C::cut(C::enc(foreign))}); break;
                    case 2: send_raw(s, {t, garbage(), topic_name(ksim::choose(nt))}); break;
                    case 3: send_raw(s, {t, garbage(), garbage(), topic_name(0)}); break;
                    default: send_raw(s, {t + "-not a registered one", garbage()});
                    }
                    if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 30) * 1000000ll);
                }
            });
        th.join();
        ksim::quiet();
        zmq::sim::net().lossless = true;
        for (int i = 0; i < np; i++)
            for (int t = 0; t < nt; t++) {
                T m;
                m.fill(i * 8 + t, FINAL + t);
                ps[i].pub[t]->publish(m);
            }
        // delays of messages already on their way are at most half a second
        for (int tries = 0;; tries++) {
            bool done = true;
            for (auto &s : subs)
                for (int t = 0; t < nt; t++)
                    for (int i = 0; i < np; i++) {
                        ksim::NoPreempt n;
                        if (s->has[t] && !s->rec[t].final_seen[i]) done = false;
                    }
            if (done) break;
            CHECK("zmq-lost", tries < 400, "a message sent after all faults stopped was not delivered within two simulated seconds");
            ksim::advance(5000000);
        }
        if (!loss)
            for (auto &s : subs)
                for (int t = 0; t < nt; t++)
                    for (int i = 0; i < np; i++) {
                        ksim::NoPreempt n;
                        if (s->has[t])
                            CHECK("zmq-lost", s->rec[t].count[i] == ps[i].sent[t], "topic %d of publisher %d: %d of %d messages delivered although none was lost on the way", t, i, s->rec[t].count[i], ps[i].sent[t]);
                    }
        auto &st = zmq::sim::net();
        if (st.lost) ksim::probe("message lost between publisher and subscriber");
        if (st.interrupted) ksim::probe("poll interrupted by a signal");
    }
    ksim::quiet();
    for (auto &s : subs)
        s->ch->stop();
    for (auto &s : subs)
        for (int t = 0; t < nt; t++)
            if (s->has[t]) s->ch->unregisterFromTopic(topic_name(t));
    subs.clear();
    ps.clear();
}
} // namespace
KSIM_SCENARIO(json, 34) { run<Json>(); }
KSIM_SCENARIO(binary, 34) { run<Bin>(); }
KSIM_SCENARIO(void_caster, 32) { run<Void>(); }
