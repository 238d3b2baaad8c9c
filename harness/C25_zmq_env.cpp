// C25: configuration shared by ZMQ environments.
#include "zmq_common.h"
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/zmq_core/zmq_env.h>

namespace {
const char *TOPIC = "env_data";
const int NK = 3; // keys: 0 int, 1 string, 2 float
const char *KEYS[] = {"iteration", "a key that is longer than any small string buffer", "ratio"};
std::string str(int v) { return v % 2 ? "v" + std::to_string(v) : std::to_string(v) + " a value longer than any small string buffer \"{}\""; }

std::string initial(const char *zkey, int period, int base, const std::string &root)
{
    const std::string r = root.empty() ? "" : root + "/";
    return "{\"StringProperties\": {\"" + r + KEYS[1] + "\": \"v" + std::to_string(base) + "\", \"" + r + "kpsr_zmq_env_key\": \"" + zkey
           + "\", \"" + r + "kpsr_zmq_env_topic_name\": \"" + TOPIC + "\"}, \"FloatProperties\": {\"" + r + "ratio\": " + std::to_string(base)
           + ".5}, \"IntProperties\": {\"" + r + "iteration\": " + std::to_string(base) + ", \"" + r + "kpsr_zmq_env_poll_period\": " + std::to_string(period)
           + "}, \"BoolProperties\": {\"" + r + "flag\": false}}";
}
struct Node
{
    zmq::socket_t pub, sub;
    std::unique_ptr<kpsr::ConfigurationEnvironment> conf;
    std::unique_ptr<kpsr::zmq_mdlw::ZMQEnv> env;
    std::string root;
    Node(zmq::context_t &c) : pub(c, ZMQ_PUB), sub(c, ZMQ_SUB) {}
    void flag(bool v) { env->setPropertyBool("flag", v, root); }
    bool flag()
    {
        bool v = false;
        CHECK("env-absent", env->getPropertyBool("flag", v, false, root), "a property every configuration contains was reported absent");
        return v;
    }
    // the content of file n, or -1 when it is not there
    int file(int n)
    {
        int v = -1;
        if (!env->getPropertyInt("loaded", v, -1, "file" + std::to_string(n))) return -1;
        return v;
    }
    bool load(int n)
    {
        const std::string text = "{\"IntProperties\": {\"loaded\": " + std::to_string(n * 7) + "}}";
        return env->loadFile(ksim::disk::put(text.data(), text.size()), "file" + std::to_string(n));
    }
    // a property that no configuration contains, set for the first time: n picks its value, which may be what absent ones read as
    void fresh(int n)
    {
        const std::string key = "fresh" + std::to_string(n);
        switch (n % 4) {
        case 0: env->setPropertyInt(key, n / 4 % 2, root); break;
        case 1: env->setPropertyString(key, n / 4 % 2 ? "x" : "", root); break;
        case 2: env->setPropertyFloat(key, (float) (n / 4 % 2), root); break;
        default: env->setPropertyBool(key, n / 4 % 2, root);
        }
    }
    // its value, or -1 when it is absent
    int fresh_value(int n)
    {
        const std::string key = "fresh" + std::to_string(n);
        int i = 7;
        float f = 7;
        bool b = false;
        std::string s = "default";
        switch (n % 4) {
        case 0: return env->getPropertyInt(key, i, 7, root) ? i : -1;
        case 1: return env->getPropertyString(key, s, "default", root) ? !s.empty() : -1;
        case 2: return env->getPropertyFloat(key, f, 7, root) ? (int) f : -1;
        default: return env->getPropertyBool(key, b, false, root) ? b : -1;
        }
    }
    void set(int k, int v)
    {
        if (k == 0)
            env->setPropertyInt(KEYS[0], v, root);
        else if (k == 1)
            env->setPropertyString(KEYS[1], str(v), root);
        else
            env->setPropertyFloat(KEYS[2], v + 0.5f, root);
    }
    // the version a read returned
    int get(int k, const int &maxv, const char *who)
    {
        if (k == 0) {
            int v = -777;
            CHECK("env-absent", env->getPropertyInt(KEYS[0], v, -999, root), "%s: a property every configuration contains was reported absent", who);
            return v;
        }
        if (k == 1) {
            std::string s;
            CHECK("env-absent", env->getPropertyString(KEYS[1], s, "default", root), "%s: a property every configuration contains was reported absent", who);
            for (int v = 1; v <= maxv; v++)
                if (s == str(v)) return v;
            CHECK("env-torn", false, "%s: a string nobody wrote: '%s'", who, s.c_str());
        }
        float f = -777;
        CHECK("env-absent", env->getPropertyFloat(KEYS[2], f, -999.0f, root), "%s: a property every configuration contains was reported absent", who);
        int v = (int) (f - 0.5f);
        CHECK("env-torn", (float) v + 0.5f == f, "%s: a float nobody wrote: %f", who, (double) f);
        return v;
    }
};
struct World
{
    zmq::context_t ctx;
    std::vector<std::unique_ptr<Node>> nodes;
    std::unique_ptr<Node> stranger; // same topic, another key
    std::unique_ptr<zmq::socket_t> raw;
    std::atomic<int> next{1};
    int maxv = 1;
    int period, nfile = 0;
    std::string root;
    std::set<int> freshly; // the new properties that were set
    std::map<int, int> loaded; // files node 0 has taken (+1) or refused (-1)

    std::unique_ptr<Node> make(const char *zkey, int base, int id, int total)
    {
        std::unique_ptr<Node> n(new Node(ctx));
        n->root = root;
        n->pub.bind("tcp://*:" + std::to_string(6000 + id));
        n->sub.setsockopt(ZMQ_SUBSCRIBE, TOPIC, strlen(TOPIC));
        for (int k = 0; k < total; k++)
            n->sub.connect("tcp://localhost:" + std::to_string(6000 + k));
        if (ksim::chance(1, 4)) { // a short life before
            kpsr::zmq_mdlw::ZMQEnv brief("", zkey, TOPIC, period, n->pub, n->sub);
            if (ksim::chance(1, 2)) ksim::advance(ksim::choose(3) * 1000000ll);
        }
        if (ksim::chance(1, 3)) { // from a file, whose keys go under the root node
            const std::string text = initial(zkey, period, base, "");
            ksim::quiet(); // (what a failing disk does is C29's)
            n->env.reset(new kpsr::zmq_mdlw::ZMQEnv(ksim::disk::put(text.data(), text.size()), zkey, TOPIC, period, n->pub, n->sub, root));
            ksim::unquiet();
        } else if (ksim::chance(1, 2)) {
            n->conf.reset(new kpsr::ConfigurationEnvironment());
            CHECK("env-import", n->conf->updateConfiguration(initial(zkey, period, base, root)), "the initial configuration was refused");
            n->env.reset(new kpsr::zmq_mdlw::ZMQEnv(n->conf.get(), n->pub, n->sub, root));
        } else {
            n->env.reset(new kpsr::zmq_mdlw::ZMQEnv("", zkey, TOPIC, period, n->pub, n->sub));
            CHECK("env-import", n->env->updateConfiguration(initial(zkey, period, base, root)), "the initial configuration was refused");
        }
        if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 5) * 400000ll);
        return n;
    }
    World(int ne, bool with_stranger, bool bad)
    {
        ksim::describe("%s%s", with_stranger ? "other-key " : "", bad ? "garbage" : "");
        period = ksim::range(1, 20);
        if (ksim::chance(1, 3)) root = "a node";
        int total = ne + with_stranger + bad;
        for (int i = 0; i < ne; i++)
            nodes.push_back(make("test", 1, i, total));
        if (with_stranger) {
            static const char *other[] = {"other", "test2", "tes", "fest", "Test", "test "};
            stranger = make(other[ksim::choose(6)], 500000, ne, total);
        }
        if (bad) {
            raw.reset(new zmq::socket_t(ctx, ZMQ_PUB));
            raw->bind("tcp://*:" + std::to_string(6000 + total - 1));
        }
    }
    int version()
    {
        ksim::NoPreempt n;
        int v = ++next;
        if (v > maxv) maxv = v;
        return v;
    }
    void garbage()
    {
        std::string t = TOPIC;
        switch (ksim::choose(8)) {
        case 0: zt::send_raw(*raw, {t}); break;
        case 1: zt::send_raw(*raw, {t, zt::garbage()}); break;
        case 2: zt::send_raw(*raw, {t + "_of_others", zt::garbage()}); break;
        case 3: zt::send_raw(*raw, {t, zt::garbage(), t}); break;
        default: {
            // not applicable, or not in a message of two parts
            const int how = ksim::choose(4);
            kpsr::zmq_mdlw::ZMQEnvironmentData d("test", how == 0 ? "{\"IntProperties\": {\"iteration\"" : initial("test", period, 900000, root), 4242);
            std::string s;
            kpsr::Mapper<kpsr::zmq_mdlw::ZMQEnvironmentData, std::string> m;
            m.toMiddleware(d, s);
            switch (how) {
            case 0: zt::send_raw(*raw, {t, s}); break;
            case 1: zt::send_raw(*raw, {t, s, "and more"}); break;
            case 2: zt::send_raw(*raw, {t, "x", t, s}); break;
            default: zt::send_raw(*raw, {t, "x", "y", t, s}); break;
            }
        }
        }
    }
    void finish(int writer, bool single)
    {
        ksim::quiet();
        zmq::sim::net().lossless = true;
        ksim::advance(800000000); // what is still on its way arrives and is applied
        int k = ksim::choose(NK + 3), v = version();
        int nf = k == NK + 2 ? ksim::choose(8) : -1;
        if (freshly.count(nf)) nf = -1, k = 0;
        if (k < NK)
            nodes[writer]->set(k, v);
        else if (nf >= 0) {
            nodes[writer]->fresh(nf);
            freshly.insert(nf);
        }
        else if (k == NK)
            nodes[writer]->flag(v % 2);
        else {
            CHECK("env-file", nodes[writer]->load(++nfile), "an intact file was refused although the disk works");
            loaded[nfile] = 1;
        }
        int want[NK];
        for (int i = 0; i < NK; i++)
            want[i] = nodes[writer]->get(i, maxv, "writer");
        const bool flag = nodes[writer]->flag();
        CHECK("env-own-write", k >= NK || want[k] == v, "the writer does not read back its own last update");
        CHECK("env-own-write", k != NK || flag == v % 2, "the writer does not read back its own last update");
        std::map<int, int> files;
        for (auto &f : loaded) {
            files[f.first] = nodes[writer]->file(f.first);
            // other writers replace the whole configuration
            if (single || (k == NK + 1 && f.first == nfile)) CHECK("env-file", files[f.first] == (f.second > 0 ? f.first * 7 : -1), "a file that was %s: its property is %d", f.second > 0 ? "loaded" : "refused", files[f.first]);
        }
        std::map<int, int> fresh;
        for (int f : freshly) {
            fresh[f] = nodes[writer]->fresh_value(f);
            if (single || f == nf) CHECK("env-own-write", fresh[f] == f / 4 % 2, "the only writer of a new property set %d and reads %d", f / 4 % 2, fresh[f]);
        }
        for (int tries = 0;; tries++) {
            bool same = true;
            for (auto &n : nodes)
            {
                for (int i = 0; i < NK; i++)
                    if (n->get(i, maxv, "reader") != want[i]) same = false;
                if (n->flag() != flag) same = false;
                for (auto &f : fresh)
                    if (n->fresh_value(f.first) != f.second) same = false;
                for (auto &f : files)
                    if (n->file(f.first) != f.second) same = false;
            }
            if (same) break;
            CHECK("env-diverged", tries < 40, "an environment does not have the last update although updates stopped and nothing was lost any more");
            ksim::advance(10000000);
        }
        if (stranger)
            for (int i = 0; i < NK; i++)
                if (i != 1) CHECK("env-foreign", stranger->get(i, maxv, "other key") >= 500000, "an environment applied an update addressed to another key");
        ksim::advance(100000000); // and stays so
        for (auto &n : nodes)
            for (int i = 0; i < NK; i++)
                CHECK("env-diverged", n->get(i, maxv, "reader") == want[i], "an environment lost the last update again");
        if (ksim::chance(1, 3)) {
            size_t j = ksim::choose((int) nodes.size());
            int64_t t0 = ksim::now_ns();
            nodes[j]->env.reset();
            CHECK("env-slow-stop", ksim::now_ns() - t0 <= period * 1000000 + 20000000, "destruction took %lld us", (long long) (ksim::now_ns() - t0) / 1000);
            nodes[j]->sub.forbid();
            nodes[j]->pub.forbid();
            if (nodes.size() > 1) nodes[(j + 1) % nodes.size()]->set(0, version());
            ksim::advance(50000000);
        }
        auto &st = zmq::sim::net();
        if (st.lost) ksim::probe("update lost on the way");
        if (st.interrupted) ksim::probe("poll interrupted by a signal");
    }
};
void faults()
{
    std_faults();
    ksim::enable(ksim::F_EINTR, 250);
    ksim::enable(ksim::F_MSGLOSS, 400);
    ksim::enable(ksim::F_PARTITION, 250);
    ksim::enable(ksim::F_NETDELAY, 500);
    ksim::enable(ksim::F_DISKERR, 300);
    ksim::enable(ksim::F_SHORTIO, 300);
    ksim::set_budget(2000000, 6000000);
}

// One environment is changed, the others follow.
KSIM_SCENARIO(one_writer, 60)
{
    faults();
    const int ne = ksim::range(1, 3), wth = ksim::range(1, 2), nset = sized(large_run(), 1, 5, 30), nget = ksim::range(1, 12);
    const bool bad = ksim::chance(1, 3), stranger = ksim::chance(1, 4);
    World w(ne, stranger, bad);
    World *wp = &w;
    std::atomic<int> latest[NK];
    for (auto &l : latest)
        l = 1;
    Threads th;
    for (int t = 0; t < wth; t++)
        th.go([&, t] {
            int mine[NK] = {1, 1, 1};
            for (int i = 0; i < nset; i++) {
                int k = wth == 1 ? ksim::choose(NK) : t == 0 ? 0 : ksim::range(1, 2);
                int v = wp->version();
                wp->nodes[0]->set(k, v);
                mine[k] = v;
                latest[k] = v;
                if (ksim::chance(1, 2)) {
                    int g = wp->nodes[0]->get(k, wp->maxv, "writer");
                    CHECK("env-own-write", g == mine[k], "the only writer of a property set version %d and reads version %d", mine[k], g);
                }
                if (t == 0 && ksim::chance(1, 3)) {
                    const int f = ++wp->nfile;
                    const bool ok = wp->nodes[0]->load(f);
                    wp->loaded[f] = ok ? 1 : -1;
                    const int g = wp->nodes[0]->file(f);
                    CHECK("env-file", g == (ok ? f * 7 : -1), "a file was %s: its property is %d", ok ? "loaded" : "refused", g);
                    ksim::probe(ok ? "file loaded" : "file refused");
                }
                if (t == 0 && ksim::chance(1, 4)) {
                    const int f = ksim::choose(8);
                    if (!wp->freshly.count(f)) {
                        wp->freshly.insert(f);
                        wp->nodes[0]->fresh(f);
                        CHECK("env-own-write", wp->nodes[0]->fresh_value(f) == f / 4 % 2, "a property set for the first time reads %d instead of %d", wp->nodes[0]->fresh_value(f), f / 4 % 2);
                    }
                }
                if (t == wth - 1 && ksim::chance(1, 3)) {
                    const bool b = ksim::chance(1, 2);
                    wp->nodes[0]->flag(b);
                    CHECK("env-own-write", wp->nodes[0]->flag() == b, "the only writer of a property does not read back what it set");
                }
                if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 30) * 1000000ll);
            }
        });
    for (int e = 0; e < ne; e++)
        if (ksim::chance(3, 4))
            th.go([&, e] {
                int seen[NK] = {1, 1, 1};
                for (int i = 0; i < nget; i++) {
                    int k = ksim::choose(NK);
                    int low = e == 0 ? latest[k].load() : 0;
                    int g = wp->nodes[e]->get(k, wp->maxv, "reader");
                    CHECK("env-torn", g >= 1 && g <= wp->maxv, "environment %d returned version %d of a property, which nobody wrote", e, g);
                    CHECK("env-backwards", g >= seen[k] && g >= low, "environment %d returned version %d of a property after version %d", e, g, seen[k] > low ? seen[k] : low);
                    seen[k] = g;
                    if (ksim::chance(1, 4)) wp->nodes[e]->flag();
                    if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 20) * 1000000ll);
                }
            });
    if (bad)
        th.go([&] {
            for (int i = ksim::range(1, 4); i > 0; i--) {
                wp->garbage();
                ksim::advance(ksim::range(1, 20) * 1000000ll);
            }
        });
    if (stranger)
        th.go([&] {
            for (int i = ksim::range(1, 4); i > 0; i--) {
                wp->stranger->set(ksim::choose(2) * 2, 500001 + i);
                ksim::advance(ksim::range(1, 20) * 1000000ll);
            }
        });
    th.join();
    w.finish(0, true);
}
// Several environments are changed at once: afterwards one more update brings all to the same state.
KSIM_SCENARIO(many_writers, 40)
{
    faults();
    const int ne = ksim::range(2, 3), nset = sized(large_run(), 1, 4, 25);
    World w(ne, false, ksim::chance(1, 4));
    Threads th;
    for (int e = 0; e < ne; e++)
        th.go([&, e] {
            for (int i = 0; i < nset; i++) {
                w.nodes[e]->set(ksim::choose(NK), w.version());
                if (ksim::chance(1, 2)) {
                    int g = w.nodes[e]->get(ksim::choose(NK), w.maxv, "reader");
                    CHECK("env-torn", g >= 1 && g <= w.maxv, "environment %d returned version %d of a property, which nobody wrote", e, g);
                }
                if (ksim::chance(1, 2)) ksim::advance(ksim::range(1, 30) * 1000000ll);
            }
        });
    if (w.raw)
        th.go([&] {
            w.garbage();
        });
    th.join();
    w.finish(ksim::choose(ne), false);
}
} // namespace
// An environment whose poller does not get going in time, or at all, leaves nothing behind and can be created again.
KSIM_SCENARIO(slow_start, 4)
{
    std_faults();
    World w(0, false, false);
    w.period = 1;
    Node n(w.ctx);
    n.pub.bind("tcp://*:6000");
    n.sub.setsockopt(ZMQ_SUBSCRIBE, TOPIC, strlen(TOPIC));
    n.sub.connect("tcp://localhost:6000");
    kpsr::ConfigurationEnvironment conf;
    CHECK("env-import", conf.updateConfiguration(initial("test", 1, 1, "")), "the initial configuration was refused");
    if (ksim::choose(2)) ksim::enable(ksim::F_THREADFAIL, 700);
    const bool local = ksim::choose(2);
    for (int k = 0; !n.env; k++) {
        if (k > 4) ksim::quiet();
        try {
            n.env.reset(local ? new kpsr::zmq_mdlw::ZMQEnv("", "test", TOPIC, 1, n.pub, n.sub) : new kpsr::zmq_mdlw::ZMQEnv(&conf, n.pub, n.sub));
        } catch (std::system_error &) {
            ksim::probe("thread-creation-failed");
        } catch (std::runtime_error &) {
            ksim::probe("start-timed-out");
        }
        if (n.env) break;
        n.sub.forbid();
        n.pub.forbid();
        ksim::advance(500000000);
        CHECK("env-thread-left", ksim::live_threads() == 1, "a thread outlives the environment that could not be created");
        n.sub.allow();
        n.pub.allow();
    }
    ksim::quiet();
    n.env->setPropertyInt(KEYS[0], 5);
    int v = 0;
    CHECK("env-own-write", n.env->getPropertyInt(KEYS[0], v) && v == 5, "the environment does not read back its own update");
    destroying([&] { n.env.reset(); });
    CHECK("env-thread-left", ksim::live_threads() == 1, "a thread outlives its environment");
}
