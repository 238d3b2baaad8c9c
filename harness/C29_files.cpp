// C29: what is read from a file takes effect completely or not at all, whatever the disk does.
#include "hcommon.h"
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <sys/types.h>
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/core/prop_file_environment.h>
#include <klepsydra/state_machine/config_state_machine.h>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <klepsydra/state_machine/state_machine.h>
#include <klepsydra/state_machine/state_machine_listener.h>

namespace {
void faults()
{
    ksim::enable(ksim::F_DISKERR, 600);
    ksim::enable(ksim::F_SHORTIO, 500);
    ksim::enable(ksim::F_EINTR, 400);
    ksim::enable(ksim::F_MEMREUSE, 250);
    ksim::enable(ksim::F_STALL, 200);
    ksim::races(true);
    ksim::set_budget(4000000, 12000000);
}
// what a crash while the file was written may leave of it
std::string torn(const std::string &s)
{
    size_t end = s.rfind('}');
    size_t at = ksim::choose((int) end + 1);
    if (ksim::chance(1, 2)) return s.substr(0, at); // the rest was never written
    size_t to = ksim::chance(1, 2) ? s.size() : at + 1 + ksim::choose((int) (end - at) + 1);
    return s.substr(0, at) + std::string(to - at, '\0') + s.substr(to); // a block that was allocated, but not written
}
const char *put(const std::string &s) { return ksim::disk::put(s.data(), s.size()); }
void stats()
{
    auto &st = ksim::disk::stats();
    if (st.open_failed) ksim::probe("a file could not be opened");
    if (st.read_failed) ksim::probe("reading failed half way");
    if (st.short_reads) ksim::probe("a read returned less than asked for");
    if (st.interrupted) ksim::probe("a read was interrupted");
}
std::string word(int n)
{
    static const char *pieces[] = {"plain", "with space", "quote\"s", "back\\slash", "new\nline", "{}[]:,", "caf\xc3\xa9", "0", ""};
    std::string s;
    for (int i = ksim::choose(n); i >= 0; i--)
        s += pieces[ksim::choose(9)];
    return s;
}
struct Model
{
    std::map<std::string, std::string> s;
    std::map<std::string, int> i;
    std::map<std::string, float> f;
    std::map<std::string, bool> b;
    void fill(kpsr::ConfigurationEnvironment &e)
    {
        for (auto &x : s)
            e.setPropertyString(x.first, x.second);
        for (auto &x : i)
            e.setPropertyInt(x.first, x.second);
        for (auto &x : f)
            e.setPropertyFloat(x.first, x.second);
        for (auto &x : b)
            e.setPropertyBool(x.first, x.second);
    }
    static std::string key(int load, const char *kind, int n) { return kind + std::to_string(n) + " of " + std::to_string(load) + (n % 3 ? "" : " with a name that is not short"); }
    void random(int load)
    {
        const int big = ksim::chance(1, 4) ? 60 : 4;
        for (int k = ksim::choose(big); k > 0; k--)
            s[key(load, "string", k)] = word(k % 7 ? 3 : 30);
        for (int k = ksim::choose(big); k > 0; k--)
            i[key(load, "int", k)] = ksim::range(-100000, 100000);
        for (int k = ksim::choose(big); k > 0; k--)
            f[key(load, "float", k)] = ksim::range(-4000, 4000) / 8.0f;
        for (int k = ksim::choose(big); k > 0; k--)
            b[key(load, "bool", k)] = ksim::chance(1, 2);
    }
    void under(const std::string &root, Model &to) const
    {
        auto full = [&](const std::string &k) { return root.empty() ? k : root + "/" + k; };
        for (auto &x : s)
            to.s[full(x.first)] = x.second;
        for (auto &x : i)
            to.i[full(x.first)] = x.second;
        for (auto &x : f)
            to.f[full(x.first)] = x.second;
        for (auto &x : b)
            to.b[full(x.first)] = x.second;
    }
    // every property is there, with its value
    void check(kpsr::Environment &e, const char *when)
    {
        for (auto &x : s) {
            std::string v;
            CHECK("file-lost", e.getPropertyString(x.first, v, "-"), "%s: string '%s' is missing", when, x.first.c_str());
            CHECK("file-value", v == x.second, "%s: string '%s' is '%s' instead of '%s'", when, x.first.c_str(), v.c_str(), x.second.c_str());
        }
        for (auto &x : i) {
            int v = 0;
            CHECK("file-lost", e.getPropertyInt(x.first, v, -1234567), "%s: int '%s' is missing", when, x.first.c_str());
            CHECK("file-value", v == x.second, "%s: int '%s' is %d instead of %d", when, x.first.c_str(), v, x.second);
        }
        for (auto &x : f) {
            float v = 0;
            CHECK("file-lost", e.getPropertyFloat(x.first, v, -1.0f), "%s: float '%s' is missing", when, x.first.c_str());
            CHECK("file-value", v == x.second, "%s: float '%s' is %f instead of %f", when, x.first.c_str(), (double) v, (double) x.second);
        }
        for (auto &x : b) {
            bool v = false;
            CHECK("file-lost", e.getPropertyBool(x.first, v, false), "%s: bool '%s' is missing", when, x.first.c_str());
            CHECK("file-value", v == x.second, "%s: bool '%s' is %d", when, x.first.c_str(), (int) v);
        }
    }
    // no property is there
    void absent(kpsr::Environment &e, const std::string &root, const char *when)
    {
        std::string vs;
        int vi;
        float vf;
        bool vb;
        for (auto &x : s)
            CHECK("file-partial", !e.getPropertyString(x.first, vs, "", root), "%s: string '%s' took effect", when, x.first.c_str());
        for (auto &x : i)
            CHECK("file-partial", !e.getPropertyInt(x.first, vi, 0, root), "%s: int '%s' took effect", when, x.first.c_str());
        for (auto &x : f)
            CHECK("file-partial", !e.getPropertyFloat(x.first, vf, 0, root), "%s: float '%s' took effect", when, x.first.c_str());
        for (auto &x : b)
            CHECK("file-partial", !e.getPropertyBool(x.first, vb, false, root), "%s: bool '%s' took effect", when, x.first.c_str());
    }
};
// Environments read from JSON files.
KSIM_SCENARIO(environment, 45)
{
    faults();
    Model now;
    std::unique_ptr<kpsr::ConfigurationEnvironment> env;
    const int n = ksim::range(1, 5);
    ksim::describe("files=%d", n);
    int loaded = 0, refused = 0;
    for (int k = 0; k < n; k++) {
        Model m;
        m.random(k);
        kpsr::ConfigurationEnvironment source;
        m.fill(source);
        const std::string text = source.exportEnvironment();
        const bool broken = ksim::chance(1, 4), last = k == n - 1;
        const std::string root = ksim::chance(1, 2) ? "" : ksim::chance(1, 2) ? "node" : "a node/below another one";
        const char *path = put(broken ? torn(text) : text);
        if (last) ksim::quiet(); // the disk works again
        bool ok = false;
        if (!env && ksim::chance(2, 3)) {
            try {
                env.reset(new kpsr::ConfigurationEnvironment(path, root));
                ok = true;
            } catch (const std::exception &) {
            }
        } else {
            if (!env) env.reset(new kpsr::ConfigurationEnvironment());
            ok = env->loadFile(path, root);
        }
        CHECK("file-torn", !ok || !broken, "a file of which a part is missing was accepted");
        CHECK("file-refused", ok || broken || !last, "an intact file was refused although the disk works");
        if (!env) continue;
        if (ok)
            m.under(root, now), loaded++;
        else
            m.absent(*env, root, "after a load that failed"), refused++;
        now.check(*env, ok ? "after a load" : "after a load that failed");
    }
    if (loaded) ksim::probe("file loaded");
    if (refused) ksim::probe("file refused");
    stats();
}
// Property files: key = value, with comments.
KSIM_SCENARIO(properties, 30)
{
    faults();
    const int n = ksim::chance(1, 4) ? 800 : ksim::range(1, 12);
    ksim::describe("lines=%d", n);
    struct Value
    {
        int kind; // a number, a fraction, a word, a truth value
        int n;
        std::string s;
    };
    std::map<std::string, Value> want;
    std::string text;
    bool valid = true;
    const char *lead[] = {"", "  ", "\t"}, *sep[] = {"=", " = ", "= ", " ="}, *words[] = {"on", "a-word", "path/of/a/file/that/is/not/short.json", "x", "\xc3\xa9"};
    const int wrong = ksim::chance(1, 8) ? ksim::choose(n) : -1;
    for (int k = 0; k < n; k++) {
        if (k == wrong) {
            const int how = ksim::choose(want.empty() ? 3 : 4);
            text += how == 0 ? "no separator\n" : how == 1 ? " = no key\n" : how == 2 ? "no_value =\n" : want.begin()->first + " = again\n";
            valid = false;
        }
        switch (ksim::choose(6)) {
        case 0: text += "; nothing = but a comment\n"; break;
        case 1: text += "   \n"; break;
        default: {
            std::string key = "property_" + std::to_string(k);
            Value v;
            v.kind = ksim::choose(4);
            v.n = v.kind == 3 ? ksim::choose(2) : ksim::range(-100000, 100000);
            char num[64];
            if (v.kind == 0 && v.n > 0 && ksim::chance(1, 8))
                snprintf(num, sizeof num, "0x%x", v.n);
            else if (v.kind == 1)
                snprintf(num, sizeof num, "%.3f", v.n / 8.0);
            else
                snprintf(num, sizeof num, "%d", v.n);
            v.s = v.kind == 2 ? words[ksim::choose(5)] : num;
            want[key] = v;
            text += lead[ksim::choose(3)] + key + sep[ksim::choose(4)] + v.s + (ksim::chance(1, 4) ? ksim::chance(1, 2) ? " ; why = that" : ";why" : "") + (k == n - 1 && ksim::chance(1, 2) ? "" : "\n");
        }
        }
    }
    const char *path = put(text);
    bool read = false;
    for (int tries = ksim::range(1, 3); tries > 0; tries--) {
        if (tries == 1) ksim::quiet();
        std::unique_ptr<kpsr::PropertyFileEnvironment> env;
        try {
            env.reset(new kpsr::PropertyFileEnvironment(path));
        } catch (const std::exception &) {
            CHECK("file-refused", tries > 1 || !valid, "an intact file was refused although the disk works");
            ksim::probe("file refused");
            continue;
        }
        CHECK("file-torn", valid, "a file with a line that is none was accepted");
        read = true;
        if (ksim::chance(1, 3)) { // it takes nothing else: says so, and stays as it was
            const std::string other = "property_0=77\nproperty_1=99\nproperty_5=88\n";
            CHECK("file-partial", !env->loadFile(put(ksim::chance(1, 2) ? other : text), ksim::chance(1, 2) ? "" : "root"), "a property file took another file");
        }
        for (auto &x : want) {
            const Value &w = x.second;
            int v = 0;
            float f = 0;
            bool b = false;
            std::string s;
            env->getPropertyString(x.first, s, "-");
            CHECK("file-partial", s == w.s, "property %s of a file that was read is '%s'", x.first.c_str(), s.c_str());
            if (w.kind == 0 && !env->getPropertyInt(x.first, v, -1)) continue;
            CHECK("file-partial", w.kind != 0 || v == w.n, "property %s of a file that was read is %d instead of %d", x.first.c_str(), v, w.n);
            if (w.kind == 1 && !env->getPropertyFloat(x.first, f, -1)) continue;
            CHECK("file-partial", w.kind != 1 || f == w.n / 8.0f, "property %s of a file that was read is %f instead of %f", x.first.c_str(), f, w.n / 8.0f);
            if (w.kind == 3 && !env->getPropertyBool(x.first, b, !w.n)) continue;
            CHECK("file-partial", w.kind != 3 || b == !!w.n, "property %s of a file that was read is %d", x.first.c_str(), b);
        }
        for (int k = ksim::choose(4); k >= 0; k--) { // what is not there has the default
            const std::string key = "property_" + std::to_string(n + k);
            int v = 0;
            float f = 0;
            bool b = false;
            std::string s;
            env->getPropertyInt(key, v, k + 7);
            env->getPropertyFloat(key, f, k + 0.5f);
            env->getPropertyBool(key, b, k % 2);
            env->getPropertyString(key, s, key);
            CHECK("file-partial", v == k + 7 && f == k + 0.5f && b == (k % 2) && s == key, "%s is not in the file, but it has a value", key.c_str());
        }
    }
    if (read) ksim::probe("file loaded");
    stats();
}
// State machines read from JSON files.
KSIM_SCENARIO(machine, 25)
{
    using namespace kpsr::fsm;
    faults();
    const int ns = ksim::chance(1, 4) ? 40 : ksim::range(1, 5), ne = ksim::range(1, 4);
    ksim::describe("states=%d", ns);
    auto sid = [&](int i) { return "state " + std::to_string(i); };
    auto eid = [&](int i) { return "event" + std::to_string(i); };
    struct Tr
    {
        int to, event;
    };
    std::vector<std::vector<Tr>> tr(ns);
    std::string text = "{\n \"id\": \"machine\",\n \"states\": [";
    for (int s = 0; s < ns; s++) {
        text += std::string(s ? "," : "") + "\n  {\"id\": \"" + sid(s) + "\", \"transitions\": [";
        for (int k = ksim::choose(4); k > 0; k--) {
            text += tr[s].empty() ? "" : ", ";
            tr[s].push_back({ksim::choose(ns), ksim::choose(ne)});
            text += "{\"destination\": \"" + sid(tr[s].back().to) + "\", \"event\": \"" + eid(tr[s].back().event) + "\"}";
        }
        text += "]}";
    }
    text += "\n ]\n}\n";
    for (int tries = ksim::range(1, 3); tries > 0; tries--) {
        if (tries == 1) ksim::quiet();
        const bool broken = ksim::chance(1, 4);
        const char *path = put(broken ? torn(text) : text);
        std::shared_ptr<StateMachine> sm;
        std::shared_ptr<StateMachineListener> lst;
        try {
            sm = FromJson::createStateMachine(path);
            if (ksim::chance(1, 2)) lst = FromJson::createStateMachineListener(path);
        } catch (const std::exception &) {
            CHECK("file-refused", tries > 1 || broken, "an intact file was refused although the disk works");
            ksim::probe("file refused");
            continue;
        }
        CHECK("file-torn", !broken, "a file of which a part is missing was accepted");
        ksim::probe("file loaded");
        int cur = 0, told = -1, acted = -1;
        sm->registerObserver([&](const std::string &full, bool) {
            told = -2;
            for (int s = 0; s < ns; s++)
                if (full == "machine:" + sid(s)) told = s;
        });
        if (lst) {
            for (int s = 0; s < ns; s++)
                lst->addPeriodicAction(sid(s), [&acted, s](const std::string &) { acted = s; });
            sm->registerObserver(lst->getObserverFunc());
        }
        sm->start();
        for (int k = 0; k < 3 * ns + 6; k++) {
            CHECK("file-machine", told == cur, "a machine read from a file is in state %d; its configuration leads to %d", told, cur);
            if (lst) CHECK("file-machine", acted == cur, "a listener read from a file acted on state %d instead of %d", acted, cur);
            // rather an event that leads on
            int e = !tr[cur].empty() && ksim::chance(3, 4) ? tr[cur][ksim::choose((int) tr[cur].size())].event : ksim::choose(ne);
            for (auto &t : tr[cur])
                if (t.event == e) {
                    cur = t.to;
                    break;
                }
            sm->enqueueAndUpdate(eid(e));
        }
    }
    stats();
}
} // namespace
