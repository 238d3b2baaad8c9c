// C22: the in-memory environment against a register model.
#include "hcommon.h"
#include "lin.h"
#include <klepsydra/mem_core/mem_env.h>

namespace {
const char *KEYS[] = {"alpha", "beta", "a key that is longer than any small string buffer"};
// register number: key * 4 + type
struct World
{
    std::unique_ptr<kpsr::mem::MemEnv> env_{new kpsr::mem::MemEnv}; // on the heap, where races are looked for
    kpsr::mem::MemEnv &env = *env_;
    std::vector<lin::Op> h;
    int next = 1;
    int nk;
    bool other_root = false; // one root node throughout a run
    bool low_memory = false;
    static std::string str(int64_t v) { return v == 1 ? "" : v % 2 ? "s" + std::to_string(v) : "value number " + std::to_string(v) + " beyond the small string buffer"; }
    static float flt(int64_t v) { return v % 2 ? (float) v + 0.5f : (float) v; }
    void op(int thread)
    {
        lin::Op o;
        o.thread = thread;
        if (ksim::chance(1, 12)) CHECK("env-load", !env.loadFile("/nonexistent/file.json", "node"), "loading a file that does not exist succeeded");
        int key = ksim::choose(nk), type = ksim::choose(4);
        o.a = key * 4 + type;
        bool set = ksim::chance(1, 2);
        int64_t v;
        {
            ksim::NoPreempt n;
            v = next++;
        }
        if (type == 3) v %= 2;
        std::string k = KEYS[key];
        const std::string rn = other_root ? "node" : kpsr::DEFAULT_ROOT;
        o.call = ksim::step();
        if (set) {
            o.kind = lin::RSET;
            o.b = v;
            const std::string sv = str(v);
            try {
                if (low_memory) ksim::alloc_faults(true);
                switch (type) {
                case 0: env.setPropertyString(k, sv, rn); break;
                case 1: env.setPropertyInt(k, (int) v, rn); break;
                case 2: env.setPropertyFloat(k, flt(v), rn); break;
                default: env.setPropertyBool(k, v != 0, rn);
                }
                ksim::alloc_faults(false);
            } catch (const std::bad_alloc &) { // without any effect
                ksim::alloc_faults(false);
                ksim::probe("write failed");
                return;
            }
            o.ret = ksim::step();
        } else {
            o.kind = lin::RGET;
            int64_t def = type == 3 ? v : -v;
            bool d = ksim::chance(1, 2); // explicit default value or the standard one
            bool found = false;
            std::string s = "unset";
            int iv = 777;
            float f = 777;
            bool b = ksim::chance(1, 2);
            switch (type) {
            case 0: found = d ? env.getPropertyString(k, s, str(v), rn) : other_root ? env.getPropertyString(k, s, "", rn) : env.getPropertyString(k, s); break;
            case 1: found = d ? env.getPropertyInt(k, iv, (int) def, rn) : other_root ? env.getPropertyInt(k, iv, 0, rn) : env.getPropertyInt(k, iv); break;
            case 2: found = d ? env.getPropertyFloat(k, f, (float) def + 0.5f, rn) : other_root ? env.getPropertyFloat(k, f, 0.0f, rn) : env.getPropertyFloat(k, f); break;
            default: found = d ? env.getPropertyBool(k, b, def != 0, rn) : other_root ? env.getPropertyBool(k, b, false, rn) : env.getPropertyBool(k, b);
            }
            o.ret = ksim::step();
            int64_t got = 0;
            if (!found) {
                bool ok = type == 0 ? s == (d ? str(v) : "") : type == 1 ? iv == (d ? (int) def : 0)
                          : type == 2 ? f == (d ? (float) def + 0.5f : 0.0f) : b == (d ? def != 0 : false);
                CHECK("env-default", ok, "an absent property of type %d did not give the default value", type);
            } else if (type == 0) {
                got = -1;
                for (int64_t x = 1; x < next; x++)
                    if (str(x) == s) got = x;
                CHECK("env-torn", got >= 0, "a string nobody wrote: '%s'", s.c_str());
            } else if (type == 1)
                got = iv;
            else if (type == 2) {
                got = (int64_t) f;
                CHECK("env-torn", flt(got) == f, "a float nobody wrote: %f", (double) f);
            } else
                got = b;
            o.res = found;
            o.res2 = found ? got : 0;
            o.c = 0;
        }
        ksim::NoPreempt n;
        h.push_back(o);
    }
};
KSIM_SCENARIO(registers, 40)
{
    std_faults();
    World w;
    w.h.reserve(200);
    w.nk = ksim::range(1, 3);
    w.other_root = ksim::chance(1, 4);
    w.low_memory = ksim::chance(1, 3);
    if (w.low_memory) ksim::enable(ksim::F_BADALLOC, 1500);
    int nt = ksim::range(1, 4);
    std::vector<int> per(nt);
    int all = 0;
    for (auto &x : per) all += x = ksim::range(1, nt > 2 ? 5 : 8);
    ksim::describe("registers threads=%d ops=%d keys=%d", nt, all, w.nk);
    int pre = ksim::choose(4);
    for (int i = 0; i < pre; i++) w.op(99);
    {
        Threads ts;
        for (int i = 0; i < nt; i++)
            ts.go([&, i] {
                for (int j = 0; j < per[i]; j++) w.op(i);
            });
        ksim::quiet();
    }
    int post = ksim::choose(5);
    for (int i = 0; i < post; i++) w.op(99);
    CHECK("env-not-linearizable", lin::check(lin::REGISTERS, w.h, {}) != 0, "the properties are not explained by any order of the calls: %s",
          lin::show(lin::REGISTERS, w.h).c_str());
}
// Many keys, similar and odd ones among them, and values of all sizes; threads with keys of their own.
std::string odd_key(int n)
{
    std::string t = std::to_string(n / 8);
    switch (n % 8) {
    case 0: return n ? "key" + t : "";
    case 1: return "Key" + t;
    case 2: return "key" + t + " ";
    case 3: return "group.key/" + t;
    case 4: return std::string("a\0b", 3) + t;
    case 5: return std::string(300, 'k') + t;
    case 6: return "\xc3\xa9" + t;
    default: return "-" + t + "\n";
    }
}
KSIM_SCENARIO(many_keys, 1)
{
    std_faults();
    ksim::set_budget(4000000, 12000000);
    std::unique_ptr<kpsr::mem::MemEnv> e(new kpsr::mem::MemEnv);
    kpsr::mem::MemEnv &env = *e;
    const int nt = ksim::range(1, 2), nk = ksim::chance(1, 3) ? ksim::range(100, 400) : ksim::range(1, 60), ops = ksim::range(10, 300);
    ksim::describe("many keys threads=%d keys=%d ops=%d", nt, nk, ops);
    static const int64_t ints[] = {0, -1, 1, 255, 256, -32769, 65536, 16777217, 2147483647, -2147483647 - 1};
    static const float floats[] = {0.0f, -0.5f, 1.0f, 3.4e38f, 1.2e-38f, 16777216.0f, -1234567.8f, 0.1f};
    auto body = [&](int t) {
        std::map<std::string, std::string> ss;
        std::map<std::string, int> is;
        std::map<std::string, float> fs;
        std::map<std::string, bool> bs;
        for (int i = 0; i < ops; i++) {
            const std::string k = odd_key(ksim::choose(nk) * 2 + t);
            const bool set = i < ops / 2 ? ksim::chance(3, 4) : ksim::chance(1, 4);
            switch (ksim::choose(4)) {
            case 0: {
                std::string v = ksim::choose(4) ? (ksim::chance(1, 4) ? std::string("\n\0 ", 3) : "value ") + std::to_string(i) : std::string(ksim::choose(2000), 'v'), g = "unset";
                if (set) {
                    env.setPropertyString(k, v);
                    ss[k] = v;
                    break;
                }
                bool f = env.getPropertyString(k, g, v);
                CHECK("env-sequential", f == (ss.count(k) > 0) && g == (f ? ss[k] : v), "a string property has another value");
                break;
            }
            case 1: {
                int v = (int) ints[ksim::choose(10)], g = 5;
                if (set) {
                    env.setPropertyInt(k, v);
                    is[k] = v;
                    break;
                }
                bool f = env.getPropertyInt(k, g, v);
                CHECK("env-sequential", f == (is.count(k) > 0) && g == (f ? is[k] : v), "an int property is %d", g);
                break;
            }
            case 2: {
                float v = floats[ksim::choose(8)], g = 5;
                if (set) {
                    env.setPropertyFloat(k, v);
                    fs[k] = v;
                    break;
                }
                bool f = env.getPropertyFloat(k, g, v);
                CHECK("env-sequential", f == (fs.count(k) > 0) && g == (f ? fs[k] : v), "a float property is %f", (double) g);
                break;
            }
            default: {
                bool v = ksim::choose(2), g = ksim::choose(2);
                if (set) {
                    env.setPropertyBool(k, v);
                    bs[k] = v;
                    break;
                }
                bool f = env.getPropertyBool(k, g, v);
                CHECK("env-sequential", f == (bs.count(k) > 0) && g == (f ? bs[k] : v), "a bool property is %d", g);
            }
            }
        }
    };
    Threads ts;
    for (int t = 0; t < nt; t++)
        ts.go([&, t] { body(t); });
    ksim::quiet();
    ts.join();
}
} // namespace
