// ksim internals shared between runtime.cpp, net.cpp and driver.cpp (none of these is instrumented).
#pragma once
#include "ksim.h"
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace ksim {

constexpr int MAXF = 40;                 // simulated threads per run
constexpr size_t STACK_SZ = 512 * 1024;  // each, TLS included
constexpr uintptr_t STACK_BASE = 0x200000000000ULL;
constexpr uintptr_t ARENA_BASE = 0x210000000000ULL;
constexpr size_t ARENA_SZ = 1ULL << 30;
constexpr uintptr_t SHADOW_BASE = 0x220000000000ULL;
constexpr uintptr_t RACES_BASE = 0x230000000000ULL;
constexpr int64_t NEVER = INT64_MAX;
constexpr int64_t WALL0 = 1700000000LL * 1000000000LL;

struct VC
{
    uint32_t c[MAXF];
    void join(const VC &o)
    {
        for (int i = 0; i < MAXF; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
    void clear() { memset(c, 0, sizeof c); }
};

struct Override
{
    char stream; // S switch, T stall, C clock jump, F fault, W workload, P pick
    uint8_t fiber;
    uint32_t idx;
    int64_t val;
};

enum FState : uint8_t { FREE, RUNNABLE, BLOCKED, DONE };
enum Wake { W_WOKEN, W_TIMEOUT, W_SPURIOUS };

struct SbEntry
{
    uintptr_t addr;
    int size;
    uint64_t val;
    uint64_t due;
    bool hasvc;
    VC vc;
};
constexpr int SBMAX = 16;

struct Fiber
{
    int id;
    FState st;
    void *sp;
    uint64_t fs;
    uintptr_t stack_top;
    const void *waitaddr;
    const char *waitwhat;
    int64_t deadline; // in its clock
    int64_t oversleep;
    bool wallclock;
    bool spur_timer;  // deadline is a spurious wake-up, not a timeout
    Wake reason;
    uint64_t waitseq;
    uint32_t pts, fidx, widx;
    uint32_t next_pts;
    int64_t cdsync;
    int64_t quantum;
    int nopre;
    int weight;
    int64_t prio;
    bool detached, joined, allocfault;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    VC vc, relf, acqp;
    int nsb;
    SbEntry sb[SBMAX];
    struct { void (*f)(void *); void *o; } dtors[16];
    int ndtors;
    uint64_t blockstep;
    char name[24];
    // override cursors (replay)
    int ovS, ovF, ovW;
    void *netwait;
    int64_t lock_spin;
    uint32_t hold_pts; // targeted stall: descheduled at this point
    int64_t hold_ns;
    bool held;
};

struct Result // shared memory, written by the child
{
    int status; // 0 running/crashed, 1 ok, 2 violation, 3 inconclusive, 4 known
    char cls[64];
    char key[64];
    char msg[2048];
    char desc[400];
    uint64_t hash, shash;
    uint64_t steps, switches, preempts;
    int64_t simtime;
    uint64_t faults[F_NKINDS];
    uint32_t threads;
    int nprobe;
    const char *probes[64];
    const char *scenario;
    uint32_t nov;
    uint32_t ovlost;
    uint32_t ntrace;
};
constexpr uint32_t MAXOV = 400000;
constexpr uint32_t TRACE_SZ = 4 << 20;
struct Shared
{
    Result r;
    Override ov[MAXOV];
    char trace[TRACE_SZ];
};

struct Rng
{
    uint64_t s[2];
    void seed(uint64_t x)
    {
        auto sm = [&x]() {
            uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        };
        s[0] = sm();
        s[1] = sm();
    }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct Global
{
    bool active;
    bool replay;
    bool trace;
    bool isquiet;
    Fiber *cur;
    int nf;
    int64_t now;
    int64_t walloff;
    uint64_t steps;
    uint64_t qsteps;
    uint64_t max_quiet, max_total;
    uint64_t next_sb_due;
    uint64_t next_due; // next_sb_due, or the end of the step budget
    bool forced;       // the step budget ran out: faults have stopped for good
    uint64_t waitseq;
    uint64_t idle_yields;
    Rng rng;
    uint32_t enabled;
    int strat;         // 0 random, 1 pct, 2 sticky
    uint64_t p_any, p_sync;
    int64_t lowprio;
    int stall_pm;      // per mille of preemptions that stall
    Shared *sh;
    const char *scenario;
    // replay overrides per fiber
    const Override *ovs[MAXF][3];
    int novs[MAXF][3];
    bool reuse;
    bool races;
    bool unordered;
    int64_t alloc_cnt;
    int nlive;
    uint64_t seed;
    uint64_t tracewin_lo;
    uint64_t spun;
};
extern Global G;
extern Fiber fibers[MAXF];

// runtime services
int block(const void *addr, const char *what, int64_t deadline, bool wallclock, bool spurious_ok);
void wake_addr(const void *addr, int n, bool pick);
void sync_tick();
void yield_tick();
void hb_acquire_obj(const void *a);
void hb_release_obj(const void *a);
int64_t pick(int64_t n); // scheduler-side pick, default 0
void hash_event(uint64_t a, uint64_t b);
[[noreturn]] void finish(int status);
void runtime_init_process();
int run_scenario(Shared *sh, ScenarioFn fn, const char *name, uint64_t seed, const Override *ov, int nov,
                 bool replay, bool trace);
extern Scenario *scenarios;
void drain_all_own();
void tracef(const char *fmt, ...);
namespace disk {
void init_process();
bool is(int fd); // a file of the simulated disk
void closed(int fd);
ssize_t do_read(int fd, void *b, size_t n);
} // namespace disk
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
bool simulated(); // called from a simulated thread
} // namespace ksim
