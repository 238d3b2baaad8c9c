// ksim runtime: cooperative scheduler over fibers, instrumentation callbacks (the __tsan_*
// interface emitted by clang -fsanitize=thread), interposed pthread/time/heap functions.
#include "internal.h"
#include <asm/prctl.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <exception>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace ksim {

const char *const fault_names[F_NKINDS] = {
    "spurious_wakeup", "thread_stall", "wall_clock_jump", "weak_cas_failure", "store_buffer_delay",
    "alloc_failure", "thread_create_failure", "slow_thread_start", "oversleep", "eintr", "eagain",
    "short_io", "conn_reset", "net_delay", "syscall_failure", "peer_close", "partition",
    "message_loss", "message_dup", "user_code_throw", "slow_user_code", "torn_copy", "memory_reuse", "disk_error"};

Global G;
Fiber fibers[MAXF];
Scenario *scenarios;
static uint64_t slot_fs[MAXF];
static uintptr_t slot_top[MAXF];
static bool have_fsgs;
constexpr int64_t Q = 6000; // fairness quantum, in point weights

Scenario::Scenario(const char *n, int w, ScenarioFn f)
    : name(n), weight(w), fn(f), next(scenarios)
{
    scenarios = this;
}

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

// ---------------------------------------------------------------- context switch
extern "C" void ksim_switch(void **save, void *load);
__asm__(".text\n.globl ksim_switch\n.type ksim_switch,@function\nksim_switch:\n"
        " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
        " subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
        " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
        " ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
        " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
        ".size ksim_switch,.-ksim_switch\n");

static inline void set_fs(uint64_t v)
{
    if (have_fsgs)
        __asm__ volatile("wrfsbase %0" ::"r"(v) : "memory");
    else
        raw_syscall(SYS_arch_prctl, ARCH_SET_FS, (long) v);
}

bool simulated() { return G.active; }

// ---------------------------------------------------------------- trace + hash
static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
void hash_event(uint64_t a, uint64_t b)
{
    Result &r = G.sh->r;
    r.hash = mix(mix(r.hash, a), b);
}
static void vtrace(const char *fmt, va_list ap)
{
    Result &r = G.sh->r;
    char buf[700];
    int n = snprintf(buf, sizeof buf, "[%llu t=%.3fus T%d] ", (unsigned long long) G.steps,
                     G.now / 1000.0, G.cur ? G.cur->id : -1);
    int m = vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
    n += m < (int) sizeof buf - n - 2 ? m : (int) sizeof buf - n - 3;
    buf[n++] = '\n';
    if (r.ntrace + n < TRACE_SZ) {
        memcpy(G.sh->trace + r.ntrace, buf, n);
        r.ntrace += n;
    }
}
void tracef(const char *fmt, ...)
{
    if (!G.trace) return;
    va_list ap;
    va_start(ap, fmt);
    vtrace(fmt, ap);
    va_end(ap);
}
static void record(char stream, int fiber, uint32_t idx, int64_t val)
{
    Result &r = G.sh->r;
    if (r.nov >= MAXOV) {
        r.ovlost++;
        return;
    }
    G.sh->ov[r.nov++] = Override{stream, (uint8_t) fiber, idx, val};
}

void finish(int status)
{
    Result &r = G.sh->r;
    r.status = status;
    r.steps = G.steps;
    r.simtime = G.now;
    r.threads = G.nf;
    raw_syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
static void set_fail(const char *cls, const char *fmt, va_list ap)
{
    Result &r = G.sh->r;
    snprintf(r.cls, sizeof r.cls, "%s", cls);
    vsnprintf(r.msg, sizeof r.msg, fmt, ap);
    if (G.trace) tracef("VIOLATION %s: %s", cls, r.msg);
}
void fail(const char *cls, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    set_fail(cls, fmt, ap);
    finish(2);
}
void known(const char *key, const char *cls, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    set_fail(cls, fmt, ap);
    snprintf(G.sh->r.key, sizeof G.sh->r.key, "%s", key);
    finish(2);
}
void inconclusive(const char *why)
{
    snprintf(G.sh->r.cls, sizeof G.sh->r.cls, "%s", why);
    finish(3);
}

// ---------------------------------------------------------------- heap
static char *const arena = (char *) ARENA_BASE;
static uint8_t *const shadow = (uint8_t *) SHADOW_BASE;
static size_t bump;
static bool arena_ready;
static const size_t RUN_HEAP = ARENA_SZ / 2 + 4096;
struct Hdr { uint32_t magic; uint32_t off; uint64_t size; };
static void *freelist[130];

static void arena_init()
{
    if (arena_ready) return;
    void *a = mmap(arena, ARENA_SZ, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(shadow, ARENA_SZ / 16, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != arena || s != shadow) {
        static const char m[] = "ksim: cannot map arena\n";
        raw_syscall(SYS_write, 2, (long) m, sizeof m - 1);
        raw_syscall(SYS_exit_group, 3);
    }
    bump = 4096;
    arena_ready = true;
}
static void bad_access(uintptr_t a, int s, bool w)
{
    if (s == 2)
        fail("use-after-free", "%s of freed memory (address %#lx, thread %d %s)", w ? "write" : "read",
             (unsigned long) a, G.cur->id, G.cur->name);
    fail("heap-overflow", "%s outside any live heap block (address %#lx, thread %d %s)",
         w ? "write" : "read", (unsigned long) a, G.cur->id, G.cur->name);
}
static inline void check_mem(uintptr_t a, size_t n, bool w)
{
    uintptr_t o = a - ARENA_BASE;
    if (__builtin_expect(o < ARENA_SZ, 0)) {
        if (__builtin_expect(shadow[o >> 4] != 1, 0)) bad_access(a, shadow[o >> 4], w);
        uintptr_t e = o + n - 1;
        if (__builtin_expect((e >> 4) != (o >> 4), 0))
            for (uintptr_t k = (o >> 4) + 1; k <= (e >> 4); k++)
                if (shadow[k] != 1) bad_access(a, shadow[k], w);
    }
}
static void flush_range(uintptr_t lo, uintptr_t hi);

// Data races on heap memory (opt-in per run): every granule of 8 bytes remembers a few plain accesses.
struct Access
{
    uint32_t clk; // 0: empty
    uint8_t fid, mask;
    bool write;
    uint32_t pc;
};
struct Granule { Access a[4]; };
static Granule *const races_shadow = (Granule *) RACES_BASE;
static void races_init()
{
    static const size_t n = ARENA_SZ / 8 * sizeof(Granule);
    void *a = mmap(races_shadow, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != races_shadow) inconclusive("cannot map the race detector's memory");
}
static void races_clear(uintptr_t o, size_t n)
{
    memset((void *) (races_shadow + (o >> 3)), 0, (n + 7) / 8 * sizeof(Granule));
}
[[gnu::noinline]] static void races_access(uintptr_t a, size_t n, bool w, const void *pc)
{
    Fiber *c = G.cur;
    uintptr_t o = a - ARENA_BASE, e = o + n;
    for (uintptr_t g = o >> 3; g <= (e - 1) >> 3; g++) {
        uintptr_t lo = g << 3 > o ? 0 : o & 7, hi = (g + 1) << 3 < e ? 8 : ((e - 1) & 7) + 1;
        uint8_t mask = (uint8_t) ((0xff << lo) & (0xff >> (8 - hi)));
        Granule &gr = races_shadow[g];
        int slot = -1, spare = -1;
        for (int i = 0; i < 4; i++) {
            Access &x = gr.a[i];
            if (!x.clk) {
                if (spare < 0) spare = i;
                continue;
            }
            if (x.fid == c->id) {
                if (x.mask == mask && (w || !x.write)) slot = i;
                continue;
            }
            if (x.clk <= c->vc.c[x.fid]) {
                if (!(x.mask & ~mask) && (w || !x.write)) spare = i;
                continue;
            }
            if ((x.mask & mask) && (w || x.write))
                fail("data-race", "%s of heap memory by thread %d (%s, code %p) not ordered after a %s by thread %d (%s, code %p)",
                     w ? "write" : "read", c->id, c->name, pc, x.write ? "write" : "read", x.fid, fibers[x.fid].name, (void *) (uintptr_t) x.pc);
        }
        if (slot < 0) slot = spare;
        if (slot < 0) slot = (int) (G.steps & 3);
        gr.a[slot] = Access{c->vc.c[c->id], (uint8_t) c->id, mask, w, (uint32_t) (uintptr_t) pc};
    }
}
#define RACES(a, n, w, pc) \
    do { \
        if (__builtin_expect(G.races, 0) && (uintptr_t) (a) - ARENA_BASE < ARENA_SZ) races_access((uintptr_t) (a), n, w, pc); \
    } while (0)
void races(bool on)
{
    static bool mapped;
    if (on && !mapped) {
        mapped = true;
        races_init();
    }
    G.races = on;
}

static void *arena_alloc(size_t size, size_t align)
{
    arena_init();
    if (size == 0) size = 1;
    size_t rs = (size + 15) & ~size_t(15);
    if (align <= 16 && rs <= 2048 && freelist[rs / 16] && (!G.active || G.reuse)) {
        char *p = (char *) freelist[rs / 16];
        memcpy(&freelist[rs / 16], p, sizeof(void *));
        Hdr *h = (Hdr *) (p - 16);
        h->magic = 0xA110CA7E;
        h->size = size;
        memset(shadow + ((p - arena) >> 4), 1, rs / 16);
        if (G.races) races_clear((uintptr_t) (p - arena), rs);
        if (G.active) G.sh->r.faults[F_MEMREUSE]++;
        if (G.active) G.nlive++;
        return p;
    }
    if (align < 16) align = 16;
    size_t p = (bump + 16 + align - 1) & ~(align - 1);
    if (p + rs + 32 > ARENA_SZ) {
        if (G.active) fail("memory-exhausted", "run allocated more than %zu bytes", ARENA_SZ);
        return nullptr;
    }
    bump = p + rs + 16;
    Hdr *h = (Hdr *) (arena + p - 16);
    h->magic = 0xA110CA7E;
    h->off = 0;
    h->size = size;
    memset(shadow + (p >> 4), 1, rs / 16);
    if (G.active) G.nlive++;
    return arena + p;
}
static void arena_free(void *q)
{
    if (!q) return;
    char *p = (char *) q;
    uintptr_t o = p - arena;
    if (o >= ARENA_SZ) {
        if (G.active) fail("bad-free", "free of a pointer that is not from the heap");
        return;
    }
    Hdr *h = (Hdr *) (p - 16);
    if (shadow[o >> 4] != 1 || h->magic != 0xA110CA7E) {
        if (G.active) {
            if (h->magic == 0xF5EEF5EE)
                fail("double-free", "block freed twice (thread %d %s)", G.cur->id, G.cur->name);
            fail("bad-free", "free of a pointer that is not a live heap block (thread %d %s)",
                 G.cur->id, G.cur->name);
        }
        return;
    }
    size_t rs = (h->size + 15) & ~size_t(15);
    if (G.active) {
        flush_range((uintptr_t) p, (uintptr_t) p + rs);
        G.nlive--;
        memset(p, 0xDD, rs);
    }
    h->magic = 0xF5EEF5EE;
    memset(shadow + (o >> 4), 2, rs / 16);
    if (rs <= 2048 && (!G.active || G.reuse)) {
        memcpy(p, &freelist[rs / 16], sizeof(void *));
        freelist[rs / 16] = p;
    }
}
bool is_live(const void *p)
{
    uintptr_t o = (char *) p - arena;
    return o < ARENA_SZ && shadow[o >> 4] == 1;
}
uint64_t live_allocs() { return G.nlive; }

// ---------------------------------------------------------------- vector clocks
struct SyncObj
{
    uintptr_t addr;
    int lastrel;
    VC vc;
};
constexpr int NSYNC = 1 << 16;
static SyncObj syncs[NSYNC];
static int nsyncs;
static SyncObj *sync_obj(uintptr_t a, bool create)
{
    uint64_t h = (a >> 2) * 0x9e3779b97f4a7c15ULL >> 40;
    for (int i = 0; i < NSYNC; i++) {
        SyncObj &s = syncs[(h + i) % NSYNC];
        if (s.addr == a) return &s;
        if (!s.addr) {
            if (!create) return nullptr;
            if (nsyncs >= NSYNC / 4 * 3) break; // a fuller table would be slow to search
            nsyncs++;
            s.addr = a;
            s.lastrel = -1;
            return &s;
        }
    }
    G.unordered = true; // no room for further objects: orderings get lost, nothing can be said about races
    G.races = false;
    return nullptr;
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL; }
static void hb_load(uintptr_t a, int mo)
{
    Fiber *c = G.cur;
    SyncObj *s = sync_obj(a, false);
    if (!s) return;
    if (is_acq(mo))
        c->vc.join(s->vc);
    else
        c->acqp.join(s->vc);
}
// what a store by the current thread releases
static bool hb_store_vc(uintptr_t a, int mo, VC &out)
{
    Fiber *c = G.cur;
    if (is_rel(mo)) {
        out = c->vc;
        c->vc.c[c->id]++;
        return true;
    }
    out = c->relf;
    return true;
}
static void hb_store_apply(uintptr_t a, int fid, int mo, const VC &v)
{
    SyncObj *s = sync_obj(a, true);
    if (!s) return;
    if (!is_rel(mo) && s->lastrel == fid) {
        s->vc.join(v);
        return;
    }
    s->vc = v;
    s->lastrel = is_rel(mo) ? fid : -1;
}
static void hb_rmw(uintptr_t a, int mo)
{
    hb_load(a, mo);
    Fiber *c = G.cur;
    SyncObj *s = sync_obj(a, true);
    if (!s) return;
    if (is_rel(mo)) {
        s->vc.join(c->vc);
        c->vc.c[c->id]++;
    } else
        s->vc.join(c->relf);
}
void hb_acquire_obj(const void *a)
{
    SyncObj *s = sync_obj((uintptr_t) a, false);
    if (s) G.cur->vc.join(s->vc);
}
void hb_release_obj(const void *a)
{
    SyncObj *s = sync_obj((uintptr_t) a, true);
    if (!s) return;
    s->vc.join(G.cur->vc);
    G.cur->vc.c[G.cur->id]++;
}

struct Cell
{
    uintptr_t addr;
    int wf;
    uint32_t wc;
    VC rd;
};
constexpr int NCELL = 4096;
static Cell cells[NCELL];
static Cell *cell(uintptr_t a)
{
    uint64_t h = (a >> 3) * 0x9e3779b97f4a7c15ULL >> 40;
    for (int i = 0; i < NCELL; i++) {
        Cell &s = cells[(h + i) % NCELL];
        if (s.addr == a) return &s;
        if (!s.addr) {
            s.addr = a;
            s.wf = -1;
            return &s;
        }
    }
    return nullptr;
}
void cell_write(const void *p, const char *what)
{
    if (!G.active || G.unordered) return;
    Fiber *c = G.cur;
    Cell *s = cell((uintptr_t) p);
    if (!s) return;
    if (s->wf >= 0 && s->wc > c->vc.c[s->wf])
        fail("payload-race", "%s: write by thread %d not ordered after write by thread %d", what, c->id, s->wf);
    for (int i = 0; i < G.nf; i++)
        if (i != c->id && s->rd.c[i] > c->vc.c[i])
            fail("payload-race", "%s: write by thread %d not ordered after read by thread %d", what, c->id, i);
    s->wf = c->id;
    s->wc = c->vc.c[c->id];
    s->rd.clear();
}
void cell_read(const void *p, const char *what)
{
    if (!G.active || G.unordered) return;
    Fiber *c = G.cur;
    Cell *s = cell((uintptr_t) p);
    if (!s) return;
    if (s->wf >= 0 && s->wc > c->vc.c[s->wf])
        fail("payload-race", "%s: read by thread %d not ordered after write by thread %d", what, c->id, s->wf);
    s->rd.c[c->id] = c->vc.c[c->id];
}
void cell_forget(const void *p)
{
    if (!G.active) return;
    Cell *s = cell((uintptr_t) p);
    if (!s) return;
    s->wf = -1;
    s->rd.clear();
}

// ---------------------------------------------------------------- store buffers
static void sb_apply(Fiber *f)
{
    SbEntry &e = f->sb[0];
    memcpy((void *) e.addr, &e.val, e.size);
    if (e.hasvc) hb_store_apply(e.addr, f->id, __ATOMIC_RELEASE, e.vc);
    f->nsb--;
    for (int i = 0; i < f->nsb; i++)
        f->sb[i] = f->sb[i + 1];
}
static void sb_recompute()
{
    uint64_t d = UINT64_MAX;
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].nsb && fibers[i].sb[0].due < d) d = fibers[i].sb[0].due;
    G.next_sb_due = d;
    G.next_due = !G.forced && G.max_total + 1 < d ? G.max_total + 1 : d;
}
static void sb_drain(Fiber *f)
{
    if (!f->nsb) return;
    while (f->nsb)
        sb_apply(f);
    sb_recompute();
}
void drain_all_own() { sb_drain(G.cur); }
static void sb_drain_due()
{
    for (int i = 0; i < G.nf; i++)
        while (fibers[i].nsb && fibers[i].sb[0].due <= G.steps)
            sb_apply(&fibers[i]);
    sb_recompute();
}
static void flush_range(uintptr_t lo, uintptr_t hi)
{
    if (G.next_sb_due == UINT64_MAX) return;
    for (int i = 0; i < G.nf; i++) {
        Fiber &f = fibers[i];
        int last = -1;
        for (int k = 0; k < f.nsb; k++)
            if (f.sb[k].addr < hi && f.sb[k].addr + f.sb[k].size > lo) last = k;
        for (int k = 0; k <= last; k++)
            sb_apply(&f);
    }
    sb_recompute();
}

// ---------------------------------------------------------------- scheduler
static int64_t eff_deadline(const Fiber &f)
{
    if (f.deadline == NEVER) return NEVER;
    return f.wallclock ? f.deadline - WALL0 - G.walloff : f.deadline;
}
static bool expire_timers()
{
    bool any = false;
    for (int i = 0; i < G.nf; i++) {
        Fiber &f = fibers[i];
        if (f.st == BLOCKED && eff_deadline(f) <= G.now) {
            f.st = RUNNABLE;
            f.reason = f.spur_timer ? W_SPURIOUS : W_TIMEOUT;
            any = true;
        }
    }
    return any;
}
static Fiber *rr_next(Fiber *c)
{
    for (int k = 1; k < G.nf; k++) {
        Fiber &f = fibers[(c->id + k) % G.nf];
        if (f.st == RUNNABLE && &f != c) return &f;
    }
    return nullptr;
}
static void check_budget()
{
    if (G.isquiet && G.steps - G.qsteps > G.max_quiet) {
        char buf[1200];
        int n = 0;
        for (int i = 0; i < G.nf && n < 1000; i++)
            if (fibers[i].st != DONE)
                n += snprintf(buf + n, sizeof buf - n, " T%d(%s:%s)", i, fibers[i].name,
                              fibers[i].st == BLOCKED ? fibers[i].waitwhat : "running");
        fail("no-progress", "faults stopped %llu events ago and the operation still has not completed; threads:%s",
             (unsigned long long) (G.steps - G.qsteps), buf);
    }
    if (G.steps > 20 * G.max_total) inconclusive("step-budget");
}
// A run that uses up its budget of steps is not given up: faults stop for good and it has to come to an end.
static void force_quiet()
{
    uint64_t more = 2 * G.max_total;
    G.forced = true;
    if (G.max_quiet < more) G.max_quiet = more;
    if (!G.isquiet) quiet();
    sb_recompute();
    probe("step_budget_used_up");
}
[[noreturn]] static void deadlock()
{
    char buf[1500];
    int n = 0;
    for (int i = 0; i < G.nf && n < 1300; i++)
        if (fibers[i].st == BLOCKED)
            n += snprintf(buf + n, sizeof buf - n, " T%d(%s) in %s;", i, fibers[i].name, fibers[i].waitwhat);
    fail("deadlock", "every thread is blocked forever:%s", buf);
}
static uint64_t around(uint64_t mean) { return mean == 0 ? UINT32_MAX : 1 + G.rng.below(2 * mean); }
static void arm(Fiber *c)
{
    if (G.replay) {
        const Override *o = G.ovs[c->id][0];
        int n = G.novs[c->id][0];
        while (c->ovS < n && o[c->ovS].idx <= c->pts)
            c->ovS++;
        c->next_pts = c->ovS < n ? o[c->ovS].idx : UINT32_MAX;
        if (c->hold_pts && c->hold_pts < c->next_pts) c->next_pts = c->hold_pts;
        c->cdsync = INT64_MAX;
        return;
    }
    uint64_t a = G.isquiet ? 120 : G.p_any, s = G.isquiet ? 10 : G.p_sync;
    uint64_t d = around(a);
    c->next_pts = d >= UINT32_MAX - c->pts ? UINT32_MAX : c->pts + (uint32_t) d;
    c->cdsync = s ? (int64_t) around(s) : INT64_MAX;
    if (c->hold_pts && c->hold_pts < c->next_pts) c->next_pts = c->hold_pts;
}
static Fiber *random_pick(Fiber *dflt)
{
    if (G.strat == 1 && !G.isquiet) {
        Fiber *b = nullptr;
        for (int i = 0; i < G.nf; i++)
            if (fibers[i].st == RUNNABLE && (!b || fibers[i].prio > b->prio)) b = &fibers[i];
        return b;
    }
    if (G.strat == 2 && !G.isquiet && G.rng.below(8)) return dflt;
    int tot = 0;
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].st == RUNNABLE) tot += G.isquiet ? 1 : fibers[i].weight;
    int r = (int) G.rng.below(tot);
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].st == RUNNABLE) {
            r -= G.isquiet ? 1 : fibers[i].weight;
            if (r < 0) return &fibers[i];
        }
    return dflt;
}
enum Why { TRIG, FORCED, YIELD, BLK, END };

static void switch_to(Fiber *n)
{
    Fiber *c = G.cur;
    if (n == c) return;
    Result &r = G.sh->r;
    r.switches++;
    r.hash = mix(mix(r.hash, ((uint64_t) c->id << 40) | c->pts), n->id);
    r.shash = mix(r.shash, ((uint64_t) c->id << 40) ^ ((uint64_t) n->id << 32) ^ c->pts);
    if (G.trace) tracef("switch T%d(%s) -> T%d(%s)", c->id, c->name, n->id, n->name);
    G.cur = n;
    G.idle_yields = 0;
    set_fs(n->fs);
    ksim_switch(&c->sp, n->sp);
    // running again as c
}

static void reschedule(Why why)
{
    Fiber *c = G.cur;
    if (why != TRIG) c->pts++, c->quantum = 0, G.steps += 16;
    check_budget();
    bool stalled = false;
    if (c->hold_pts && why == TRIG && c->pts >= c->hold_pts) {
        c->hold_pts = 0;
        if (!G.isquiet) {
            c->st = BLOCKED;
            c->waitaddr = nullptr;
            c->waitwhat = "stalled";
            c->deadline = G.now + c->hold_ns;
            c->wallclock = false;
            c->spur_timer = false;
            c->waitseq = ++G.waitseq;
            c->held = stalled = true;
            G.sh->r.faults[F_STALL]++;
            tracef("fault thread_stall (targeted) up to %.1fus", c->hold_ns / 1000.0);
        }
    }
    // replay: overrides for this point
    Fiber *ovpick = nullptr;
    if (G.replay) {
        const Override *o = G.ovs[c->id][0];
        int n = G.novs[c->id][0];
        int k = c->ovS;
        while (k < n && o[k].idx < c->pts)
            k++;
        for (; k < n && o[k].idx == c->pts; k++) {
            if (o[k].stream == 'C' && !G.isquiet) {
                jump_wall(o[k].val);
                G.sh->r.faults[F_CLOCKJUMP]++;
            }
            if (o[k].stream == 'T' && why == TRIG && !G.isquiet && !stalled) {
                c->st = BLOCKED;
                c->waitaddr = nullptr;
                c->waitwhat = "stalled";
                c->deadline = G.now + o[k].val;
                c->wallclock = false;
                c->spur_timer = false;
                c->waitseq = ++G.waitseq;
                stalled = true;
                G.sh->r.faults[F_STALL]++;
                tracef("fault thread_stall %.1fus", o[k].val / 1000.0);
            }
            if (o[k].stream == 'S' && o[k].val >= 0 && o[k].val < G.nf) ovpick = &fibers[o[k].val];
        }
    } else if (why == TRIG && !G.isquiet) {
        if (G.strat == 1) c->prio = --G.lowprio;
        if ((G.enabled >> F_CLOCKJUMP & 1) && G.rng.below(60) == 0) {
            static const int64_t mags[] = {1000, 1000000, 50000000, 1000000000, 60000000000LL, 3600000000000LL,
                                           86400000000000LL};
            int64_t d = mags[G.rng.below(7)];
            d = d / 2 + (int64_t) G.rng.below(d);
            if (G.rng.below(2)) d = -d;
            record('C', c->id, c->pts, d);
            jump_wall(d);
            G.sh->r.faults[F_CLOCKJUMP]++;
        }
        if (!stalled && (G.enabled >> F_STALL & 1) && (int) G.rng.below(1000) < G.stall_pm) {
            int64_t mag = 1000;
            for (uint64_t k = G.rng.below(6); k; k--)
                mag *= 10;
            int64_t d = mag / 2 + (int64_t) G.rng.below(mag);
            record('T', c->id, c->pts, d);
            c->st = BLOCKED;
            c->waitaddr = nullptr;
            c->waitwhat = "stalled";
            c->deadline = G.now + d;
            c->wallclock = false;
            c->spur_timer = false;
            c->waitseq = ++G.waitseq;
            stalled = true;
            G.sh->r.faults[F_STALL]++;
            tracef("fault thread_stall %.1fus", d / 1000.0);
        }
    }
    if (stalled) why = BLK;
    Fiber *dflt;
    bool expired = false;
    for (;;) {
        expired |= expire_timers();
        if (why == TRIG) {
            dflt = c;
            break;
        }
        dflt = rr_next(c);
        if (!dflt && c->st == RUNNABLE) dflt = c;
        if (dflt) break;
        int64_t t = NEVER;
        for (int i = 0; i < G.nf; i++)
            if (fibers[i].st == BLOCKED) {
                int64_t e = eff_deadline(fibers[i]);
                if (e < t) t = e;
            }
        if (t == NEVER) deadlock();
        if (t > G.now) G.now = t;
    }
    if (why == YIELD || why == FORCED) {
        // spinning: simulated time has to pass for somebody else to act
        G.idle_yields++;
        int64_t adv;
        if (dflt == c) {
            uint64_t k = G.idle_yields < 14 ? G.idle_yields : 14;
            adv = (why == FORCED ? 20000 : 1000) << (k / 2);
        } else
            adv = why == FORCED ? 5000 : 300;
        if (G.spun < 2000) G.spun++;
        adv += (int64_t) G.spun * (why == FORCED ? 200 : 20);
        int64_t t = NEVER;
        for (int i = 0; i < G.nf; i++)
            if (fibers[i].st == BLOCKED) {
                int64_t e = eff_deadline(fibers[i]);
                if (e < t) t = e;
            }
        if (t != NEVER && t > G.now && G.now + adv > t) adv = t - G.now;
        G.now += adv;
        if (expire_timers() && dflt == c) {
            Fiber *d2 = rr_next(c);
            if (d2) dflt = d2;
        }
    } else if (why == BLK || why == END)
        G.spun = 0;
    Fiber *n = dflt;
    if (G.replay) {
        if (ovpick && ovpick->st == RUNNABLE) n = ovpick;
    } else if (why == FORCED) {
        c->prio = --G.lowprio; // starvation bound: round robin
    } else if (why == YIELD && G.strat == 1 && !G.isquiet) {
        c->prio = --G.lowprio;
        n = random_pick(dflt);
    } else {
        n = random_pick(dflt);
        if (why == YIELD && n == c && G.rng.below(4)) n = dflt;
    }
    // a replay has to look at the timers at this point too if they mattered
    if ((n != dflt || (why == TRIG && expired)) && !G.replay) record('S', c->id, c->pts, n->id);
    if (n != c && why == TRIG) G.sh->r.preempts++;
    arm(c);
    if (n != c) {
        c->quantum = 0;
        switch_to(n);
    }
}

static void slow_tick(Fiber *c, bool trig)
{
    if (G.steps > G.max_total && !G.forced) force_quiet();
    if (G.steps >= G.next_sb_due) sb_drain_due();
    if (c->quantum >= Q)
        reschedule(FORCED);
    else if (trig)
        reschedule(TRIG);
    else
        check_budget();
}
static inline void tick(Fiber *c, bool sync)
{
    G.steps++;
    G.now += sync ? 12 : 2;
    c->pts++;
    c->quantum += sync ? 4 : 1;
    bool trig = c->pts >= c->next_pts;
    if (sync && --c->cdsync <= 0) trig = true;
    if (__builtin_expect(trig || c->quantum >= Q || G.steps >= G.next_due, 0)) slow_tick(c, trig);
}
void sync_tick()
{
    Fiber *c = G.cur;
    if (c->nopre) return;
    tick(c, true);
}
void yield_tick()
{
    Fiber *c = G.cur;
    if (c->nopre) return;
    sb_drain(c);
    tick(c, true);
    reschedule(YIELD);
}
void hold_after(unsigned points, int64_t max_ns)
{
    Fiber *c = G.cur;
    c->hold_pts = c->pts + (points ? points : 1);
    c->hold_ns = max_ns;
    if (c->hold_pts < c->next_pts) c->next_pts = c->hold_pts;
}
void hold_cancel() { G.cur->hold_pts = 0; }
bool held(int id) { return id < G.nf && fibers[id].held && fibers[id].st == BLOCKED; }
void release(int id)
{
    Fiber &f = fibers[id];
    if (f.held && f.st == BLOCKED) f.st = RUNNABLE;
    f.held = false;
}
void jump_wall(int64_t d)
{
    G.walloff += d;
    if (G.walloff < -WALL0 / 2) G.walloff = -WALL0 / 2;
    tracef("fault wall_clock_jump %.6fs", d / 1e9);
}

int block(const void *addr, const char *what, int64_t deadline, bool wallclock, bool spurious_ok)
{
    Fiber *c = G.cur;
    sb_drain(c);
    if (c->nopre) fail("harness-error", "blocking in %s inside a NoPreempt section", what);
    c->st = BLOCKED;
    c->waitaddr = addr;
    c->waitwhat = what;
    c->deadline = deadline;
    c->wallclock = wallclock;
    c->spur_timer = false;
    c->oversleep = 0;
    c->reason = W_WOKEN;
    c->waitseq = ++G.waitseq;
    c->blockstep = G.steps;
    if (deadline != NEVER && fault(F_OVERSLEEP, 1, 6)) {
        int64_t mag = 1000;
        for (int64_t k = fault_val(F_OVERSLEEP, 5); k; k--)
            mag *= 10;
        c->deadline += mag;
        c->oversleep = mag;
    }
    if (spurious_ok && fault(F_SPURIOUS, 1, 4)) {
        int64_t mag = 100;
        for (int64_t k = fault_val(F_SPURIOUS, 5); k; k--)
            mag *= 10;
        if (!(c->deadline != NEVER && eff_deadline(*c) < G.now + mag)) {
            c->deadline = G.now + mag;
            c->wallclock = false;
            c->spur_timer = true;
        }
    }
    G.idle_yields = 0;
    reschedule(BLK);
    c->waitaddr = nullptr;
    return c->reason;
}
void wake_addr(const void *addr, int n, bool dopick)
{
    while (n > 0) {
        Fiber *w[MAXF];
        int k = 0;
        for (int i = 0; i < G.nf; i++)
            if (fibers[i].st == BLOCKED && fibers[i].waitaddr == addr) w[k++] = &fibers[i];
        if (!k) return;
        // oldest first
        for (int i = 1; i < k; i++)
            for (int j = i; j > 0 && w[j]->waitseq < w[j - 1]->waitseq; j--) {
                Fiber *t = w[j];
                w[j] = w[j - 1];
                w[j - 1] = t;
            }
        int x = dopick && k > 1 && n < k ? (int) pick(k) : 0;
        w[x]->st = RUNNABLE;
        w[x]->reason = W_WOKEN;
        w[x]->waitaddr = nullptr;
        if (G.strat == 1 && !G.replay && w[x]->prio > G.cur->prio) G.cur->next_pts = G.cur->pts + 1;
        n--;
        G.idle_yields = 0;
        G.spun = 0;
    }
}

// ---------------------------------------------------------------- decisions
static bool lookup(Fiber *c, int grp, int &cur, uint32_t idx, int64_t &val)
{
    const Override *o = G.ovs[c->id][grp];
    int n = G.novs[c->id][grp];
    while (cur < n && o[cur].idx < idx)
        cur++;
    if (cur < n && o[cur].idx == idx) {
        val = o[cur].val;
        return true;
    }
    return false;
}
static int64_t last_fault_val;
constexpr int FAULT_BITS = 56; // of a recorded fault draw: its value, and above it the kind of fault
bool fault(Fault k, int num, int den)
{
    if (!G.active) return false;
    Fiber *c = G.cur;
    c->fidx++;
    if (G.isquiet) return false;
    int64_t v = 0;
    if (G.replay) {
        // the decision says which kind it was: leaving others out may have shifted the draws
        if (!lookup(c, 1, c->ovF, c->fidx, v) || v >> FAULT_BITS != (int64_t) k) return false;
    } else {
        if (!(G.enabled >> k & 1)) return false;
        if ((int) G.rng.below(den) >= num) return false;
        v = (int64_t) (G.rng.next() >> (64 - FAULT_BITS)) | (int64_t) k << FAULT_BITS;
        record('F', c->id, c->fidx, v);
    }
    v &= ((int64_t) 1 << FAULT_BITS) - 1;
    last_fault_val = v;
    G.sh->r.faults[k]++;
    hash_event(0xFA0000 + k, v);
    tracef("fault %s", fault_names[k]);
    return true;
}
int64_t fault_val(Fault, int64_t n)
{
    int64_t v = last_fault_val % n;
    last_fault_val = (int64_t) (mix(last_fault_val, 77) >> 1);
    return v;
}
int choose(int n)
{
    if (!G.active) return 0;
    Fiber *c = G.cur;
    c->widx++;
    if (n <= 1) return 0;
    int64_t v = 0;
    if (G.replay) {
        if (!lookup(c, 2, c->ovW, c->widx, v)) v = 0;
        if (v >= n) v = n - 1;
    } else {
        v = (int64_t) G.rng.below(n);
        if (v) record('W', c->id, c->widx, v);
    }
    hash_event(0xC0, v);
    return (int) v;
}
bool chance(int num, int den)
{
    int v = choose(den);
    return v != 0 && den - v <= num; // v==0 (simplest) is false unless num==den
}
int64_t pick(int64_t n) { return choose((int) n); }
void enable(Fault k, int permille)
{
    // decided outside the workload stream: recorded as a workload choice 0/1
    if (chance(permille >= 1000 ? 999 : permille, 1000)) {
        G.enabled |= 1u << k;
        if (k == F_MEMREUSE) G.reuse = true;
        if (k == F_STALL && !G.replay) {
            static const int pm[] = {5, 20, 80, 250};
            G.stall_pm = pm[G.rng.below(4)];
        }
    }
}
bool enabled(Fault k) { return G.enabled >> k & 1; }
void set_budget(uint64_t q, uint64_t t)
{
    G.max_quiet = q;
    G.max_total = t;
    sb_recompute();
}
void quiet()
{
    for (int i = 0; i < G.nf; i++)
        sb_drain(&fibers[i]);
    G.isquiet = true;
    G.qsteps = G.steps;
    tracef("-- faults stop, fair scheduling --");
    if (!G.replay)
        for (int i = 0; i < G.nf; i++)
            arm(&fibers[i]);
    // long stalls end now
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].st == BLOCKED && fibers[i].waitaddr == nullptr && fibers[i].waitwhat
            && !strcmp(fibers[i].waitwhat, "stalled")) {
            fibers[i].deadline = G.now;
        } else if (fibers[i].st == BLOCKED && fibers[i].oversleep && !fibers[i].spur_timer) {
            fibers[i].deadline -= fibers[i].oversleep;
            fibers[i].oversleep = 0;
        }
}
void unquiet()
{
    if (!G.forced) G.isquiet = false;
}
bool alloc_faults(bool on)
{
    bool was = G.cur->allocfault;
    G.cur->allocfault = on;
    return was;
}
void describe(const char *fmt, ...)
{
    if (!G.active) return;
    va_list ap;
    va_start(ap, fmt);
    size_t n = strlen(G.sh->r.desc);
    vsnprintf(G.sh->r.desc + n, sizeof G.sh->r.desc - n, fmt, ap);
    va_end(ap);
}
void log(const char *fmt, ...)
{
    if (!G.active) return;
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < n && i < (int) sizeof buf - 1; i++)
        h = (h ^ (uint8_t) buf[i]) * 1099511628211ULL;
    hash_event(h, G.cur->id);
    tracef("%s", buf);
}
void probe(const char *name)
{
    if (!G.active) return;
    Result &r = G.sh->r;
    for (int i = 0; i < r.nprobe; i++)
        if (!strcmp(r.probes[i], name)) return;
    if (r.nprobe < 64) r.probes[r.nprobe++] = name;
}
uint64_t step() { return G.steps; }
int64_t now_ns() { return G.now; }
int64_t wall_ns() { return WALL0 + G.now + G.walloff; }
void advance(int64_t ns)
{
    if (G.active) block(nullptr, "sleep", G.now + ns, false, false);
}
void point()
{
    if (G.active) sync_tick();
}
int self() { return G.cur ? G.cur->id : -1; }
int live_threads()
{
    int n = 0;
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].st != DONE) n++;
    return n;
}
int thread_count() { return G.nf; }
void name_thread(const char *n) { snprintf(G.cur->name, sizeof G.cur->name, "%s", n); }
NoPreempt::NoPreempt()
{
    if (G.active) G.cur->nopre++;
}
NoPreempt::~NoPreempt()
{
    if (G.active) G.cur->nopre--;
}

// ---------------------------------------------------------------- threads
[[gnu::noinline]] static void fiber_exit(void *ret)
{
    Fiber *c = G.cur;
    while (c->ndtors > 0) {
        c->ndtors--;
        c->dtors[c->ndtors].f(c->dtors[c->ndtors].o);
    }
    c->ret = ret;
    sb_drain(c);
    if (c->nopre) fail("harness-error", "thread ends inside NoPreempt");
    hb_release_obj(c);
    c->st = DONE;
    wake_addr(c, MAXF, false);
    if (c->id == 0) finish(1);
    reschedule(END);
    __builtin_trap();
}
extern "C" void ksim_fiber_main() noexcept
{
    Fiber *c = G.cur;
    if (c->id != 0 && fault(F_SLOWSTART, 1, 3)) {
        int64_t mag = 1000;
        for (int64_t k = fault_val(F_SLOWSTART, 6); k; k--)
            mag *= 10;
        mag += fault_val(F_SLOWSTART, mag);
        block(nullptr, "stalled", G.now + mag, false, false);
    }
    void *r = c->fn(c->arg);
    fiber_exit(r);
}
static Fiber *new_fiber(void *(*fn)(void *), void *arg)
{
    if (G.nf >= MAXF) inconclusive("too many threads");
    int id = G.nf;
    Fiber *f = &fibers[id];
    memset((void *) f, 0, sizeof *f);
    f->id = id;
    f->st = RUNNABLE;
    f->fs = slot_fs[id];
    f->fn = fn;
    f->arg = arg;
    f->deadline = NEVER;
    f->weight = 1;
    snprintf(f->name, sizeof f->name, "t%d", id);
    if (!G.replay) {
        static const int ws[] = {1, 1, 2, 4, 16};
        f->weight = ws[G.rng.below(5)];
        f->prio = (int64_t) G.rng.below(1000000);
    }
    uintptr_t top = slot_top[id] & ~15ULL;
    uint64_t *sp = (uint64_t *) top;
    *--sp = 0;                          // fake return address: end of stack
    *--sp = (uint64_t) &ksim_fiber_main; // ret target; rsp%16==8 at entry
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    --sp;
    uint32_t mx = 0x1f80;
    uint16_t cw = 0x37f;
    memcpy(sp, &mx, 4);
    memcpy((char *) sp + 4, &cw, 2);
    f->sp = sp;
    G.nf++;
    arm(f);
    return f;
}
// Each simulated thread needs its own TLS block: borrow those of real, parked threads.
static volatile int dummy_ready;
static void *dummy(void *p)
{
    int id = (int) (intptr_t) p;
    char here;
    slot_fs[id] = (uint64_t) __builtin_thread_pointer();
    slot_top[id] = (uintptr_t) &here - 16384;
    __atomic_fetch_add(&dummy_ready, 1, __ATOMIC_SEQ_CST);
    for (;;)
        raw_syscall(SYS_pause);
}
void runtime_init_process()
{
    arena_init();
    disk::init_process();
    have_fsgs = getauxval(AT_HWCAP2) & 2;
    auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *) ) dlsym(RTLD_NEXT, "pthread_create");
    for (int i = 0; i < MAXF; i++) {
        void *s = mmap((void *) (STACK_BASE + i * (STACK_SZ + 65536)), STACK_SZ, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, s, STACK_SZ);
        pthread_t t;
        int before = dummy_ready;
        if (real(&t, &a, dummy, (void *) (intptr_t) i)) {
            static const char m[] = "ksim: cannot create slot threads\n";
            raw_syscall(SYS_write, 2, (long) m, sizeof m - 1);
            raw_syscall(SYS_exit_group, 3);
        }
        while (__atomic_load_n(&dummy_ready, __ATOMIC_SEQ_CST) == before)
            raw_syscall(SYS_sched_yield);
    }
}
static void on_signal(int sig)
{
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE"
                  : sig == SIGILL ? "SIGILL" : "SIGABRT";
    fail("crash", "%s in thread %d (%s)", n, G.cur ? G.cur->id : -1, G.cur ? G.cur->name : "");
}
static void on_terminate()
{
    char what[300] = "no exception";
    if (std::exception_ptr e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception &x) {
            snprintf(what, sizeof what, "exception: %s", x.what());
        } catch (...) {
            snprintf(what, sizeof what, "unknown exception");
        }
    }
    fail("terminate", "std::terminate in thread %d (%s): %s", G.cur->id, G.cur->name, what);
}
static ScenarioFn main_fn;
static void *main_tramp(void *)
{
    main_fn();
    return nullptr;
}
static char altstack[65536];

// Runs in a forked child; never returns.
int run_scenario(Shared *sh, ScenarioFn fn, const char *name, uint64_t seed, const Override *ov, int nov,
                 bool replay, bool trace)
{
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
        sigaction(s, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = 30; // of its own: the machine may be busy with something else
    raw_syscall(SYS_setitimer, ITIMER_VIRTUAL, (long) &it, 0);
    it.it_value.tv_sec = 200;
    raw_syscall(SYS_setitimer, ITIMER_REAL, (long) &it, 0);
    std::set_terminate(on_terminate);
    memset((void *) &G, 0, sizeof G);
    memset((void *) &sh->r, 0, sizeof sh->r);
    G.sh = sh;
    G.seed = seed;
    G.scenario = sh->r.scenario = name;
    G.replay = replay;
    G.trace = trace;
    G.rng.seed(seed);
    G.forced = false;
    G.next_sb_due = UINT64_MAX;
    G.max_quiet = 400000;
    G.max_total = 1500000;
    G.next_due = G.max_total + 1;
    G.stall_pm = 20;
    memset(freelist, 0, sizeof freelist);
    // The run's heap starts at the same address, in untouched pages, whatever the driver has allocated so far: even a
    // wild access behaves the same in every repetition.
    if (bump < RUN_HEAP) bump = RUN_HEAP;
    static const uint64_t pa[] = {0, 15, 50, 200, 1000, 0, 60};
    static const uint64_t ps[] = {2, 3, 6, 12, 30, 100, 8};
    G.p_any = pa[G.rng.below(7)];
    G.p_sync = ps[G.rng.below(7)];
    uint64_t st = G.rng.below(10);
    G.strat = st < 6 ? 0 : st < 9 ? 1 : 2;
    if (G.strat == 1) { // few change points
        static const uint64_t pc[] = {30, 100, 400, 2000};
        G.p_any = pc[G.rng.below(4)];
        G.p_sync = pc[G.rng.below(4)];
    }
    if (replay) {
        static Override *sorted = (Override *) mmap(nullptr, sizeof(Override) * (nov + 1), PROT_READ | PROT_WRITE,
                                                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        int k = 0;
        for (int f = 0; f < MAXF; f++)
            for (int g = 0; g < 3; g++) {
                G.ovs[f][g] = sorted + k;
                int base = k;
                for (int i = 0; i < nov; i++) {
                    char s = ov[i].stream;
                    int gg = (s == 'S' || s == 'T' || s == 'C') ? 0 : s == 'F' ? 1 : 2;
                    if (ov[i].fiber == f && gg == g) sorted[k++] = ov[i];
                }
                G.novs[f][g] = k - base;
            }
    }
    main_fn = fn;
    Fiber *f = new_fiber(main_tramp, nullptr);
    snprintf(f->name, sizeof f->name, "main");
    for (int i = 0; i < MAXF; i++)
        fibers[i].vc.c[i] = 1;
    G.cur = f;
    if (getenv("KSIM_RACES")) races(true);
    G.active = true;
    void *dead;
    set_fs(f->fs);
    ksim_switch(&dead, f->sp);
    __builtin_trap();
}
} // namespace ksim

using namespace ksim;

// ================================================================= instrumentation callbacks
static inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, bool w)
{
    const void *pc = __builtin_return_address(0);
    if (!G.active) return;
    check_mem(a, n, w);
    Fiber *c = G.cur;
    if (__builtin_expect(G.next_sb_due != UINT64_MAX, 0)) flush_range(a, a + n);
    if (c->nopre) return;
    tick(c, false);
    // the access happens when this callback returns: the block must still be live
    check_mem(a, n, w);
    RACES(a, n, w, pc);
    if (__builtin_expect(G.next_sb_due != UINT64_MAX, 0)) flush_range(a, a + n);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void *a) { acc((uintptr_t) a, N, false); } \
    void __tsan_write##N(void *a) { acc((uintptr_t) a, N, true); } \
    void __tsan_unaligned_read##N(void *a) { acc((uintptr_t) a, N, false); } \
    void __tsan_unaligned_write##N(void *a) { acc((uintptr_t) a, N, true); } \
    void __tsan_volatile_read##N(void *a) { acc((uintptr_t) a, N, false); } \
    void __tsan_volatile_write##N(void *a) { acc((uintptr_t) a, N, true); } \
    void __tsan_unaligned_volatile_read##N(void *a) { acc((uintptr_t) a, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *a) { acc((uintptr_t) a, N, true); } \
    void __tsan_read_write##N(void *a) { acc((uintptr_t) a, N, true); } \
    void __tsan_unaligned_read_write##N(void *a) { acc((uintptr_t) a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **a) { acc((uintptr_t) a, 8, false); }
// (a destructor that stores the pointer that is already there changes nothing)
void __tsan_vptr_update(void **a, void *v) { acc((uintptr_t) a, 8, !G.races || *a != v); }
void __tsan_read_range(void *a, size_t n) { if (n) acc((uintptr_t) a, n, false); }
void __tsan_write_range(void *a, size_t n) { if (n) acc((uintptr_t) a, n, true); }

static inline __attribute__((always_inline)) void range_copy(char *d, const char *s, size_t n)
{
    const void *pc = __builtin_return_address(0);
    if (!G.active || !n) {
        memmove(d, s, n);
        return;
    }
    check_mem((uintptr_t) s, n, false);
    check_mem((uintptr_t) d, n, true);
    flush_range((uintptr_t) s, (uintptr_t) s + n);
    flush_range((uintptr_t) d, (uintptr_t) d + n);
    Fiber *c = G.cur;
    if (c->nopre || n <= 8 || d == s || (d < s + n && s < d + n)) {
        if (!c->nopre) {
            tick(c, false);
            RACES(s, n, false, pc);
            RACES(d, n, true, pc);
        }
        memmove(d, s, n);
        return;
    }
    size_t chunk = n / 8;
    chunk = chunk < 8 ? 8 : (chunk + 7) & ~size_t(7);
    for (size_t o = 0; o < n; o += chunk) {
        tick(c, false);
        size_t k = n - o < chunk ? n - o : chunk;
        check_mem((uintptr_t) s + o, k, false);
        check_mem((uintptr_t) d + o, k, true);
        RACES(s + o, k, false, pc);
        RACES(d + o, k, true, pc);
        memmove(d + o, s + o, k);
    }
}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    range_copy((char *) d, (const char *) s, n);
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    range_copy((char *) d, (const char *) s, n);
    return d;
}
void *__tsan_memset(void *d, int v, size_t n)
{
    if (G.active && n) acc((uintptr_t) d, n, true);
    return memset(d, v, n);
}

// ---- atomics
} // extern "C"
template<class T>
static T at_load(const volatile T *p, int mo)
{
    if (!G.active) return *p;
    check_mem((uintptr_t) p, sizeof(T), false);
    Fiber *c = G.cur;
    sync_tick();
    check_mem((uintptr_t) p, sizeof(T), false);
    if (__builtin_expect(c->nsb, 0)) {
        for (int k = c->nsb - 1; k >= 0; k--) {
            SbEntry &e = c->sb[k];
            if (e.addr == (uintptr_t) p && e.size == sizeof(T)) {
                T v;
                memcpy(&v, &e.val, sizeof v > 8 ? 8 : sizeof v);
                return v;
            }
            if (e.addr < (uintptr_t) p + sizeof(T) && e.addr + e.size > (uintptr_t) p) {
                sb_drain(c);
                break;
            }
        }
    }
    T v = *p;
    hb_load((uintptr_t) p, mo);
    return v;
}
template<class T>
static void at_store(volatile T *p, T v, int mo)
{
    if (!G.active) {
        *p = v;
        return;
    }
    check_mem((uintptr_t) p, sizeof(T), true);
    Fiber *c = G.cur;
    sync_tick();
    check_mem((uintptr_t) p, sizeof(T), true);
    VC vc;
    bool onstack = (uintptr_t) p - STACK_BASE < MAXF * (STACK_SZ + 65536);
    if (mo != __ATOMIC_SEQ_CST && sizeof(T) <= 8 && !onstack && !c->nopre && c->nsb < SBMAX
        && fault(F_STOREBUF, 1, 3)) {
        static const int mags[] = {3, 12, 50, 200, 600};
        uint64_t d = 1 + fault_val(F_STOREBUF, mags[fault_val(F_STOREBUF, 5)]);
        SbEntry &e = c->sb[c->nsb];
        e.addr = (uintptr_t) p;
        e.size = sizeof(T);
        e.val = 0;
        memcpy(&e.val, &v, sizeof v > 8 ? 8 : sizeof v);
        e.due = G.steps + d;
        if (c->nsb && c->sb[c->nsb - 1].due > e.due) e.due = c->sb[c->nsb - 1].due;
        e.hasvc = hb_store_vc((uintptr_t) p, mo, e.vc);
        c->nsb++;
        sb_recompute();
        return;
    }
    sb_drain(c);
    hb_store_vc((uintptr_t) p, mo, vc);
    *p = v;
    hb_store_apply((uintptr_t) p, c->id, mo, vc);
}
template<class T, class F>
static T at_rmw(volatile T *p, int mo, F f)
{
    if (!G.active) {
        T o = *p;
        *p = f(o);
        return o;
    }
    check_mem((uintptr_t) p, sizeof(T), true);
    sync_tick();
    check_mem((uintptr_t) p, sizeof(T), true);
    sb_drain(G.cur);
    T o = *p;
    *p = f(o);
    hb_rmw((uintptr_t) p, mo);
    return o;
}
template<class T>
static bool at_cas(volatile T *p, T *exp, T v, int mo, int fmo, bool weak)
{
    if (!G.active) {
        if (*p == *exp) {
            *p = v;
            return true;
        }
        *exp = *p;
        return false;
    }
    check_mem((uintptr_t) p, sizeof(T), true);
    sync_tick();
    check_mem((uintptr_t) p, sizeof(T), true);
    sb_drain(G.cur);
    T o = *p;
    if (!memcmp(&o, exp, sizeof o) && !(weak && !G.cur->nopre && fault(F_WEAKCAS, 1, 6))) {
        *p = v;
        hb_rmw((uintptr_t) p, mo);
        return true;
    }
    hb_load((uintptr_t) p, fmo);
    *exp = o;
    return false;
}
extern "C" {
typedef uint8_t a8;
typedef uint16_t a16;
typedef uint32_t a32;
typedef uint64_t a64;
typedef unsigned __int128 a128;
#define AT(N) \
    a##N __tsan_atomic##N##_load(const volatile a##N *p, int mo) { return at_load(p, mo); } \
    void __tsan_atomic##N##_store(volatile a##N *p, a##N v, int mo) { at_store(p, v, mo); } \
    a##N __tsan_atomic##N##_exchange(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N) { return v; }); } \
    a##N __tsan_atomic##N##_fetch_add(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N)(o + v); }); } \
    a##N __tsan_atomic##N##_fetch_sub(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N)(o - v); }); } \
    a##N __tsan_atomic##N##_fetch_and(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N)(o & v); }); } \
    a##N __tsan_atomic##N##_fetch_or(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N)(o | v); }); } \
    a##N __tsan_atomic##N##_fetch_xor(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N)(o ^ v); }); } \
    a##N __tsan_atomic##N##_fetch_nand(volatile a##N *p, a##N v, int mo) { return at_rmw(p, mo, [=](a##N o) { return (a##N) ~(o & v); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile a##N *p, a##N *e, a##N v, int mo, int f) { return at_cas(p, e, v, mo, f, false); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile a##N *p, a##N *e, a##N v, int mo, int f) { return at_cas(p, e, v, mo, f, true); } \
    a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N *p, a##N e, a##N v, int mo, int f) { at_cas(p, &e, v, mo, f, false); return e; }
AT(8) AT(16) AT(32) AT(64) AT(128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!G.active) return;
    sync_tick();
    Fiber *c = G.cur;
    if (mo == __ATOMIC_SEQ_CST) sb_drain(c);
    if (is_acq(mo)) c->vc.join(c->acqp);
    if (is_rel(mo)) {
        c->relf = c->vc;
        c->vc.c[c->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

}

// ---- libatomic entry points: clang calls these for small structs whose type is under-aligned
template<class F>
static void by_size(size_t n, F f)
{
    switch (n) {
    case 1: f((uint8_t) 0); break;
    case 2: f((uint16_t) 0); break;
    case 4: f((uint32_t) 0); break;
    case 8: f((uint64_t) 0); break;
    case 16: f((unsigned __int128) 0); break;
    default: fail("harness-error", "atomic operation on an object of %zu bytes", n);
    }
}
extern "C" {
void ka_load(size_t n, const volatile void *p, void *r, int mo) asm("__atomic_load");
void ka_store(size_t n, volatile void *p, void *v, int mo) asm("__atomic_store");
void ka_exchange(size_t n, volatile void *p, void *v, void *r, int mo) asm("__atomic_exchange");
bool ka_cas(size_t n, volatile void *p, void *e, void *d, int mo, int fmo) asm("__atomic_compare_exchange");
void ka_load(size_t n, const volatile void *p, void *r, int mo)
{
    by_size(n, [&](auto z) {
        auto v = at_load((const volatile decltype(z) *) p, mo);
        memcpy(r, &v, sizeof v);
    });
}
void ka_store(size_t n, volatile void *p, void *v, int mo)
{
    by_size(n, [&](auto z) {
        memcpy(&z, v, sizeof z);
        at_store((volatile decltype(z) *) p, z, mo);
    });
}
void ka_exchange(size_t n, volatile void *p, void *v, void *r, int mo)
{
    by_size(n, [&](auto z) {
        memcpy(&z, v, sizeof z);
        auto o = at_rmw((volatile decltype(z) *) p, mo, [=](decltype(z)) { return z; });
        memcpy(r, &o, sizeof o);
    });
}
bool ka_cas(size_t n, volatile void *p, void *e, void *d, int mo, int fmo)
{
    bool ok = false;
    by_size(n, [&](auto z) {
        memcpy(&z, d, sizeof z);
        decltype(z) ex;
        memcpy(&ex, e, sizeof ex);
        ok = at_cas((volatile decltype(z) *) p, &ex, z, mo, fmo, false);
        if (!ok) memcpy(e, &ex, sizeof ex);
    });
    return ok;
}
#define KA(N, T) \
    T ka_load_##N(const volatile void *p, int mo) asm("__atomic_load_" #N); \
    T ka_load_##N(const volatile void *p, int mo) { return at_load((const volatile T *) p, mo); } \
    void ka_store_##N(volatile void *p, T v, int mo) asm("__atomic_store_" #N); \
    void ka_store_##N(volatile void *p, T v, int mo) { at_store((volatile T *) p, v, mo); } \
    T ka_exchange_##N(volatile void *p, T v, int mo) asm("__atomic_exchange_" #N); \
    T ka_exchange_##N(volatile void *p, T v, int mo) { return at_rmw((volatile T *) p, mo, [=](T) { return v; }); } \
    T ka_fetch_add_##N(volatile void *p, T v, int mo) asm("__atomic_fetch_add_" #N); \
    T ka_fetch_add_##N(volatile void *p, T v, int mo) { return at_rmw((volatile T *) p, mo, [=](T o) { return (T) (o + v); }); } \
    bool ka_cas_##N(volatile void *p, void *e, T d, int mo, int fmo) asm("__atomic_compare_exchange_" #N); \
    bool ka_cas_##N(volatile void *p, void *e, T d, int mo, int fmo) { return ka_cas(sizeof(T), p, e, &d, mo, fmo); }
KA(1, uint8_t)
KA(2, uint16_t)
KA(4, uint32_t)
KA(8, uint64_t)
KA(16, unsigned __int128)
}

extern "C" {
// ================================================================= heap
void *malloc(size_t n) { return arena_alloc(n, 16); }
void free(void *p) { arena_free(p); }
void cfree(void *p) { arena_free(p); }
void *calloc(size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) return nullptr;
    void *p = arena_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    if (!n) {
        free(p);
        return nullptr;
    }
    Hdr *h = (Hdr *) ((char *) p - 16);
    if (G.active && h->magic != 0xA110CA7E) fail("bad-free", "realloc of a pointer that is not live");
    void *q = arena_alloc(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    arena_free(p);
    return q;
}
void *memalign(size_t a, size_t n) { return arena_alloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return arena_alloc(n, a); }
void *valloc(size_t n) { return arena_alloc(n, 4096); }
int posix_memalign(void **o, size_t a, size_t n)
{
    *o = arena_alloc(n, a);
    return *o ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) { return p ? ((Hdr *) ((char *) p - 16))->size : 0; }
}
static void *op_new(size_t n, size_t al)
{
    if (G.active && G.cur->allocfault && fault(F_BADALLOC, 1, 12)) throw std::bad_alloc();
    void *p = arena_alloc(n, al);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, 16); }
void *operator new[](size_t n) { return op_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t) a); }
void operator delete(void *p) noexcept { arena_free(p); }
void operator delete[](void *p) noexcept { arena_free(p); }
void operator delete(void *p, size_t) noexcept { arena_free(p); }
void operator delete[](void *p, size_t) noexcept { arena_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { arena_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { arena_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { arena_free(p); }

// ================================================================= pthreads
static inline int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static int mutex_lock(pthread_mutex_t *m, bool try_, int64_t deadline, bool wall)
{
    if (!G.active) {
        m->__data.__lock++;
        return 0;
    }
    check_mem((uintptr_t) m, sizeof *m, true);
    sync_tick();
    Fiber *c = G.cur;
    sb_drain(c);
    for (;;) {
        check_mem((uintptr_t) m, sizeof *m, true);
        if (m->__data.__owner == 0) {
            m->__data.__owner = c->id + 1;
            m->__data.__count = 1;
            hb_acquire_obj(m);
            return 0;
        }
        if (m->__data.__owner == c->id + 1) {
            if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) {
                m->__data.__count++;
                return 0;
            }
            if (try_) return EBUSY;
            if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        } else if (try_)
            return EBUSY;
        if (block(m, "mutex lock", deadline, wall, false) == W_TIMEOUT && m->__data.__owner) return ETIMEDOUT;
    }
}
static int mutex_unlock(pthread_mutex_t *m)
{
    if (!G.active) {
        m->__data.__lock--;
        return 0;
    }
    check_mem((uintptr_t) m, sizeof *m, true);
    sync_tick();
    Fiber *c = G.cur;
    sb_drain(c);
    if (m->__data.__owner != c->id + 1) {
        if (mkind(m) != PTHREAD_MUTEX_NORMAL) return EPERM;
        fail("mutex-misuse", "thread %d unlocks a mutex it does not hold", c->id);
    }
    if (--m->__data.__count > 0) return 0;
    hb_release_obj(m);
    m->__data.__owner = 0;
    wake_addr(m, MAXF, false);
    return 0;
}
static int64_t ts2ns(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
constexpr int64_t MONO0 = 1000LL * 1000000000LL;
static int64_t sat(const struct timespec *t)
{
    if (t->tv_sec > 9000000000LL) return NEVER;
    return ts2ns(t);
}
static void abs_deadline(int clk, const struct timespec *t, int64_t &dl, bool &wall)
{
    int64_t v = sat(t);
    wall = clk == CLOCK_REALTIME;
    dl = v == NEVER ? NEVER : wall ? v : v - MONO0;
    if (v == NEVER) wall = false;
}
static int cond_wait(pthread_cond_t *cv, pthread_mutex_t *m, int64_t dl, bool wall)
{
    if (!G.active) return 0;
    check_mem((uintptr_t) cv, sizeof *cv, true);
    sync_tick();
    Fiber *c = G.cur;
    if (m->__data.__owner != c->id + 1)
        fail("mutex-misuse", "condition wait by thread %d without holding the mutex", c->id);
    unsigned cnt = m->__data.__count;
    hb_release_obj(m);
    m->__data.__owner = 0;
    m->__data.__count = 0;
    wake_addr(m, MAXF, false);
    int r = block(cv, "condition wait", dl, wall, true);
    for (;;) {
        if (m->__data.__owner == 0) break;
        block(m, "mutex lock", NEVER, false, false);
    }
    check_mem((uintptr_t) m, sizeof *m, true);
    m->__data.__owner = c->id + 1;
    m->__data.__count = cnt;
    hb_acquire_obj(m);
    return r == W_TIMEOUT ? ETIMEDOUT : 0;
}
static int cond_clock(pthread_cond_t *c) { return ((int *) c)[11]; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m);
    int k = 0;
    if (a) pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false, NEVER, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, true, NEVER, false); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t)
{
    int64_t d;
    bool w;
    abs_deadline(CLOCK_REALTIME, t, d, w);
    return mutex_lock(m, false, d, w);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
    int64_t d;
    bool w;
    abs_deadline(k, t, d, w);
    return mutex_lock(m, false, d, w);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { return mutex_unlock(m); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    memset(c, 0, sizeof *c);
    clockid_t k = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &k);
    ((int *) c)[11] = k;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *cv)
{
    if (!G.active) return 0;
    // POSIX: a thread that still waits (even one already notified) makes this undefined; glibc blocks.
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].st == BLOCKED && fibers[i].waitaddr == cv)
            fail("cond-destroyed", "condition variable destroyed while thread %d waits on it", i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, NEVER, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    int64_t d;
    bool w;
    abs_deadline(cond_clock(c), t, d, w);
    return cond_wait(c, m, d, w);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
    int64_t d;
    bool w;
    abs_deadline(k, t, d, w);
    return cond_wait(c, m, d, w);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!G.active) return 0;
    check_mem((uintptr_t) c, sizeof *c, true);
    sync_tick();
    drain_all_own();
    wake_addr(c, 1, true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!G.active) return 0;
    check_mem((uintptr_t) c, sizeof *c, true);
    sync_tick();
    drain_all_own();
    wake_addr(c, MAXF, false);
    return 0;
}

// rwlocks: state kept in the object: readers in __readers, writer in __cur_writer
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rwl(pthread_rwlock_t *l, bool wr, bool try_, int64_t dl, bool wall)
{
    if (!G.active) return 0;
    check_mem((uintptr_t) l, sizeof *l, true);
    sync_tick();
    Fiber *c = G.cur;
    drain_all_own();
    for (;;) {
        bool ok = wr ? !l->__data.__cur_writer && !l->__data.__readers : !l->__data.__cur_writer;
        if (ok) {
            if (wr) l->__data.__cur_writer = c->id + 1;
            else l->__data.__readers++;
            hb_acquire_obj(l);
            return 0;
        }
        if (try_) return EBUSY;
        if (l->__data.__cur_writer == c->id + 1) return EDEADLK;
        if (block(l, "rwlock", dl, wall, false) == W_TIMEOUT) return ETIMEDOUT;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rwl(l, false, false, NEVER, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rwl(l, true, false, NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rwl(l, false, true, NEVER, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rwl(l, true, true, NEVER, false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t k, const struct timespec *t)
{
    int64_t d; bool w;
    abs_deadline(k, t, d, w);
    return rwl(l, false, false, d, w);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t k, const struct timespec *t)
{
    int64_t d; bool w;
    abs_deadline(k, t, d, w);
    return rwl(l, true, false, d, w);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!G.active) return 0;
    check_mem((uintptr_t) l, sizeof *l, true);
    sync_tick();
    drain_all_own();
    hb_release_obj(l);
    if (l->__data.__cur_writer == G.cur->id + 1) l->__data.__cur_writer = 0;
    else if (l->__data.__readers) l->__data.__readers--;
    else fail("mutex-misuse", "rwlock unlocked while not held");
    wake_addr(l, MAXF, false);
    return 0;
}
// spin locks
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l)
{
    while (G.active) {
        sync_tick();
        if (!*l) { *l = 1; hb_acquire_obj((const void *) l); return 0; }
        yield_tick();
    }
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l)
{
    if (!G.active) return 0;
    sync_tick();
    if (*l) return EBUSY;
    *l = 1;
    hb_acquire_obj((const void *) l);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l)
{
    if (!G.active) return 0;
    sync_tick();
    drain_all_own();
    hb_release_obj((const void *) l);
    *l = 0;
    return 0;
}
// semaphores
int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); *(int *) s = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
static int semw(sem_t *s, int64_t dl, bool wall, bool try_)
{
    if (!G.active) return 0;
    sync_tick();
    drain_all_own();
    while (*(int *) s <= 0) {
        if (try_) { errno = EAGAIN; return -1; }
        if (block(s, "semaphore", dl, wall, false) == W_TIMEOUT) { errno = ETIMEDOUT; return -1; }
    }
    --*(int *) s;
    hb_acquire_obj(s);
    return 0;
}
int sem_wait(sem_t *s) { return semw(s, NEVER, false, false); }
int sem_trywait(sem_t *s) { return semw(s, NEVER, false, true); }
int sem_timedwait(sem_t *s, const struct timespec *t)
{
    int64_t d; bool w;
    abs_deadline(CLOCK_REALTIME, t, d, w);
    return semw(s, d, w, false);
}
int sem_post(sem_t *s)
{
    if (!G.active) return 0;
    sync_tick();
    drain_all_own();
    hb_release_obj(s);
    ++*(int *) s;
    wake_addr(s, 1, true);
    return 0;
}
int sem_getvalue(sem_t *s, int *v) { *v = *(int *) s; return 0; }

int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (!G.active) return EAGAIN;
    sync_tick();
    drain_all_own();
    if (fault(F_THREADFAIL, 1, 10)) return EAGAIN;
    Fiber *c = G.cur;
    Fiber *f = new_fiber(fn, arg);
    f->vc = c->vc;
    f->vc.c[f->id] = 1;
    c->vc.c[c->id]++;
    *t = (pthread_t) f->fs;
    tracef("create thread T%d", f->id);
    if (G.strat == 1 && !G.replay && f->prio > c->prio) c->next_pts = c->pts + 1;
    return 0;
}
static Fiber *by_handle(pthread_t t)
{
    for (int i = 0; i < G.nf; i++)
        if (fibers[i].fs == (uint64_t) t) return &fibers[i];
    return nullptr;
}
int pthread_join(pthread_t t, void **ret)
{
    if (!G.active) return 0;
    sync_tick();
    Fiber *f = by_handle(t);
    if (!f || f->detached || f->joined) return ESRCH;
    if (f == G.cur) return EDEADLK;
    while (f->st != DONE)
        block(f, "thread join", NEVER, false, false);
    f->joined = true;
    hb_acquire_obj(f);
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!G.active) return 0;
    sync_tick();
    Fiber *f = by_handle(t);
    if (!f || f->detached || f->joined) return ESRCH;
    f->detached = true;
    return 0;
}
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void))
{
    if (!G.active) {
        if (*o != 2) {
            f();
            *o = 2;
        }
        return 0;
    }
    sync_tick();
    for (;;) {
        if (*o == 2) {
            hb_acquire_obj(o);
            return 0;
        }
        if (*o == 0) break;
        block(o, "call_once", NEVER, false, false);
    }
    *o = 1;
    try {
        f();
    } catch (...) {
        *o = 0;
        wake_addr(o, MAXF, false);
        throw;
    }
    sb_drain(G.cur);
    *o = 2;
    hb_release_obj(o);
    wake_addr(o, MAXF, false);
    return 0;
}
// Initialisation of function-local statics: byte 0 tells the code that it is done, byte 1 that somebody is at it.
int __cxa_guard_acquire(unsigned char *g)
{
    if (!G.active) {
        if (g[0]) return 0;
        g[1] = 1;
        return 1;
    }
    sync_tick();
    for (;;) {
        if (g[0]) {
            hb_acquire_obj(g);
            return 0;
        }
        if (!g[1]) break;
        block(g, "static initialisation", NEVER, false, false);
    }
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(unsigned char *g)
{
    if (G.active) sb_drain(G.cur);
    g[0] = 1;
    g[1] = 0;
    if (!G.active) return;
    hb_release_obj(g);
    wake_addr(g, MAXF, false);
}
void __cxa_guard_abort(unsigned char *g)
{
    g[1] = 0;
    if (G.active) wake_addr(g, MAXF, false);
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *)
{
    if (!G.active) return 0;
    Fiber *c = G.cur;
    if (c->ndtors < 16) {
        c->dtors[c->ndtors].f = f;
        c->dtors[c->ndtors].o = o;
        c->ndtors++;
    }
    return 0;
}
int sched_yield()
{
    if (G.active) yield_tick();
    return 0;
}


// ================================================================= time
static int real_clock(clockid_t k, struct timespec *t)
{
    return (int) raw_syscall(SYS_clock_gettime, k, (long) t);
}
int clock_gettime(clockid_t k, struct timespec *t)
{
    if (!G.active) return real_clock(k, t);
    sync_tick();
    int64_t v = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? wall_ns() : MONO0 + G.now;
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec *rq, struct timespec *)
{
    if (!G.active) return 0;
    sync_tick();
    if (flags & TIMER_ABSTIME) {
        int64_t d;
        bool w;
        abs_deadline(k, rq, d, w);
        block(nullptr, "sleep", d, w, false);
    } else {
        int64_t v = sat(rq);
        block(nullptr, "sleep", v == NEVER ? NEVER : G.now + (v < 0 ? 0 : v), false, false);
    }
    return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rem)
{
    if (!G.active) return 0;
    if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000L) {
        errno = EINVAL;
        return -1;
    }
    return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rem);
}
int usleep(useconds_t us)
{
    struct timespec t{(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    struct timespec t{(time_t) s, 0};
    nanosleep(&t, nullptr);
    return 0;
}

// ================================================================= futex (libstdc++ futures, guards)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!G.active) {
        long r = raw_syscall(n, a, b, c, d, e, f);
        if (r < 0 && r > -4096) {
            errno = -r;
            return -1;
        }
        return r;
    }
    if (n == SYS_futex) {
        int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        bool rt = b & FUTEX_CLOCK_REALTIME;
        sync_tick();
        drain_all_own();
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *) a != (int) c) {
                errno = EAGAIN;
                return -1;
            }
            int64_t dl = NEVER;
            bool wall = false;
            if (d) {
                if (op == FUTEX_WAIT) {
                    int64_t v = sat((struct timespec *) d);
                    dl = v == NEVER ? NEVER : G.now + v;
                } else
                    abs_deadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, (struct timespec *) d, dl, wall);
            }
            int r = block((void *) a, "futex wait", dl, wall, true);
            hb_acquire_obj((void *) a);
            if (r == W_TIMEOUT) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            hb_release_obj((void *) a);
            wake_addr((void *) a, (int) c > MAXF ? MAXF : (int) c, true);
            return 0;
        }
        errno = ENOSYS;
        return -1;
    }
    if (n == SYS_gettid) return 1000 + G.cur->id;
    if (n == SYS_getpid) return 999;
    fail("harness-error", "unsimulated syscall %ld", n);
}
int getpid_unused_ksim() { return 999; }
}
