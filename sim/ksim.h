// ksim: deterministic simulator for in-process C++ code. Public API for harnesses.
// Everything that may vary between two runs is decided by the simulator from one seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace ksim {

// ---- fault kinds -----------------------------------------------------------
enum Fault {
    F_SPURIOUS = 0,  // condition-variable / futex wait returns without a notification
    F_STALL,         // a thread is descheduled for a long simulated time
    F_CLOCKJUMP,     // the system (wall) clock jumps forwards or backwards
    F_WEAKCAS,       // compare_exchange_weak fails although the value matched
    F_STOREBUF,      // an atomic store stays in the store buffer for a while
    F_BADALLOC,      // operator new throws std::bad_alloc
    F_THREADFAIL,    // pthread_create fails with EAGAIN
    F_SLOWSTART,     // a new thread starts running late
    F_OVERSLEEP,     // a sleep / timed wait returns later than asked
    F_EINTR,         // a system call is interrupted
    F_EAGAIN,        // a non-blocking call reports no progress
    F_SHORTIO,       // short read / short write
    F_CONNRESET,     // a connection is reset by the peer / network
    F_NETDELAY,      // network delivery is delayed
    F_SYSFAIL,       // another system call failure (socket, bind, listen, accept...)
    F_PEERCLOSE,     // the peer closes at an arbitrary byte
    F_PARTITION,     // link down for a while
    F_MSGLOSS,       // message lost
    F_MSGDUP,        // message duplicated
    F_LISTENERTHROW, // user code (listener, cloner, callback) throws
    F_SLOWCALLBACK,  // user code takes a long simulated time
    F_TORNCOPY,      // a memory copy is interleaved with other threads
    F_MEMREUSE,      // freed memory handed out again at once
    F_DISKERR,       // a file cannot be opened, or reading it fails half way
    F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

// ---- run control -----------------------------------------------------------
// Workload choice in [0,n): part of the seed's decisions; 0 is the simplest.
int choose(int n);
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
bool chance(int num, int den);         // workload coin; false is the simplest
bool fault(Fault k, int num, int den); // fault coin; only when enabled for this run
int64_t fault_val(Fault k, int64_t n); // value in [0,n) of a fault that fired
void enable(Fault k, int permille);    // enable a fault kind in this run with probability permille/1000
bool enabled(Fault k);
void quiet();   // faults stop, scheduling becomes fair; starts the liveness budget
void unquiet(); // for scenarios with several phases
void set_budget(uint64_t quiet_steps, uint64_t total_steps);
bool alloc_faults(bool on); // bad_alloc only fires on the calling thread while on; returns what it was
void races(bool on); // fail on unordered plain accesses to heap memory (not those within NoPreempt)
struct AllocPause
{
    bool was;
    AllocPause() : was(alloc_faults(false)) {}
    ~AllocPause() { alloc_faults(was); }
};
void set_preempt_model(int m); // -1: per-run random

[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void known(const char *key, const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
[[noreturn]] void inconclusive(const char *why);
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // case parameters for evidence
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));      // goes into the run hash + trace
void probe(const char *name); // "this rare condition was hit" (string literal)

uint64_t step();     // global event sequence number
int64_t now_ns();    // simulated monotonic time
int64_t wall_ns();   // simulated system clock
void advance(int64_t ns);       // sleeps the calling simulated thread
void point();        // explicit scheduling point
// Targeted stall: the calling thread is descheduled when it reaches its points-th next scheduling
// point, until release() or until max_ns of simulated time have passed.
void hold_after(unsigned points, int64_t max_ns);
void hold_cancel();
bool held(int id);
void release(int id);
int self();          // simulated thread id
int live_threads();  // threads not finished
bool detached_or_live(int id);
int thread_count();  // ever created
void jump_wall(int64_t delta_ns);
uint64_t blocked_since(int id);
void name_thread(const char *n);

// Deliver fault-free atomic section for harness bookkeeping.
struct NoPreempt
{
    NoPreempt();
    ~NoPreempt();
};

// Event payload cell with happens-before checking: every read must be ordered after the
// last write, and every write after all earlier accesses.
void cell_write(const void *addr, const char *what);
void cell_read(const void *addr, const char *what);
void cell_forget(const void *addr);

// heap facts
bool is_live(const void *p);
uint64_t live_allocs();

// ---- scenario registration --------------------------------------------------
typedef void (*ScenarioFn)();
struct Scenario
{
    const char *name;
    int weight;
    ScenarioFn fn;
    Scenario *next;
    Scenario(const char *n, int w, ScenarioFn f);
};

// ---- simulated network ------------------------------------------------------
namespace net {
struct Stats
{
    int64_t opened, closed, failed, hard_failed, close_failed, bad_close, broken, bytes;
};
void init();                   // fresh, empty network + fd table
void open_std_fds(bool open0); // whether fd 0 is taken by stdin
void set_base_fd(int fd);      // lower descriptors are all taken
int available(int fd);         // bytes a read gets without waiting; 0 at the end of the stream, -1 when it would wait
int open_fd_count();           // descriptors of sockets currently open
bool double_close_seen();
void reset_all();              // every connection breaks now
Stats &stats();
} // namespace net

// ---- files ------------------------------------------------------------------
// A file that exists in this run only; opening and reading it is subject to disk faults.
namespace disk {
const char *put(const void *data, size_t n); // its path (valid during the run)
struct Stats
{
    int64_t opened, open_failed, read_failed, interrupted, short_reads;
};
Stats &stats();
} // namespace disk

} // namespace ksim

#define KSIM_CAT2(a, b) a##b
#define KSIM_CAT(a, b) KSIM_CAT2(a, b)
#define KSIM_SCENARIO(NAME, WEIGHT) \
    static void scenario_##NAME(); \
    static ksim::Scenario reg_##NAME(#NAME, WEIGHT, scenario_##NAME); \
    static void scenario_##NAME()
