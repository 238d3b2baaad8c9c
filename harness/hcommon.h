// Shared harness helpers.
#pragma once
#include "ksim.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#define CHECK(cls, cond, ...) \
    do { \
        if (!(cond)) ksim::fail(cls, __VA_ARGS__); \
    } while (0)

// the usual swarm of fault kinds for threaded code
inline void std_faults()
{
    ksim::enable(ksim::F_SPURIOUS, 400);
    ksim::enable(ksim::F_STALL, 400);
    ksim::enable(ksim::F_CLOCKJUMP, 250);
    ksim::enable(ksim::F_STOREBUF, 500);
    ksim::enable(ksim::F_SLOWSTART, 300);
    ksim::enable(ksim::F_OVERSLEEP, 300);
    ksim::enable(ksim::F_MEMREUSE, 250);
    ksim::races(true);
}
// A few operations on a few objects find most; one run in a hundred has many of them, for what only comes with numbers.
inline bool large_run(int one_in = 100)
{
    if (!ksim::chance(1, one_in)) return false;
    ksim::set_budget(8000000, 30000000);
    ksim::probe("large-run");
    return true;
}
inline int sized(bool large, int lo, int hi, int big) { return large ? ksim::range(hi, big) : ksim::range(lo, hi); }
// Destroys something, now and then while there is no memory left: destructors cannot fail.
template<class F>
void destroying(F f, int one_in = 4)
{
    if (!ksim::chance(1, one_in)) return f();
    ksim::enable(ksim::F_BADALLOC, 1000);
    ksim::probe("destroyed-without-memory");
    ksim::unquiet();
    ksim::alloc_faults(true);
    f();
    ksim::alloc_faults(false);
    ksim::quiet();
}
// State of the harness itself that several simulated threads touch: no scheduling inside, not checked for races.
template<class T>
struct Mine
{
    T v;
    Mine(T x = T()) : v(x) {}
    Mine(const Mine &) = default;
    operator T() const
    {
        ksim::NoPreempt n;
        return v;
    }
    T operator=(T x)
    {
        ksim::NoPreempt n;
        return v = x;
    }
    T operator+=(T x)
    {
        ksim::NoPreempt n;
        return v += x;
    }
    T operator++() { return *this += 1; }
    T operator--(int)
    {
        ksim::NoPreempt n;
        return v--;
    }
    T operator++(int)
    {
        ksim::NoPreempt n;
        return v++;
    }
};
// The lock-free stack under the object pools reads a successor that may change under it, and drops what it read when
// its compare-and-swap fails: no races are looked for in runs that pool events.
inline void pooled(bool p)
{
    if (p) ksim::races(false);
}

// An event payload that detects tearing, lifetime errors and missing publication order.
struct Ev
{
    int64_t src = 0, seq = 0;
    int64_t body[4] = {0, 0, 0, 0};
    int64_t sum = 0;
    uint32_t magic = 0xE7E7E7E7;
    static int64_t mixv(int64_t a, int64_t b, int k) { return a * 1000003 + b * 7919 + k * 104729 + 17; }
    void fill(int64_t s, int64_t q)
    {
        ksim::cell_write(this, "event payload");
        src = s;
        seq = q;
        for (int k = 0; k < 4; k++)
            body[k] = mixv(s, q, k);
        sum = s ^ (q << 20) ^ body[3];
    }
    Ev() { ksim::cell_forget(this); }
    Ev(int64_t s, int64_t q)
    {
        ksim::cell_forget(this);
        fill(s, q);
    }
    Ev(const Ev &o)
    {
        ksim::cell_forget(this);
        copy(o);
    }
    Ev &operator=(const Ev &o)
    {
        CHECK("payload-lifetime", magic == 0xE7E7E7E7, "assignment into a destroyed event");
        copy(o);
        return *this;
    }
    ~Ev()
    {
        CHECK("payload-lifetime", magic == 0xE7E7E7E7, "event destroyed twice or corrupted");
        magic = 0xDEADDEAD;
        ksim::cell_forget(this);
    }
    void copy(const Ev &o)
    {
        CHECK("payload-lifetime", o.magic == 0xE7E7E7E7, "copy of a destroyed event");
        ksim::cell_read(&o, "event payload");
        ksim::cell_write(this, "event payload");
        src = o.src;
        seq = o.seq;
        for (int k = 0; k < 4; k++)
            body[k] = o.body[k];
        sum = o.sum;
    }
    // true when the event is exactly one that was filled in (or a pristine one)
    bool intact() const
    {
        if (magic != 0xE7E7E7E7) return false;
        if (src == 0 && seq == 0 && sum == 0) {
            for (int k = 0; k < 4; k++)
                if (body[k]) return false;
            return true;
        }
        for (int k = 0; k < 4; k++)
            if (body[k] != mixv(src, seq, k)) return false;
        return sum == (src ^ (seq << 20) ^ body[3]);
    }
    void check(const char *where) const
    {
        CHECK("payload-lifetime", magic == 0xE7E7E7E7, "%s: event delivered after its destruction", where);
        ksim::cell_read(this, where);
        CHECK("torn-event", intact(), "%s: event content is not what any publisher wrote (src %lld seq %lld)", where,
              (long long) src, (long long) seq);
    }
};

// Joins every thread it started, even on the way out.
struct Threads
{
    std::vector<std::thread> v;
    template<class F>
    void go(F f) { v.emplace_back(std::move(f)); }
    void join()
    {
        for (auto &t : v)
            if (t.joinable()) t.join();
        v.clear();
    }
    ~Threads() { join(); }
};

void silence_logs();
