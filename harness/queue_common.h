#pragma once
#include "hcommon.h"
#include "lin.h"
#include <klepsydra/mem_core/safe_queue.h>

// queue elements carry happens-before checks and lifetime checks
typedef kpsr::mem::SafeQueue<Ev> Queue;

struct Hist
{
    std::vector<lin::Op> ops;
    int begin(int kind, int64_t a, int64_t b = 0, int64_t c = 0)
    {
        ksim::NoPreempt np;
        lin::Op o{};
        o.call = ksim::step();
        o.ret = UINT64_MAX;
        o.kind = kind;
        o.a = a;
        o.b = b;
        o.c = c;
        o.thread = ksim::self();
        ops.push_back(o);
        return (int) ops.size() - 1;
    }
    void end(int h, int64_t res = 0, int64_t res2 = 0)
    {
        ksim::NoPreempt np;
        ops[h].ret = ksim::step();
        ops[h].res = res;
        ops[h].res2 = res2;
    }
    void check(lin::Model m, const std::vector<int64_t> &cfg, const char *cls)
    {
        ksim::NoPreempt np;
        int r = lin::check(m, ops, cfg);
        if (r < 0) ksim::inconclusive("linearizability search gave up");
        if (r == 0) {
            std::string s = lin::show(m, ops);
            ksim::fail(cls, "no sequential order explains this history: %s", s.c_str());
        }
    }
};
