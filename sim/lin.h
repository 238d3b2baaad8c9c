// Linearizability of small histories against executable models (uninstrumented code).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace lin {
struct Op
{
    uint64_t call, ret; // event sequence numbers; ret = UINT64_MAX: still pending
    int kind;
    int64_t a = 0, b = 0, c = 0; // arguments
    int64_t res = 0;             // result
    int64_t res2 = 0;
    int thread = 0;
};
enum Model { QUEUES, REGISTERS };
enum QKind { PUSH, TRYPUSH, FORCEPUSH, POP, TRYPOP, SIZE, EMPTY, FULL, SETMAX, SWAP, ASSIGN, MOVEASSIGN, COPY, TAKE };
enum RKind { RSET, RGET, RHAS, RDEL };
// QUEUES: op.a = queue index, op.b = value (or new maximum), op.c = other queue; initial maximum of queue i: cfg[i].
//   COPY: res = number of elements of the copy, res2 = digest(elements); TAKE: the same, and the queue is empty afterwards.
//   TRYPOP: res 0/1, res2 value. FORCEPUSH: res = number discarded.
// REGISTERS: op.a = key; RSET b; RGET: c = default, res = found 0/1, res2 = value read. cfg unused.
// Returns 1 linearizable, 0 not, -1 gave up.
int check(Model m, const std::vector<Op> &h, const std::vector<int64_t> &cfg);
int64_t digest(const std::vector<int64_t> &elements);
std::string show(Model m, const std::vector<Op> &h);
} // namespace lin
