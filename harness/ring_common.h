#pragma once
#include "hcommon.h"
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>

using namespace disruptor4cpp;

constexpr int64_t FAR_STARTS[] = {-1,
                                  (1LL << 31) - 6,
                                  (1LL << 31) + 40,
                                  (1LL << 32) - 5,
                                  3 * (1LL << 31) - 5,
                                  (1LL << 33) + 7,
                                  (1LL << 40) - 3,
                                  (1LL << 53) + 1,
                                  (1LL << 62) - 9};
inline int64_t pick_start(int num, int den) { return ksim::chance(num, den) ? FAR_STARTS[1 + ksim::choose(8)] : -1; }

// put a fresh ring buffer at a far position of its stream
template<class RB>
void seek(RB &rb, int64_t start)
{
    if (start < 0) return;
    rb.claim(start);
    if (RB::PRODUCER_TYPE == producer_type::single) rb.publish(start);
    else rb.publish(start - (int64_t) rb.get_buffer_size() + 1, start); // the lap before, as the stream would have left it
}
