// C13: concurrent in-memory middleware (moodycamel queue: 4 blocks of 32 events at the least).
#include "mem_common.h"
using namespace memtest;
KSIM_SCENARIO(delivery, 60) { delivery<Concurrent>(0, ksim::choose(2) ? 1 : 50); }
KSIM_SCENARIO(overflow, 30) { delivery<Concurrent>(124 + ksim::choose(8), 1); }
KSIM_SCENARIO(stuck, 10) { stuck<Concurrent>(1, 130 + ksim::choose(10)); }
