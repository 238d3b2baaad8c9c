// C12: basic in-memory middleware (SafeQueue).
#include "mem_common.h"
using namespace memtest;
KSIM_SCENARIO(delivery, 80) { delivery<Basic>(0, sized(ksim::chance(1, 60), 1, 4, 100)); }
KSIM_SCENARIO(stuck, 20)
{
    int q = ksim::range(1, 3);
    stuck<Basic>(q, q + sized(ksim::chance(1, 60), 1, 4, 100));
}
