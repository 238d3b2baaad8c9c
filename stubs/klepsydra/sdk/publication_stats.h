#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct PublicationStats : public FunctionStats
{
    PublicationStats(const std::string &n, const std::string &t) : FunctionStats(n), type(t) {}
    std::string type;
    std::atomic<long> _totalEventAllocations{0};
    std::atomic<long> totalDiscardedEvents{0};
};
} // namespace kpsr
