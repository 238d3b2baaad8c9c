#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct SubscriptionStats : public FunctionStats
{
    template<class... A>
    SubscriptionStats(const std::string &subscriberName, const std::string &listenerName, const std::string &t, A...)
        : FunctionStats(subscriberName + "_" + listenerName), type(t)
    {}
    std::string type;
    std::atomic<long long> totalEnqueuedTimeInNs{0};
    std::atomic<long> totalDiscardedEvents{0};
};
} // namespace kpsr
