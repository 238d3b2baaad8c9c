#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct ServiceStats : public FunctionStats
{
    using FunctionStats::FunctionStats;
};
} // namespace kpsr
