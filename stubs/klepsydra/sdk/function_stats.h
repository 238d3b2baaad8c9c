// STUB of KlepsydraSDK. Counters are atomic here: whether the SDK's counters are safe is out of scope.
#pragma once
#include <atomic>
#include <string>
namespace kpsr {
struct FunctionStats
{
    explicit FunctionStats(const std::string &n) : name(n) {}
    virtual ~FunctionStats() {}
    FunctionStats(const FunctionStats &) = delete;
    void start() { running.store(true, std::memory_order_relaxed); starts.fetch_add(1, std::memory_order_relaxed); }
    void stop() { running.store(false, std::memory_order_relaxed); stops.fetch_add(1, std::memory_order_relaxed); }
    void startProcessMeasure() { measureStarts.fetch_add(1, std::memory_order_relaxed); }
    void stopProcessMeasure() { totalProcessed.fetch_add(1, std::memory_order_relaxed); }
    std::string name;
    std::atomic<bool> running{false};
    std::atomic<long> starts{0}, stops{0}, measureStarts{0}, totalProcessed{0};
};
} // namespace kpsr
