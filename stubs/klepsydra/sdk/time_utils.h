#pragma once
#include <chrono>
namespace kpsr {
class TimeUtils
{
public:
    static long getCurrentNanoseconds()
    {
        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    static long long unsigned int getCurrentNanosecondsAsLlu() { return (long long unsigned int) getCurrentNanoseconds(); }
    static long getCurrentMilliseconds()
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    }
    static long long unsigned int getCurrentMillisecondsAsLlu() { return (long long unsigned int) getCurrentMilliseconds(); }
};
} // namespace kpsr
