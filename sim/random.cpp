// ksim: std::random_device gives a fixed sequence (distinct values), so that a seed stays one repeatable execution.
#include <cstdint>
#include <random>
#include <string>
static uint64_t state;
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
    uint64_t z = state += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (result_type) (z ^ (z >> 31));
}
