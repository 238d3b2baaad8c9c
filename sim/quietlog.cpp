#include <spdlog/spdlog.h>
namespace { struct Q { Q() { spdlog::set_level(spdlog::level::off); } } q; }
