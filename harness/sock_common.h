// Socket harness helpers: a simulated network and a position-dependent byte stream.
#pragma once
#include "hcommon.h"
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>

namespace socktest {
using namespace kpsr::socket_mdlw;
inline char at(int stream, int64_t k)
{
    uint64_t x = (uint64_t) stream * 0x9E3779B97F4A7C15ull + (uint64_t) k * 0xD1B54A32D192ED03ull;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    return (char) (x >> 56);
}
inline std::string slice(int stream, int64_t from, size_t n)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++)
        s[i] = at(stream, from + i);
    return s;
}
inline void check_slice(const char *what, int stream, int64_t from, const char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        CHECK("socket-data", p[i] == at(stream, from + i), "%s: byte %lld of the stream is not the byte that was sent", what,
              (long long) (from + (int64_t) i));
}
inline size_t some_size()
{
    switch (ksim::choose(8)) {
    case 0: return 5;
    case 1: return 0;
    case 2: return 1;
    case 3: return 15;
    case 4: return 64;
    case 5: return 300 + ksim::choose(400);
    case 6: return 4096;
    }
    if (ksim::chance(1, 40)) return 70000;
    return ksim::choose(4) ? 30 : 9000;
}
// one connection: the connecting end and the accepted one
struct Pair
{
    std::shared_ptr<DataSocket> cli, srv;
};
inline Pair make_pair_(bool tcp, int n, std::vector<std::unique_ptr<ServerSocket>> *keep = nullptr, int pad = 0)
{
    Pair p;
    std::string path = "/ksim/s" + std::string(pad, 'p') + std::to_string(n); // at most 107 characters
    std::unique_ptr<ServerSocket> s(tcp ? new ServerSocket(5000 + n) : new ServerSocket(path));
    if (n == 0 && ksim::chance(1, 5)) { // a process without stdin: the descriptor number 0 is free
        ksim::net::open_std_fds(false);
        ksim::probe("socket-is-descriptor-0");
    }
    p.cli = std::shared_ptr<DataSocket>(tcp ? new ConnectSocket("127.0.0.1", 5000 + n) : new ConnectSocket(path));
    p.srv = s->accept(1);
    if (keep) keep->push_back(std::move(s));
    return p;
}
inline void benign_faults()
{
    ksim::enable(ksim::F_EINTR, 500);
    ksim::enable(ksim::F_EAGAIN, 400);
    ksim::enable(ksim::F_SHORTIO, 600);
    ksim::enable(ksim::F_NETDELAY, 400);
    ksim::enable(ksim::F_STALL, 300);
    ksim::enable(ksim::F_MEMREUSE, 200);
}
} // namespace socktest
