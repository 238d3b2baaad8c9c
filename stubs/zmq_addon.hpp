// STUB of cppzmq's zmq_addon.hpp: the multipart helpers, over the stub sockets of zmq.hpp.
#pragma once
#include "zmq.hpp"
#include <iterator>

namespace zmq {
template<class Out> result_t recv_multipart(socket_t &s, Out out, recv_flags f = recv_flags::none)
{
    size_t n = 0;
    for (;;) {
        message_t m;
        if (!s.recv(m, n ? recv_flags::none : f)) return {false, 0};
        bool more = m.more();
        n++;
        *out++ = std::move(m);
        if (!more) return {true, n};
    }
}
inline const_buffer part_of(const_buffer b) { return b; }
inline const_buffer part_of(const message_t &m) { return const_buffer(m.data(), m.size()); }
template<class Range> result_t send_multipart(socket_t &s, Range &&parts, send_flags f = send_flags::none)
{
    size_t n = 0, all = std::distance(std::begin(parts), std::end(parts));
    for (auto &p : parts)
        s.send(part_of(p), ++n < all ? f | send_flags::sndmore : f);
    return {true, n};
}
} // namespace zmq
