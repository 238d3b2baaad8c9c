// Common pieces of the ZMQ harnesses: payloads, codecs, raw senders.
#pragma once
#include "hcommon.h"
#include <algorithm>
#include <cstring>
#include <iostream>
#include <sstream>
#include <zmq.hpp>
#include <spdlog/spdlog.h>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>

namespace zt {
struct Msg // for the serialising codecs
{
    int64_t src = -1, seq = -1;
    std::string text;
    std::vector<int> nums;
    static std::string text_of(int64_t src, int64_t seq)
    {
        static const int len[] = {3, 0, 200, 17, 1, 2500, 40};
        std::string s;
        int n = seq % 25 == 24 ? 70000 : len[(src * 3 + seq * 5 + seq / 7) % 7];
        for (int i = 0; i < n; i++)
            s += "ab\"c\\d e{f}1:,"[(seq + i) % 14];
        return s;
    }
    static std::vector<int> nums_of(int64_t src, int64_t seq)
    {
        return std::vector<int>((src + seq * seq) % 9, (int) (seq * 31 + src));
    }
    void fill(int64_t s, int64_t q)
    {
        src = s;
        seq = q;
        text = text_of(s, q);
        nums = nums_of(s, q);
    }
    bool ok() const { return src >= 0 && seq >= 0 && text == text_of(src, seq) && nums == nums_of(src, seq); }
};
template<class A>
void serialize(A &a, Msg &m)
{
    a(cereal::make_nvp("src", m.src), cereal::make_nvp("seq", m.seq), cereal::make_nvp("text", m.text), cereal::make_nvp("nums", m.nums));
}
struct Pod // for the void caster
{
    int64_t src = -1, seq = -1;
    unsigned char body[41] = {0};
    void fill(int64_t s, int64_t q)
    {
        src = s;
        seq = q;
        for (int i = 0; i < 41; i++)
            body[i] = (unsigned char) (s * 7 + q * 13 + i);
    }
    bool ok() const
    {
        if (src < 0 || seq < 0) return false;
        for (int i = 0; i < 41; i++)
            if (body[i] != (unsigned char) (src * 7 + seq * 13 + i)) return false;
        return true;
    }
};
struct Json
{
    typedef std::string U;
    typedef Msg T;
    static const char *name() { return "json"; }
    static std::string enc(const T &e) // what a channel sends
    {
        kpsr::Mapper<T, std::string> m;
        std::string s;
        m.toMiddleware(e, s);
        return s;
    }
    static std::string cut(const std::string &s) { return s.substr(0, s.rfind('}')); } // what nobody can decode any more
    static kpsr::Publisher<T> *to(kpsr::zmq_mdlw::ToZMQMiddlewareProvider &p, const std::string &t, int pool) { return p.getJsonToMiddlewareChannel<T>(t, pool); }
    static std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<U>> from(zmq::socket_t &s, long period) { return kpsr::zmq_mdlw::FromZmqMiddlewareProvider().getJsonFromMiddlewareChannel<T>(s, period); }
};
struct Bin
{
    typedef Base U;
    typedef Msg T;
    static const char *name() { return "binary"; }
    static std::string enc(const T &e) // what a channel sends
    {
        kpsr::Mapper<T, Base> m;
        std::stringbuf b;
        Base p = &b;
        m.toMiddleware(e, p);
        return b.str();
    }
    static std::string cut(const std::string &s) { return s.substr(0, s.size() - 1 - ksim::choose(12)); }
    static kpsr::Publisher<T> *to(kpsr::zmq_mdlw::ToZMQMiddlewareProvider &p, const std::string &t, int pool) { return p.getBinaryToMiddlewareChannel<T>(t, pool); }
    static std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<U>> from(zmq::socket_t &s, long period) { return kpsr::zmq_mdlw::FromZmqMiddlewareProvider().getBinaryFromMiddlewareChannel<T>(s, period); }
};
struct Void
{
    typedef std::vector<unsigned char> U;
    typedef Pod T;
    static const char *name() { return "void"; }
    static std::string enc(const T &e) // what a channel sends
    {
        return std::string((const char *) &e, sizeof e);
    }
    static std::string cut(const std::string &s) { return s.substr(0, s.size() - 1 - ksim::choose(12)); }
    static kpsr::Publisher<T> *to(kpsr::zmq_mdlw::ToZMQMiddlewareProvider &p, const std::string &t, int pool) { return p.getVoidCasterToMiddlewareChannel<T>(t, pool); }
    static std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<U>> from(zmq::socket_t &s, long period) { return kpsr::zmq_mdlw::FromZmqMiddlewareProvider().getVoidCasterFromMiddlewareChannel<T>(s, period); }
};
inline void send_raw(zmq::socket_t &s, std::vector<std::string> parts)
{
    for (size_t i = 0; i < parts.size(); i++)
        s.send(zmq::const_buffer(parts[i].data(), parts[i].size()), i + 1 < parts.size() ? zmq::send_flags::sndmore : zmq::send_flags::none);
}
inline const char *topic_name(int i)
{
    static const char *n[] = {"wind", "wind2", "a topic with a name beyond the small string buffer"};
    return n[i];
}
// what nobody can decode (of any codec); kept short so that no length field makes a decoder ask for gigabytes
inline std::string garbage()
{
    switch (ksim::choose(6)) {
    case 0: return "";
    case 1: return "x";
    case 2: return "{\"event\": {\"src\": 1";
    case 3: return "{}";
    case 4: return std::string("\1\0\0\0", 4);
    default: return "not a message at all, whatever the codec";
    }
}
} // namespace zt
