// C18: what is sent over a data socket arrives byte for byte, or the ends are told.
#include "sock_common.h"
using namespace socktest;

namespace {
struct Flow // one direction of one connection
{
    int id = 0;
    std::vector<size_t> sizes;
    int64_t sent = 0, got = 0; // sent: handed to a putMessageData that returned
    int64_t offered = 0;       // ... or was called
    bool send_error = false, recv_error = false, closed = false, ended = false, gone = false;

    void send(std::shared_ptr<DataSocket> s, bool stop_early)
    {
        try {
            for (size_t n : sizes) {
                std::string m = slice(id, sent, n);
                offered = sent + n;
                s->putMessageData(m.data(), m.size());
                sent += n;
                if (stop_early && ksim::choose(3) == 1) break;
            }
            s->putMessageClose();
            closed = true;
        } catch (std::exception &e) {
            send_error = true;
            ksim::probe("send-error");
        }
    }
    void recv(std::shared_ptr<DataSocket> s, bool leave_early)
    {
        std::vector<char> buf;
        for (int quiet_end = 0; !gone;) {
            size_t n = 1 + some_size(), guard = 16;
            int scan = ksim::choose(3);
            size_t want = scan == 1 ? 1 + ksim::choose((int) n) : n, seen = 0;
            buf.assign(n + guard, 'G');
            size_t r;
            try {
                r = s->getMessageData(buf.data(), n, [&](std::size_t k) {
                    CHECK("socket-data", k > seen && k <= n, "scanForEnd told of %zu bytes after %zu of at most %zu", k, seen, n);
                    check_slice("scan", id, got + seen, buf.data() + seen, k - seen);
                    seen = k;
                    return scan && k >= want;
                });
            } catch (std::exception &e) {
                // how much was read before the error is not reported
                recv_error = true;
                ksim::probe("receive-error");
                return;
            }
            CHECK("socket-data", r <= n, "%zu bytes read into a buffer of %zu", r, n);
            for (size_t i = r; i < n + guard; i++)
                CHECK("socket-data", buf[i] == 'G', "wrote beyond the %zu bytes reported", r);
            check_slice("receive", id, got, buf.data(), r);
            got += r;
            CHECK("socket-data", got <= offered, "received %lld bytes of %lld sent", (long long) got, (long long) offered);
            if (scan) CHECK("socket-data", seen == r, "%zu bytes returned, scanForEnd was shown %zu", r, seen);
            if (r < want) { // the end of the stream: it stays the end
                ended = true;
                if (quiet_end++) return;
            } else
                CHECK("socket-data", !quiet_end, "data after the end of the stream");
            if (leave_early && ksim::choose(4) == 1) gone = true;
        }
    }
    void verdict(bool broken)
    {
        if (broken) {
            CHECK("socket-data", got <= offered, "received more than was sent");
            return;
        }
        CHECK("socket-error", !send_error && !recv_error, "an error although the connection held");
        CHECK("socket-data", gone || (closed && got == sent), "%lld bytes sent without any error, %lld received", (long long) sent,
              (long long) got);
    }
};

void stream()
{
    bool tcp = ksim::chance(1, 2), breaking = ksim::chance(1, 3);
    ksim::net::init();
    int np = ksim::range(1, 2);
    std::vector<Pair> pairs;
    {
        std::vector<std::unique_ptr<ServerSocket>> servers;
        int pad = ksim::choose(3) ? ksim::choose(100) : 99;
        for (int i = 0; i < np; i++)
            pairs.push_back(make_pair_(tcp, i, &servers, pad));
    }
    benign_faults();
    if (breaking) {
        ksim::enable(ksim::F_CONNRESET, 400);
        ksim::enable(ksim::F_SYSFAIL, 400);
    }
    bool duplex = !breaking && ksim::chance(1, 2), leave = breaking && ksim::chance(1, 2), stop_early = breaking && ksim::chance(1, 2);
    int msgs = sized(large_run(), 1, 4, 30);
    ksim::describe("%s connections=%d%s messages=%d%s%s", tcp ? "tcp" : "unix", np, duplex ? " duplex" : "", msgs,
                   breaking ? " breaking" : "", leave ? " receiver-leaves" : "");
    std::deque<Flow> flows;
    {
        Threads t;
        for (int i = 0; i < np; i++)
            for (int d = 0; d <= (duplex ? 1 : 0); d++) {
                flows.emplace_back();
                Flow *f = &flows.back();
                f->id = 1 + i * 2 + d;
                for (int k = 0; k < msgs; k++)
                    f->sizes.push_back(some_size());
                auto tx = d ? pairs[i].srv : pairs[i].cli, rx = d ? pairs[i].cli : pairs[i].srv;
                t.go([=] { f->send(tx, stop_early); });
                t.go([=] { f->recv(rx, leave); });
            }
        if (leave || breaking) pairs.clear(); // the ends close as their threads leave
        t.join();
    }
    auto &st = ksim::net::stats();
    for (auto &f : flows)
        f.verdict(st.broken || st.hard_failed || leave);
    pairs.clear();
    CHECK("socket-data", ksim::net::open_fd_count() == 0, "descriptors left open");
}

// request and reply with the simple protocol
void protocol()
{
    bool tcp = ksim::chance(1, 2), breaking = ksim::chance(1, 4);
    ksim::net::init();
    int np = ksim::range(1, 3);
    std::vector<Pair> pairs;
    {
        std::vector<std::unique_ptr<ServerSocket>> servers;
        int pad = ksim::choose(3) ? ksim::choose(100) : 99;
        for (int i = 0; i < np; i++)
            pairs.push_back(make_pair_(tcp, i, &servers, pad));
    }
    benign_faults();
    if (breaking) {
        ksim::enable(ksim::F_CONNRESET, 400);
        ksim::enable(ksim::F_SYSFAIL, 400);
    }
    ksim::describe("%s connections=%d%s", tcp ? "tcp" : "unix", np, breaking ? " breaking" : "");
    auto end = [&](int id, int reply, std::shared_ptr<DataSocket> s, size_t n, size_t m, bool first) {
        ProtocolSimple p(s);
        auto &st = ksim::net::stats();
        auto ok = [&] { return !st.broken && !st.hard_failed; };
        auto tx = [&](int stream, size_t k) {
            std::string out = slice(stream, 0, k);
            try {
                p.sendMessage(out);
            } catch (std::exception &e) {
                CHECK("socket-error", !ok(), "sendMessage failed although the connection held: %s", e.what());
                ksim::probe("send-error");
                return false;
            }
            return true;
        };
        auto rx = [&](int stream, size_t k) {
            std::string in(ksim::choose(3) * 40, 'x');
            if (ksim::choose(2)) in.reserve(ksim::choose(3) * 100);
            try {
                p.recvMessage(in);
            } catch (std::exception &e) {
                CHECK("socket-error", !ok(), "recvMessage failed although the connection held: %s", e.what());
                ksim::probe("receive-error");
                return false;
            }
            CHECK("socket-data", in.size() <= k, "a message of %zu bytes received, %zu sent", in.size(), k);
            check_slice("message", stream, 0, in.data(), in.size());
            if (ok()) CHECK("socket-data", in.size() == k, "a message of %zu bytes received, %zu sent", in.size(), k);
            return true;
        };
        // an end that gives up closes the connection
        if (first)
            tx(id, n) && rx(reply, m);
        else
            rx(id, n) && tx(reply, m);
    };
    {
        Threads t;
        for (int i = 0; i < np; i++) {
            size_t n = some_size(), m = some_size();
            auto c = pairs[i].cli, s = pairs[i].srv;
            t.go([=] { end(2 * i, 2 * i + 1, c, n, m, true); });
            t.go([=] { end(2 * i, 2 * i + 1, s, n, m, false); });
        }
        pairs.clear();
        t.join();
    }
    CHECK("socket-data", ksim::net::open_fd_count() == 0, "descriptors left open");
}
} // namespace
KSIM_SCENARIO(stream, 60) { stream(); }
KSIM_SCENARIO(protocol, 40) { protocol(); }
