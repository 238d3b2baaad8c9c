#include "lin.h"
#include <algorithm>
#include <cstdio>
#include <map>
#include <unordered_set>

namespace lin {
namespace {
struct QState
{
    std::vector<std::vector<int64_t>> q;
    std::vector<int64_t> max;
};
bool full(const QState &s, int i) { return s.max[i] > 0 && (int64_t) s.q[i].size() >= s.max[i]; }
bool apply_q(QState &s, const Op &o)
{
    auto &q = s.q[o.a];
    switch (o.kind) {
    case PUSH:
        if (full(s, (int) o.a)) return false;
        q.push_back(o.b);
        return true;
    case TRYPUSH:
        if (o.res != !full(s, (int) o.a)) return false;
        if (o.res) q.push_back(o.b);
        return true;
    case FORCEPUSH: {
        int64_t d = 0;
        while (full(s, (int) o.a))
            q.erase(q.begin()), d++;
        q.push_back(o.b);
        return d == o.res;
    }
    case POP:
        if (q.empty() || q[0] != o.res2) return false;
        q.erase(q.begin());
        return true;
    case TRYPOP:
        if (!o.res) return q.empty();
        if (q.empty() || q[0] != o.res2) return false;
        q.erase(q.begin());
        return true;
    case SIZE: return (int64_t) q.size() == o.res;
    case EMPTY: return q.empty() == (bool) o.res;
    case FULL: return full(s, (int) o.a) == (bool) o.res;
    case SETMAX: s.max[o.a] = o.b; return true;
    case SWAP: std::swap(s.q[o.a], s.q[o.c]); return true;
    case ASSIGN: s.q[o.a] = s.q[o.c]; return true;
    case COPY: return (int64_t) q.size() == o.res && digest(q) == o.res2;
    case TAKE:
        if ((int64_t) q.size() != o.res || digest(q) != o.res2) return false;
        q.clear();
        return true;
    case MOVEASSIGN:
        if (o.a != o.c) {
            s.q[o.a] = s.q[o.c];
            s.q[o.c].clear();
        }
        return true;
    }
    return false;
}
struct RState
{
    std::map<int64_t, int64_t> m;
};
bool apply_r(RState &s, const Op &o)
{
    auto it = s.m.find(o.a);
    switch (o.kind) {
    case RSET: s.m[o.a] = o.b; return true;
    case RGET:
        if (it == s.m.end()) return !o.res && o.res2 == o.c;
        return o.res && o.res2 == it->second;
    case RHAS: return (it != s.m.end()) == (bool) o.res;
    case RDEL: s.m.erase(o.a); return true;
    }
    return false;
}
uint64_t mixh(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
uint64_t hash(const QState &s)
{
    uint64_t h = 7;
    for (size_t i = 0; i < s.q.size(); i++) {
        h = mixh(h, s.max[i] + 1000003 * s.q[i].size());
        for (auto v : s.q[i])
            h = mixh(h, (uint64_t) v);
    }
    return h;
}
uint64_t hash(const RState &s)
{
    uint64_t h = 9;
    for (auto &p : s.m)
        h = mixh(mixh(h, (uint64_t) p.first), (uint64_t) p.second);
    return h;
}
bool apply(QState &s, const Op &o) { return apply_q(s, o); }
bool apply(RState &s, const Op &o) { return apply_r(s, o); }

template<class S>
struct Search
{
    const std::vector<Op> &h;
    std::unordered_set<uint64_t> seen;
    uint64_t nodes = 0;
    bool gaveup = false;
    Search(const std::vector<Op> &h)
        : h(h)
    {}
    bool dfs(uint64_t done, const S &s)
    {
        if (++nodes > 400000) {
            gaveup = true;
            return false;
        }
        // an op may go next unless some other remaining op returned before it was called
        uint64_t minret = UINT64_MAX;
        bool any = false;
        for (size_t i = 0; i < h.size(); i++)
            if (!(done >> i & 1)) {
                if (h[i].ret != UINT64_MAX) any = true;
                minret = std::min(minret, h[i].ret);
            }
        if (!any) return true;
        if (!seen.insert(mixh(hash(s), done)).second) return false;
        for (size_t i = 0; i < h.size(); i++) {
            if ((done >> i & 1) || h[i].call > minret) continue;
            S t = s;
            if (!apply(t, h[i])) continue;
            if (dfs(done | 1ULL << i, t)) return true;
            if (gaveup) return false;
        }
        return false;
    }
};
} // namespace
int check(Model m, const std::vector<Op> &h, const std::vector<int64_t> &cfg)
{
    if (h.size() > 63) return -1;
    if (m == QUEUES) {
        QState s;
        s.q.resize(cfg.size());
        s.max = cfg;
        Search<QState> x(h);
        if (x.dfs(0, s)) return 1;
        return x.gaveup ? -1 : 0;
    }
    RState s;
    Search<RState> x(h);
    if (x.dfs(0, s)) return 1;
    return x.gaveup ? -1 : 0;
}
int64_t digest(const std::vector<int64_t> &elements)
{
    int64_t d = 0;
    for (auto e : elements)
        d = d * 1000 + e;
    return d;
}
std::string show(Model m, const std::vector<Op> &h0)
{
    static const char *qn[] = {"push", "try_push", "force_push", "pop", "try_pop", "size", "empty", "full", "set_max", "swap",
                               "assign", "move_assign", "copy", "take"};
    static const char *rn[] = {"set", "get", "has", "del"};
    std::vector<Op> h = h0;
    std::sort(h.begin(), h.end(), [](const Op &a, const Op &b) { return a.call < b.call; });
    std::string o;
    for (auto &x : h) {
        char b[160];
        snprintf(b, sizeof b, "[%llu-%llu T%d %s(%lld,%lld)=%lld/%lld] ", (unsigned long long) x.call, (unsigned long long) x.ret,
                 x.thread, m == QUEUES ? qn[x.kind] : rn[x.kind], (long long) x.a, (long long) x.b, (long long) x.res,
                 (long long) x.res2);
        o += b;
        if (o.size() > 1500) break;
    }
    return o;
}
} // namespace lin
