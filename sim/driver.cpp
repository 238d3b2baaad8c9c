// ksim driver: seeded search over many simulated runs, replay, minimisation, JSON summary.
#include "internal.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace ksim;

static double wall()
{
    struct timespec t;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
template<class T>
static T *shmap(size_t n = 1)
{
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return (T *) p;
}

static Scenario *find(const char *n)
{
    for (Scenario *s = scenarios; s; s = s->next)
        if (!strcmp(s->name, n)) return s;
    return nullptr;
}
static uint64_t splitmix(uint64_t x)
{
    uint64_t z = x + 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
// one run in a forked child
static void run(Shared *sh, Scenario *sc, uint64_t seed, const Override *ov, int nov, bool replay, bool trace)
{
    sh->r.status = 0;
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        _exit(3);
    }
    if (p == 0) run_scenario(sh, sc->fn, sc->name, seed, ov, nov, replay, trace);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->r.status == 0) {
        sh->r.status = 2;
        sh->r.scenario = sc->name;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGVTALRM)) {
            strcpy(sh->r.cls, "hang");
            strcpy(sh->r.msg, "run does not terminate and reaches no scheduling point");
        } else {
            strcpy(sh->r.cls, "crash");
            snprintf(sh->r.msg, sizeof sh->r.msg, "run died (wait status %#x)", st);
        }
        sh->r.hash = 0;
    }
}
static std::vector<std::string> g_known;
static bool is_known(const Result &r)
{
    if (!r.key[0]) return false;
    for (auto &k : g_known)
        if (k == r.key) return true;
    return false;
}

struct Stats
{
    uint64_t runs, ok, viol, inconclusive, known;
    uint64_t steps, switches, preempts;
    double simns;
    uint64_t faults[F_NKINDS], faultruns[F_NKINDS];
    uint64_t det_checked, det_bad, det_badseed;
    uint64_t nontrivial;
    struct { const char *n; uint64_t c; } probes[256];
    int nprobes;
    struct { const char *n; uint64_t c, inc; } scen[64];
    int nscen;
    struct { char key[64]; char msg[300]; uint64_t c; uint64_t idx; } kn[16];
    int nkn;
    struct { uint64_t seed; const char *sc; char desc[400]; uint64_t steps, sw; uint64_t hash; } samples[4];
    int nsamples;
    char incwhy[8][64];
    uint64_t incc[8];
    int ninc;
    uint32_t maxthreads;
};
struct Ctl
{
    uint64_t next;
    uint64_t minviol;
    bool stop;
};

static int g_total_weight;
static Scenario *scen_for(uint64_t seed)
{
    uint64_t r = splitmix(seed ^ 0x5ce7a210) % g_total_weight;
    // registration order is a linked list: iterate deterministically by name
    static std::vector<Scenario *> v;
    if (v.empty()) {
        for (Scenario *s = scenarios; s; s = s->next)
            v.push_back(s);
        std::sort(v.begin(), v.end(), [](Scenario *a, Scenario *b) { return strcmp(a->name, b->name) < 0; });
    }
    for (Scenario *s : v) {
        if (r < (uint64_t) s->weight) return s;
        r -= s->weight;
    }
    return v[0];
}

static void worker(Ctl *ctl, Stats *st, Shared *sh, uint64_t base, uint64_t n, uint64_t *hashes, uint64_t *shashes,
                   double deadline, const char *only)
{
    for (;;) {
        uint64_t i = __atomic_fetch_add(&ctl->next, 1, __ATOMIC_SEQ_CST);
        if (i >= n || i > __atomic_load_n(&ctl->minviol, __ATOMIC_SEQ_CST) || wall() > deadline) break;
        uint64_t seed = splitmix(base * 1000003ULL + i);
        Scenario *sc = only ? find(only) : scen_for(seed);
        run(sh, sc, seed, nullptr, 0, false, false);
        Result r = sh->r;
        if (r.status == 2 && !is_known(r)) {
            st->viol++;
            uint64_t m = __atomic_load_n(&ctl->minviol, __ATOMIC_SEQ_CST);
            while (i < m && !__atomic_compare_exchange_n(&ctl->minviol, &m, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
            st->runs++;
            continue;
        }
        st->runs++;
        st->steps += r.steps;
        st->switches += r.switches;
        st->preempts += r.preempts;
        st->simns += r.simtime;
        if (r.threads > st->maxthreads) st->maxthreads = r.threads;
        bool anyf = false;
        for (int k = 0; k < F_NKINDS; k++) {
            st->faults[k] += r.faults[k];
            if (r.faults[k]) st->faultruns[k]++, anyf = true;
        }
        for (int k = 0; k < r.nprobe; k++) {
            int j = 0;
            while (j < st->nprobes && strcmp(st->probes[j].n, r.probes[k])) j++;
            if (j == st->nprobes && j < 256) {
                st->probes[j].n = r.probes[k];
                st->probes[j].c = 0;
                st->nprobes++;
            }
            if (j < 256) st->probes[j].c++;
        }
        {
            int j = 0;
            while (j < st->nscen && strcmp(st->scen[j].n, sc->name)) j++;
            if (j == st->nscen && j < 64) st->scen[st->nscen++].n = sc->name;
            st->scen[j].c++;
            if (r.status == 3) st->scen[j].inc++;
        }
        if (r.status == 2) {
            st->known++;
            int j = 0;
            while (j < st->nkn && strcmp(st->kn[j].key, r.key)) j++;
            if (j == st->nkn && j < 16) {
                st->nkn++;
                strcpy(st->kn[j].key, r.key);
                snprintf(st->kn[j].msg, sizeof st->kn[j].msg, "%s: %.250s", r.cls, r.msg);
                st->kn[j].idx = i;
            }
            if (j < 16) st->kn[j].c++;
        } else if (r.status == 3) {
            st->inconclusive++;
            int j = 0;
            while (j < st->ninc && strcmp(st->incwhy[j], r.cls)) j++;
            if (j == st->ninc && j < 8) strcpy(st->incwhy[st->ninc++], r.cls);
            if (j < 8) st->incc[j]++;
        } else
            st->ok++;
        if ((r.preempts || anyf) && r.status != 3) {
            hashes[i] = r.hash ? r.hash : 1;
            shashes[i] = r.shash ? r.shash : 1;
            st->nontrivial++;
        }
        if (st->nsamples < 2 && r.switches > 2) {
            auto &s = st->samples[st->nsamples++];
            s.seed = seed;
            s.sc = sc->name;
            memcpy(s.desc, r.desc, sizeof s.desc);
            s.steps = r.steps;
            s.sw = r.switches;
            s.hash = r.hash;
        }
        if (i < 24 || i % 97 == 0) { // determinism: same seed again, and as an explicit decision trace
            std::vector<Override> ov(sh->ov, sh->ov + r.nov);
            run(sh, sc, seed, nullptr, 0, false, false);
            bool bad = sh->r.hash != r.hash || sh->r.status != r.status || sh->r.steps != r.steps;
            if (!r.ovlost) {
                run(sh, sc, seed, ov.data(), (int) ov.size(), true, false);
                // (a run out of budget notices that at its next scheduling point, and a replay has fewer of those)
                if (sh->r.status != r.status || (r.status != 3 && sh->r.hash != r.hash)) bad = true;
            }
            st->det_checked++;
            if (bad && !st->det_bad++) st->det_badseed = seed;
        }
    }
    _exit(0);
}

static std::string jstr(const char *s)
{
    std::string o = "\"";
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else if (c < 127) o += c;
        else o += '?';
    }
    return o + "\"";
}

struct Case
{
    Scenario *sc = nullptr;
    uint64_t seed = 0;
    bool byseed = false;
    std::vector<Override> ov;
    std::string cls;
    uint64_t hash = 0;
};
static bool write_replay(const char *path, const Case &c, const Result &r, const char *trace, uint32_t ntrace)
{
    FILE *f = fopen(path, "w");
    if (!f) return false;
    fprintf(f, "KSIM-REPLAY 1\nscenario %s\nseed %llu\nmode %s\nclass %s\nhash %llx\n", c.sc->name,
            (unsigned long long) c.seed, c.byseed ? "seed" : "decisions", c.cls.c_str(), (unsigned long long) c.hash);
    for (auto &o : c.ov)
        fprintf(f, "o %c %d %u %lld\n", o.stream, o.fiber, o.idx, (long long) o.val);
    fprintf(f, "end\n# violation: %s\n# case: %s\n# o S thread point -> switch to thread; T stall ns; C wall clock jump ns;\n"
               "# F fault draw that fires; W workload choice. Everything else takes its default.\n# trace of the run:\n", r.msg, r.desc);
    if (ntrace > 200000) trace += ntrace - 200000, ntrace = 200000;
    fwrite(trace, 1, ntrace, f);
    fclose(f);
    return true;
}
static bool read_replay(const char *path, Case &c)
{
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        char a[128];
        unsigned long long u;
        Override o;
        int fib;
        long long v;
        if (sscanf(line, "scenario %127s", a) == 1) c.sc = find(a);
        else if (sscanf(line, "seed %llu", &u) == 1) c.seed = u;
        else if (sscanf(line, "mode %127s", a) == 1) c.byseed = !strcmp(a, "seed");
        else if (sscanf(line, "class %127s", a) == 1) c.cls = a;
        else if (sscanf(line, "hash %llx", &u) == 1) c.hash = u;
        else if (sscanf(line, "o %c %d %u %lld", &o.stream, &fib, &o.idx, &v) == 4) {
            o.fiber = fib;
            o.val = v;
            c.ov.push_back(o);
        } else if (!strncmp(line, "end", 3)) break;
    }
    fclose(f);
    return c.sc != nullptr;
}

// drop decisions while the same violation class persists
static void minimise(Shared *sh, Case &c, double budget_s, int max_runs)
{
    double end = wall() + budget_s;
    int runs = 0;
    auto test = [&](const std::vector<Override> &v) {
        runs++;
        run(sh, c.sc, c.seed, v.data(), (int) v.size(), true, false);
        return sh->r.status == 2 && c.cls == sh->r.cls && !is_known(sh->r);
    };
    // by stream first: maybe a whole kind of decision is irrelevant
    for (char s : {'C', 'T', 'F', 'S', 'W'}) {
        std::vector<Override> v;
        for (auto &o : c.ov)
            if (o.stream != s) v.push_back(o);
        if (v.size() != c.ov.size() && test(v)) c.ov = v;
    }
    size_t n = 2;
    while (c.ov.size() >= 1 && runs < max_runs && wall() < end) {
        size_t len = c.ov.size();
        if (n > len) n = len;
        bool red = false;
        size_t chunk = (len + n - 1) / n;
        for (size_t st = 0; st < len && runs < max_runs && wall() < end; st += chunk) {
            // latest decisions first
            size_t hi = len - st, lo = hi > chunk ? hi - chunk : 0;
            std::vector<Override> v(c.ov.begin(), c.ov.begin() + lo);
            v.insert(v.end(), c.ov.begin() + hi, c.ov.end());
            if (test(v)) {
                c.ov = v;
                red = true;
                break;
            }
        }
        if (red) {
            if (n > 2) n--;
        } else if (chunk == 1)
            break;
        else
            n = n * 2;
    }
    // shrink values
    for (size_t i = 0; i < c.ov.size() && runs < max_runs + 100 && wall() < end + 5; i++) {
        if (c.ov[i].stream != 'W' || c.ov[i].val <= 1) continue;
        for (int64_t t : {int64_t(1), c.ov[i].val / 2, c.ov[i].val - 1}) {
            auto v = c.ov;
            if (t >= v[i].val || t < 1) continue;
            v[i].val = t;
            if (test(v)) {
                c.ov = v;
                break;
            }
        }
    }
}

int main(int argc, char **argv)
{
    // same address space layout in every process, where the kernel allows it
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1
        && !getenv("KSIM_NOEXEC")) {
        setenv("KSIM_NOEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    uint64_t n = 1000, base = 1;
    int workers = 8;
    double maxs = 600;
    const char *replay = nullptr, *out = nullptr, *only = nullptr, *rout = "replay.txt";
    bool asdec = false, trace = false, list = false;
    uint64_t one = 0;
    bool hasone = false;
    double mins = 25;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *) ""; };
        if (a == "--runs") n = strtoull(nx(), 0, 10);
        else if (a == "--base") base = strtoull(nx(), 0, 10);
        else if (a == "--workers") workers = atoi(nx());
        else if (a == "--max-s") maxs = atof(nx());
        else if (a == "--min-s") mins = atof(nx());
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-out") rout = nx();
        else if (a == "--out") out = nx();
        else if (a == "--scenario") only = nx();
        else if (a == "--trace") trace = true;
        else if (a == "--as-decisions") asdec = true;
        else if (a == "--known") g_known.push_back(nx());
        else if (a == "--list") list = true;
        else if (a == "--seed") { one = strtoull(nx(), 0, 10); hasone = true; }
    }
    for (Scenario *s = scenarios; s; s = s->next)
        g_total_weight += s->weight;
    if (list) {
        for (Scenario *s = scenarios; s; s = s->next)
            printf("%s %d\n", s->name, s->weight);
        return 0;
    }
    if (!scenarios || (only && !find(only))) {
        fprintf(stderr, "no such scenario\n");
        return 3;
    }
    signal(SIGPIPE, SIG_IGN);
    runtime_init_process();
    Shared *sh = shmap<Shared>();
    if (hasone) { // run one raw seed, optionally again from its recorded decisions
        Scenario *sc = only ? find(only) : scen_for(one);
        run(sh, sc, one, nullptr, 0, false, trace);
        if (asdec) {
            std::vector<Override> ov(sh->ov, sh->ov + sh->r.nov);
            for (auto &o : ov)
                printf("o %c %d %u %lld\n", o.stream, o.fiber, o.idx, (long long) o.val);
            run(sh, sc, one, ov.data(), (int) ov.size(), true, trace);
        }
        if (trace) fwrite(sh->trace, 1, sh->r.ntrace, stdout);
        printf("status %d class %s hash %llx scenario %s steps %llu switches %llu\n%s\n%s\n", sh->r.status, sh->r.cls,
               (unsigned long long) sh->r.hash, sc->name, (unsigned long long) sh->r.steps,
               (unsigned long long) sh->r.switches, sh->r.desc, sh->r.msg);
        return sh->r.status == 2;
    }
    if (replay) {
        Case c;
        if (!read_replay(replay, c)) {
            fprintf(stderr, "bad replay file\n");
            return 3;
        }
        run(sh, c.sc, c.seed, c.byseed ? nullptr : c.ov.data(), (int) c.ov.size(), !c.byseed, trace);
        if (trace) fwrite(sh->trace, 1, sh->r.ntrace, stdout);
        printf("replay status=%d class=%s hash=%llx\n%s\n", sh->r.status, sh->r.cls, (unsigned long long) sh->r.hash,
               sh->r.msg);
        if (sh->r.status == 2 && c.cls == sh->r.cls && c.hash == sh->r.hash) return 1;
        return sh->r.status == 2 ? 4 : 0;
    }
    double t0 = wall();
    Ctl *ctl = shmap<Ctl>();
    ctl->minviol = UINT64_MAX;
    uint64_t *hashes = shmap<uint64_t>(n + 1);
    uint64_t *shashes = shmap<uint64_t>(n + 1);
    std::vector<Stats *> st;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        st.push_back(shmap<Stats>());
        Shared *wsh = shmap<Shared>();
        pid_t p = fork();
        if (p == 0) worker(ctl, st[w], wsh, base, n, hashes, shashes, t0 + maxs, only);
        pids.push_back(p);
    }
    bool werr = false;
    for (pid_t p : pids) {
        int s;
        waitpid(p, &s, 0);
        if (!WIFEXITED(s) || WEXITSTATUS(s)) werr = true;
    }
    double t1 = wall();
    Stats T{};
    std::map<std::string, uint64_t> probes, scen, sceninc;
    std::map<std::string, std::pair<uint64_t, std::string>> kn;
    std::map<std::string, uint64_t> inc;
    std::string samples;
    int ns = 0;
    for (Stats *s : st) {
        T.runs += s->runs;
        T.ok += s->ok;
        T.viol += s->viol;
        T.inconclusive += s->inconclusive;
        T.known += s->known;
        T.steps += s->steps;
        T.switches += s->switches;
        T.preempts += s->preempts;
        T.simns += s->simns;
        T.det_checked += s->det_checked;
        T.det_bad += s->det_bad;
        if (s->det_bad) T.det_badseed = s->det_badseed;
        T.nontrivial += s->nontrivial;
        if (s->maxthreads > T.maxthreads) T.maxthreads = s->maxthreads;
        for (int k = 0; k < F_NKINDS; k++)
            T.faults[k] += s->faults[k], T.faultruns[k] += s->faultruns[k];
        for (int k = 0; k < s->nprobes; k++)
            probes[s->probes[k].n] += s->probes[k].c;
        for (int k = 0; k < s->nscen; k++)
            scen[s->scen[k].n] += s->scen[k].c, sceninc[s->scen[k].n] += s->scen[k].inc;
        for (int k = 0; k < s->nkn; k++) {
            kn[s->kn[k].key].first += s->kn[k].c;
            kn[s->kn[k].key].second = s->kn[k].msg;
        }
        for (int k = 0; k < s->ninc; k++)
            inc[s->incwhy[k]] += s->incc[k];
        for (int k = 0; k < s->nsamples && ns < 6; k++, ns++) {
            char b[900];
            auto &x = s->samples[k];
            snprintf(b, sizeof b, "%s{\"scenario\":%s,\"run_seed\":\"%llu\",\"case\":%s,\"events\":%llu,\"switches\":%llu,\"hash\":\"%llx\"}",
                     ns ? "," : "", jstr(x.sc).c_str(), (unsigned long long) x.seed, jstr(x.desc).c_str(),
                     (unsigned long long) x.steps, (unsigned long long) x.sw, (unsigned long long) x.hash);
            samples += b;
        }
    }
    std::set<uint64_t> dh, ds;
    for (uint64_t i = 0; i < n; i++) {
        if (hashes[i]) dh.insert(hashes[i]);
        if (shashes[i]) ds.insert(shashes[i]);
    }
    int rc = 0;
    std::string vio = "null";
    if (werr || T.det_bad) rc = 3;
    if (ctl->minviol != UINT64_MAX) {
        uint64_t i = ctl->minviol;
        Case c;
        c.seed = splitmix(base * 1000003ULL + i);
        c.sc = only ? find(only) : scen_for(c.seed);
        run(sh, c.sc, c.seed, nullptr, 0, false, false);
        Result r1 = sh->r;
        std::vector<Override> full(sh->ov, sh->ov + r1.nov);
        run(sh, c.sc, c.seed, nullptr, 0, false, false);
        bool det = r1.status == 2 && sh->r.status == 2 && r1.hash == sh->r.hash && !strcmp(r1.cls, sh->r.cls);
        c.cls = r1.cls;
        c.ov = full;
        size_t before = full.size();
        run(sh, c.sc, c.seed, c.ov.data(), (int) c.ov.size(), true, false);
        bool rep = sh->r.status == 2 && c.cls == sh->r.cls && !r1.ovlost;
        if (rep)
            minimise(sh, c, mins, 1500);
        else
            c.byseed = true, c.ov.clear();
        run(sh, c.sc, c.seed, c.byseed ? nullptr : c.ov.data(), (int) c.ov.size(), !c.byseed, true);
        c.hash = sh->r.hash;
        bool again = sh->r.status == 2 && c.cls == sh->r.cls;
        write_replay(rout, c, sh->r, sh->trace, sh->r.ntrace);
        char b[3600];
        snprintf(b, sizeof b,
                 "{\"class\":%s,\"message\":%s,\"first_message\":%s,\"scenario\":%s,\"run_seed\":\"%llu\",\"index\":%llu,\"deterministic\":%s,"
                 "\"decisions_before\":%zu,\"decisions_after\":%zu,\"replays\":%s,\"key\":%s}",
                 jstr(c.cls.c_str()).c_str(), jstr(std::string(sh->r.msg).substr(0, 1000).c_str()).c_str(),
                 jstr(std::string(r1.msg).substr(0, 1000).c_str()).c_str(), jstr(c.sc->name).c_str(),
                 (unsigned long long) c.seed, (unsigned long long) i, det ? "true" : "false", before, c.ov.size(),
                 again ? "true" : "false", jstr(r1.key).c_str());
        vio = b;
        rc = det && again ? 1 : 3;
    }
    std::string js = "{";
    char b[1024];
    snprintf(b, sizeof b,
             "\"runs\":%llu,\"ok\":%llu,\"inconclusive\":%llu,\"known\":%llu,\"violations\":%llu,\"events\":%llu,\"switches\":%llu,"
             "\"preemptions\":%llu,\"sim_seconds\":%.6f,\"search_wall_s\":%.3f,\"determinism_checked\":%llu,\"determinism_bad\":%llu,"
             "\"det_badseed\":\"%llu\",\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_schedules\":%zu,\"max_threads\":%u,\"worker_error\":%s",
             (unsigned long long) T.runs, (unsigned long long) T.ok, (unsigned long long) T.inconclusive,
             (unsigned long long) T.known, (unsigned long long) T.viol, (unsigned long long) T.steps,
             (unsigned long long) T.switches, (unsigned long long) T.preempts, T.simns / 1e9, t1 - t0,
             (unsigned long long) T.det_checked, (unsigned long long) T.det_bad, (unsigned long long) T.det_badseed,
             (unsigned long long) T.nontrivial, dh.size(), ds.size(), T.maxthreads, werr ? "true" : "false");
    js += b;
    js += ",\"faults\":{";
    bool first = true;
    for (int k = 0; k < F_NKINDS; k++)
        if (T.faults[k]) {
            snprintf(b, sizeof b, "%s\"%s\":{\"fired\":%llu,\"runs\":%llu}", first ? "" : ",", fault_names[k],
                     (unsigned long long) T.faults[k], (unsigned long long) T.faultruns[k]);
            js += b;
            first = false;
        }
    auto dump = [&](const char *nm, std::map<std::string, uint64_t> &m) {
        js += std::string("},\"") + nm + "\":{";
        bool f = true;
        for (auto &p : m) {
            js += (f ? "" : ",") + jstr(p.first.c_str()) + ":" + std::to_string(p.second);
            f = false;
        }
    };
    dump("probes", probes);
    dump("scenarios", scen);
    dump("scenario_inconclusive", sceninc);
    dump("inconclusive_why", inc);
    js += "},\"known_findings\":{";
    first = true;
    for (auto &p : kn) {
        js += (first ? "" : ",") + jstr(p.first.c_str()) + ":{\"count\":" + std::to_string(p.second.first) + ",\"message\":"
              + jstr(p.second.second.c_str()) + "}";
        first = false;
    }
    js += "},\"samples\":[" + samples + "],\"violation\":" + vio + "}\n";
    if (out) {
        FILE *f = fopen(out, "w");
        fputs(js.c_str(), f);
        fclose(f);
    } else
        fputs(js.c_str(), stdout);
    return rc;
}
