// Driver: seeded search over simulated runs in forked workers, determinism
// audit, minimisation, replay files, evidence.
#include "internal.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {
std::vector<Scenario*>& scenarios()
{
    static std::vector<Scenario*> v;
    return v;
}
std::vector<const char*>& realCode()
{
    static std::vector<const char*> v;
    return v;
}
}  // namespace
namespace sim {
Register::Register(Scenario* s, size_t n, const char* const* rc)
{
    for (size_t i = 0; i < n; ++i) ::scenarios().push_back(&s[i]);
    for (; *rc; ++rc) ::realCode().push_back(*rc);
}
}  // namespace sim

namespace {
constexpr int MAXW = 64;
constexpr u64 MAXRUNS = 8u << 20;
constexpr u64 BITS = 1ULL << 27;

struct Shared {
    volatile u64 minFail;
    volatile u64 stop;
    struct W {
        volatile u64 idx;
        u64 runs, steps, switches, simtime, decisions, evals, gaveUp, accesses, nontrivial;
        u64 fired[F_N];
        u64 firedRuns[F_N];
        u64 probes[64];
        u64 scn[32];
        u64 maxFibers;
        u64 peak;
    } w[MAXW];
    char cls[48];
    char msg[1600];
};
Shared* sh;
u64* hashes;  // per run
u8* bitmap;  // distinct interleavings, all
u8* bitmapNt;  // of those, from non-trivial runs

double wallNow()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
void* shmap(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return p;
}
u64 strHash(const char* s)
{
    u64 h = 1469598103934665603ULL;
    for (; *s; ++s) h = (h ^ u8(*s)) * 1099511628211ULL;
    return h;
}
u64 seedOf(u64 base, const char* prop, u64 idx)
{
    Rng r(base * 0x632BE59BD9B4E019ULL ^ strHash(prop));
    u64 a = r.next();
    Rng q(a + idx * 0xD1342543DE82EF95ULL);
    q.next();
    return q.next();
}
struct Prop {
    std::vector<const Scenario*> sc;
    int total{0};
};
Prop propOf(const char* id, const char* only)
{
    Prop p;
    for (Scenario* s : scenarios())
        if (!strcmp(s->prop, id) && (!only || !strcmp(only, s->name))) {
            p.sc.push_back(s);
            p.total += s->weight;
        }
    // link order must not decide anything
    std::sort(p.sc.begin(), p.sc.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
    return p;
}
const Scenario& pick(const Prop& p, Rng& r, size_t* which = nullptr)
{
    int x = int(r.below(u32(p.total)));
    for (size_t i = 0; i < p.sc.size(); ++i) {
        if (x < p.sc[i]->weight) {
            if (which) *which = i;
            return *p.sc[i];
        }
        x -= p.sc[i]->weight;
    }
    return *p.sc[0];
}
// program and configuration are a pure function of the seed
const Scenario& makeCase(const Prop& p, u64 seed, int tier, Program& prog, Config& c, size_t* which)
{
    Rng r(seed);
    const Scenario& s = pick(p, r, which);
    prog = Program();
    c = Config();
    // swarm defaults; scenarios may override
    static const u32 psws[] = {512, 300, 120, 50, 20};
    c.strategy = r.chance(1, 3) ? 1 : 0;
    c.psw = psws[r.below(5)];
    c.pctDepth = 1 + r.below(5);
    c.pctLen = 40 + r.below(300);
    c.pplain = r.chance(1, 4) ? (r.chance(1, 2) ? 1500 : 6000) : 0;
    s.gen(r, tier, prog, c);
    static const u32 days[] = {1, 40, 400, 2000};
    Rng up(seed ^ 0x75707469);
    if (up.chance(1, 2)) c.uptime = up.chance(1, 3) ? 10 + up.below(90) : u64(days[up.below(4)]) * 86400 + up.below(86400);
    return s;
}

std::string serialize(const char* prop, const Scenario& s, u64 seed, const Program& p, const Config& c,
                      const std::vector<Decision>& d, const Result& r)
{
    std::string o;
    char b[256];
    auto add = [&](const char* f, auto... a) {
        snprintf(b, sizeof b, f, a...);
        o += b;
    };
    add("dst-replay 1\nprop %s\nscenario %s\nclass %s\nseed %llu\n", prop, s.name, r.cls,
        (unsigned long long)seed);
    add("hash %016llx\n", (unsigned long long)r.hash);
    o += "par";
    for (int v : p.par) add(" %d", v);
    o += "\n";
    add("cfg %d %u %u %u %u %u %d %d %u %llu", c.strategy, c.psw, c.pplain, c.pctDepth, c.pctLen,
        c.maxf, int(c.race), int(c.leak), c.maxsteps, (unsigned long long)c.maxtime);
    for (u32 f : c.pf) add(" %u", f);
    add(" %llu", (unsigned long long)c.uptime);
    o += "\n";
    int nop = 0;
    while (s.opnames && s.opnames[nop]) ++nop;
    for (auto& t : p.th) {
        add("thread %zu\n", t.size());
        for (auto& op : t)
            add("op %d %d %d %d # %s\n", op.k, op.a, op.b, op.c,
                op.k < nop && op.k >= 0 ? s.opnames[op.k] : "?");
    }
    for (auto& x : d) add("d %llu %u\n", (unsigned long long)x.idx, x.val);
    o += "end\n";
    o += "message: ";
    o += r.msg;
    o += "\n";
    return o;
}
bool parse(const char* path, std::string& prop, std::string& scen, std::string& cls, u64& seed, u64& hash,
           Program& p, Config& c, std::vector<Decision>& d)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    char a[256];
    bool ok = false;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "prop %255s", a) == 1) prop = a;
        else if (sscanf(line, "scenario %255s", a) == 1) scen = a;
        else if (sscanf(line, "class %255s", a) == 1) cls = a;
        else if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, nullptr, 10);
        else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, nullptr, 16);
        else if (!strncmp(line, "par", 3)) {
            char* q = line + 3;
            for (;;) {
                char* e;
                long v = strtol(q, &e, 10);
                if (e == q) break;
                p.par.push_back(int(v));
                q = e;
            }
        } else if (!strncmp(line, "cfg ", 4)) {
            unsigned long long mt;
            int race, leak, n = 0;
            sscanf(line + 4, "%d %u %u %u %u %u %d %d %u %llu%n", &c.strategy, &c.psw, &c.pplain,
                   &c.pctDepth, &c.pctLen, &c.maxf, &race, &leak, &c.maxsteps, &mt, &n);
            c.race = race;
            c.leak = leak;
            c.maxtime = mt;
            char* q = line + 4 + n;
            for (u32& x : c.pf) x = u32(strtoul(q, &q, 10));
            if (u64 up = strtoull(q, nullptr, 10)) c.uptime = up;
        } else if (!strncmp(line, "thread", 6)) p.th.emplace_back();
        else if (!strncmp(line, "op ", 3)) {
            Op o;
            sscanf(line + 3, "%d %d %d %d", &o.k, &o.a, &o.b, &o.c);
            if (!p.th.empty()) p.th.back().push_back(o);
        } else if (!strncmp(line, "d ", 2)) {
            unsigned long long i;
            unsigned v;
            if (sscanf(line + 2, "%llu %u", &i, &v) == 2) d.push_back({i, v});
        } else if (!strncmp(line, "end", 3)) ok = true;
    }
    fclose(f);
    return ok;
}

// ---- trials in forked children -------------------------------------------
struct TrialOut {
    Result r;
    u64 seedUsed;
    u32 n;
    volatile int done;
    Decision d[400000];
};
TrialOut* tro;
// runs: with the given decisions (if any), then with up to nseeds fresh seeds,
// until the class matches; returns true and fills out on a match
bool trial(const Scenario& s, const Program& p, const Config& c, const std::vector<Decision>* dec, u64 seed0,
           int nseeds, const char* wantCls, Result& out, std::vector<Decision>& outDec)
{
    tro->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(30);
        std::vector<Decision> rec;
        Result r;
        int total = (dec ? 1 : 0) + nseeds;
        for (int i = 0; i < total; ++i) {
            const std::vector<Decision>* use = (dec && i == 0) ? dec : nullptr;
            runOnce(s, p, c, seed0 + u64(i) * 7919, use, rec, r);
            bool match = r.failed && (!wantCls || !strcmp(r.cls, wantCls));
            if (match || !wantCls) {
                tro->r = r;
                tro->n = u32(std::min<size_t>(rec.size(), 400000));
                for (u32 k = 0; k < tro->n; ++k) tro->d[k] = rec[k];
                tro->done = 1;
                break;
            }
        }
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!tro->done) return false;
    out = tro->r;
    outDec.assign(tro->d, tro->d + tro->n);
    return true;
}

void minimise(const Scenario& s, Program& p, Config& c, u64 seed, std::vector<Decision>& dec, Result& r,
              double budget)
{
    double t0 = wallNow();
    char cls[48];
    memcpy(cls, r.cls, sizeof cls);
    Result out;
    std::vector<Decision> od;
    auto left = [&] { return wallNow() - t0 < budget; };
    auto accept = [&](Program& q) {
        if (trial(s, q, c, &dec, seed, 60, cls, out, od)) {
            p = q;
            dec = od;
            r = out;
            return true;
        }
        return false;
    };
    // drop whole fault kinds and scheduling extras first
    for (int f = 0; f < F_N && left(); ++f)
        if (c.pf[f]) {
            Config c2 = c;
            c2.pf[f] = 0;
            if (trial(s, p, c2, &dec, seed, 60, cls, out, od)) {
                c = c2;
                dec = od;
                r = out;
            }
        }
    if (c.pplain && left()) {
        Config c2 = c;
        c2.pplain = 0;
        if (trial(s, p, c2, &dec, seed, 60, cls, out, od)) {
            c = c2;
            dec = od;
            r = out;
        }
    }
    bool changed = true;
    while (changed && left()) {
        changed = false;
        for (size_t t = p.th.size(); t-- > 0 && left();) {
            if (p.th[t].empty()) continue;
            Program q = p;
            q.th[t].clear();
            if (accept(q)) changed = true;
        }
        for (size_t t = p.th.size(); t-- > 0 && left();)
            for (size_t chunk = std::max<size_t>(1, p.th[t].size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i + chunk <= p.th[t].size() && left();) {
                    Program q = p;
                    q.th[t].erase(q.th[t].begin() + long(i), q.th[t].begin() + long(i + chunk));
                    if (accept(q))
                        changed = true;
                    else
                        i += chunk;
                }
                if (chunk == 1) break;
            }
    }
    // repeat counts
    for (size_t t = 0; t < p.th.size(); ++t)
        for (size_t i = 0; i < p.th[t].size(); ++i) {
            if (!s.opnames || strncmp(s.opnames[p.th[t][i].k], "many ", 5)) continue;
            for (int cut = p.th[t][i].b / 2; cut >= 1 && left();) {
                Program q = p;
                q.th[t][i].b -= cut;
                if (q.th[t][i].b > 0 && accept(q)) cut = std::min(cut, p.th[t][i].b / 2);
                else cut /= 2;
            }
        }
    // decisions
    size_t chunk = std::max<size_t>(1, dec.size() / 2);
    while (left() && !dec.empty()) {
        bool any = false;
        for (size_t i = 0; i < dec.size() && left();) {
            std::vector<Decision> d2 = dec;
            size_t e = std::min(d2.size(), i + chunk);
            d2.erase(d2.begin() + long(i), d2.begin() + long(e));
            if (trial(s, p, c, &d2, seed, 0, cls, out, od) && od.size() < dec.size()) {
                dec = od;
                r = out;
                any = true;
            } else
                i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > dec.size()) chunk = std::max<size_t>(1, chunk / 2);
    }
}

std::string jesc(const std::string& s)
{
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch == '\n')
            o += "\\n";
        else if (u8(ch) < 32)
            o += ' ';
        else
            o += ch;
    }
    return o;
}
void mkdirs(const std::string& p)
{
    for (size_t i = 1; i < p.size(); ++i)
        if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777);
}

const char* const stubs[] = {"threads (fibers on one OS thread)", "pthread mutexes, condition variables, once, rwlocks, semaphores",
                             "futex waits behind std::future", "clocks, sleeps and timers (virtual time)",
                             "operator new/delete (checked arena with fault injection)",
                             "element type, user callbacks and client threads (harness)"};
struct Known {
    std::string prop, cls, sub;
};
std::vector<Known> known;
void loadKnown(const char* path)
{
    // lines: known: property=<id> class=<class> contains="<text>" <description>
    FILE* f = fopen(path, "r");
    if (!f) return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        char p[64], c[64];
        if (sscanf(line, "known: property=%63s class=%63s", p, c) != 2) continue;
        std::string sub;
        if (char* q = strstr(line, "contains=\"")) {
            q += 10;
            if (char* e = strchr(q, '"')) sub.assign(q, e);
        }
        known.push_back({p, c, sub});
    }
    fclose(f);
}
int matchKnown(const char* prop, const Result& r)
{
    for (size_t i = 0; i < known.size(); ++i)
        if (known[i].prop == prop && known[i].cls == r.cls && strstr(r.msg, known[i].sub.c_str()))
            return int(i);
    return -1;
}

struct Opt {
    std::string prop, tier{"quick"}, evidence, replays{"replays"}, scenario, knownFile;
    u64 seed{1}, runs{20000}, from{0};
    int workers{8};
    double maxSec{60}, minSec{0};
    double buildS{0};
    bool verbose{false};
};

void workerLoop(const Opt& o, const Prop& p, int w, int nw, double deadline)
{
    Program prog;
    Config c;
    std::vector<Decision> rec;
    Result r;
    Shared::W& st = sh->w[w];
    int tier = o.tier == "thorough";
    u32 n = 0;
    for (u64 i = o.from + u64(w); i < o.from + o.runs; i += u64(nw)) {
        if (i > sh->minFail || sh->stop) break;
        if ((n++ & 15) == 0 && wallNow() > deadline) break;
        st.idx = i + 1;
        u64 seed = seedOf(o.seed, o.prop.c_str(), i);
        size_t which = 0;
        const Scenario& s = makeCase(p, seed, tier, prog, c, &which);
        runOnce(s, prog, c, seed, nullptr, rec, r);
        ++st.runs;
        st.steps += r.steps;
        st.switches += r.switches;
        st.simtime += r.simtime;
        st.decisions += r.decisions;
        st.evals += r.evals;
        st.gaveUp += r.gaveUp;
        st.accesses += r.accesses;
        ++st.scn[which];
        if (r.fibers > st.maxFibers) st.maxFibers = r.fibers;
        st.peak = peakArena;
        u32 nfired = 0;
        for (int f = 0; f < F_N; ++f) {
            st.fired[f] += r.fired[f];
            st.firedRuns[f] += r.fired[f] != 0;
            nfired += r.fired[f];
        }
        for (int b = 0; b < 64; ++b)
            if (r.probes >> b & 1) ++st.probes[b];
        u64 key = (r.ilhash ^ (which * 0x9E3779B97F4A7C15ULL)) % BITS;
        bool nt = nfired > 0 || r.switches > 2 * u64(r.fibers);
        __atomic_fetch_or(&bitmap[key >> 3], u8(1 << (key & 7)), __ATOMIC_RELAXED);
        if (nt) {
            ++st.nontrivial;
            __atomic_fetch_or(&bitmapNt[key >> 3], u8(1 << (key & 7)), __ATOMIC_RELAXED);
        }
        if (i - o.from < MAXRUNS) hashes[i - o.from] = r.hash | 1;
        if (r.failed && matchKnown(o.prop.c_str(), r) < 0) {
            for (;;) {
                u64 cur = sh->minFail;
                if (i >= cur) break;
                if (__sync_bool_compare_and_swap(&sh->minFail, cur, i)) break;
            }
            break;
        }
    }
    st.idx = 0;
    _exit(0);
}

u64 popcountMap(const u8* m)
{
    u64 n = 0;
    const u64* q = reinterpret_cast<const u64*>(m);
    for (u64 i = 0; i < BITS / 64; ++i) n += u64(__builtin_popcountll(q[i]));
    return n;
}

int cmdRun(const Opt& o, const char* self)
{
    double t0 = wallNow();
    Prop p = propOf(o.prop.c_str(), o.scenario.empty() ? nullptr : o.scenario.c_str());
    if (p.sc.empty()) {
        fprintf(stderr, "no scenario for %s\n", o.prop.c_str());
        return 2;
    }
    if (!o.knownFile.empty()) loadKnown(o.knownFile.c_str());
    sh = static_cast<Shared*>(shmap(sizeof(Shared)));
    hashes = static_cast<u64*>(shmap(MAXRUNS * 8));
    bitmap = static_cast<u8*>(shmap(BITS / 8));
    bitmapNt = static_cast<u8*>(shmap(BITS / 8));
    tro = static_cast<TrialOut*>(shmap(sizeof(TrialOut)));
    sh->minFail = ~0ULL;
    printf("seed %llu property %s tier %s\n", (unsigned long long)o.seed, o.prop.c_str(), o.tier.c_str());
    fflush(stdout);
    double deadline = t0 + o.maxSec;
    int nw = std::min(o.workers, MAXW);
    std::vector<pid_t> pid(static_cast<size_t>(nw));
    for (int w = 0; w < nw; ++w) {
        pid_t q = fork();
        if (q == 0) workerLoop(o, p, w, nw, deadline);
        pid[size_t(w)] = q;
    }
    // heartbeat supervision
    std::vector<u64> last(size_t(nw), 0);
    std::vector<double> since(size_t(nw), wallNow());
    int alive = nw;
    while (alive > 0) {
        int st;
        pid_t q = waitpid(-1, &st, WNOHANG);
        if (q > 0) {
            for (int w = 0; w < nw; ++w)
                if (pid[size_t(w)] == q) {
                    pid[size_t(w)] = 0;
                    --alive;
                    if (sh->w[w].idx) {  // died inside a run
                        u64 i = sh->w[w].idx - 1;
                        if (i < sh->minFail) sh->minFail = i;
                    }
                }
            continue;
        }
        usleep(3000);
        for (int w = 0; w < nw; ++w)
            if (pid[size_t(w)]) {
                if (sh->w[w].idx != last[size_t(w)]) {
                    last[size_t(w)] = sh->w[w].idx;
                    since[size_t(w)] = wallNow();
                } else if (last[size_t(w)] && wallNow() - since[size_t(w)] > 25)
                    kill(pid[size_t(w)], SIGKILL);
            }
    }
    double tRun = wallNow() - t0;
    Shared::W tot;
    memset(&tot, 0, sizeof tot);
    for (int w = 0; w < nw; ++w) {
        auto& a = sh->w[w];
        tot.runs += a.runs;
        tot.steps += a.steps;
        tot.switches += a.switches;
        tot.simtime += a.simtime;
        tot.decisions += a.decisions;
        tot.evals += a.evals;
        tot.gaveUp += a.gaveUp;
        tot.accesses += a.accesses;
        tot.nontrivial += a.nontrivial;
        tot.maxFibers = std::max(tot.maxFibers, a.maxFibers);
        tot.peak = std::max(tot.peak, a.peak);
        for (int f = 0; f < F_N; ++f) {
            tot.fired[f] += a.fired[f];
            tot.firedRuns[f] += a.firedRuns[f];
        }
        for (int b = 0; b < 64; ++b) tot.probes[b] += a.probes[b];
        for (int b = 0; b < 32; ++b) tot.scn[b] += a.scn[b];
    }
    int tier = o.tier == "thorough";
    int rc = 0;
    std::string vio;
    Program prog;
    Config c;
    size_t which = 0;
    std::string sample;
    u64 audited = 0, auditBad = 0;
    std::string replayPath;
    if (sh->minFail != ~0ULL) {
        u64 idx = sh->minFail;
        u64 seed = seedOf(o.seed, o.prop.c_str(), idx);
        const Scenario& s = makeCase(p, seed, tier, prog, c, &which);
        Result r1, r2, r3;
        std::vector<Decision> d1, d2, d3;
        bool a = trial(s, prog, c, nullptr, seed, 1, nullptr, r1, d1);
        bool b = trial(s, prog, c, nullptr, seed, 1, nullptr, r2, d2);
        if (!a || !b) {
            fprintf(stderr, "run %llu (seed %llu) kills its process; no replay possible\n",
                    (unsigned long long)idx, (unsigned long long)seed);
            return 2;
        }
        if (!r1.failed || !r2.failed || r1.hash != r2.hash || strcmp(r1.cls, r2.cls)) {
            fprintf(stderr, "run %llu is not deterministic: %s/%016llx %s/%016llx\n", (unsigned long long)idx,
                    r1.cls, (unsigned long long)r1.hash, r2.cls, (unsigned long long)r2.hash);
            return 2;
        }
        if (!strcmp(r1.cls, "harness-limit")) {
            fprintf(stderr, "harness limit: %s\n", r1.msg);
            return 2;
        }
        bool rp = trial(s, prog, c, &d1, seed, 0, nullptr, r3, d3);
        if (!rp || !r3.failed || r3.hash != r1.hash) {
            fprintf(stderr, "recorded schedule does not replay the failing run (%s vs %s)\n", r1.cls, r3.cls);
            return 2;
        }
        size_t ops0 = 0, dec0 = d1.size();
        for (auto& t : prog.th) ops0 += t.size();
        minimise(s, prog, c, seed, d3, r3, o.tier == "thorough" ? 60 : 25);
        size_t ops1 = 0;
        for (auto& t : prog.th) ops1 += t.size();
        replayPath = o.replays + "/" + o.prop + "-" + s.name + "-" + std::to_string(seed) + ".replay";
        mkdirs(replayPath);
        std::string text = serialize(o.prop.c_str(), s, seed, prog, c, d3, r3);
        FILE* f = fopen(replayPath.c_str(), "w");
        if (!f) {
            perror(replayPath.c_str());
            return 2;
        }
        fputs(text.c_str(), f);
        fclose(f);
        // fresh process must reproduce it exactly
        fflush(stdout);
        pid_t q = fork();
        if (q == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            execl(self, self, "replay", replayPath.c_str(), "--exact", (char*)nullptr);
            _exit(3);
        }
        int st;
        waitpid(q, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
            fprintf(stderr, "minimised replay %s does not reproduce in a fresh process\n", replayPath.c_str());
            return 2;
        }
        printf("scenario %s, run %llu, seed %llu: %s\n%s\n", s.name, (unsigned long long)idx,
               (unsigned long long)seed, r3.cls, r3.msg);
        printf("minimised: %zu -> %zu operations, %zu -> %zu non-default decisions\n", ops0, ops1, dec0,
               d3.size());
        vio = std::string(r3.cls) + ": " + r3.msg;
        sample = text;
        rc = 1;
    } else {
        // determinism audit: other processes, another partition of the seeds
        u64 n = std::min<u64>(tot.runs, o.tier == "thorough" ? 20000 : 1600);
        u64 done = std::min<u64>(o.runs, MAXRUNS);
        u64* cnt = static_cast<u64*>(shmap(4096));
        for (int w = 0; w < 5; ++w) {
            pid_t q = fork();
            if (q == 0) {
                std::vector<Decision> rec;
                Result r;
                Rng ar(o.seed + 77);
                for (u64 k = 0; k < n; ++k) {
                    u64 i = ar.next() % done;
                    if (int(k % 5) != w || !hashes[i]) continue;
                    u64 seed = seedOf(o.seed, o.prop.c_str(), o.from + i);
                    const Scenario& s = makeCase(p, seed, tier, prog, c, nullptr);
                    runOnce(s, prog, c, seed, nullptr, rec, r);
                    __sync_fetch_and_add(&cnt[0], 1);
                    bool bad = (r.hash | 1) != hashes[i];
                    if (!bad && k % 10 == u64(w)) {
                        // the recorded decision list alone must reproduce the run
                        std::vector<Decision> d = rec;
                        Result r2;
                        runOnce(s, prog, c, 0, &d, rec, r2);
                        bad = (r2.hash | 1) != hashes[i];
                        __sync_fetch_and_add(&cnt[2], 1);
                    }
                    if (bad) {
                        __sync_fetch_and_add(&cnt[1], 1);
                        if (cnt[1] <= 5) fprintf(stderr, "audit: run %llu scenario %s diverges\n", (unsigned long long)i, s.name);
                    }
                }
                _exit(0);
            }
        }
        int st;
        while (wait(&st) > 0) {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) auditBad += 1;
        }
        audited = cnt[0];
        auditBad += cnt[1];
        if (auditBad) {
            fprintf(stderr, "determinism audit failed for %llu of %llu runs\n", (unsigned long long)auditBad,
                    (unsigned long long)audited);
            return 2;
        }
        u64 seed = seedOf(o.seed, o.prop.c_str(), 0);
        const Scenario& s = makeCase(p, seed, tier, prog, c, &which);
        Result r;
        std::vector<Decision> d;
        if (trial(s, prog, c, nullptr, seed, 1, nullptr, r, d)) {
            if (!r.msg[0]) snprintf(r.msg, sizeof r.msg, "(no violation)");
            if (!r.cls[0]) snprintf(r.cls, sizeof r.cls, "none");
            sample = serialize(o.prop.c_str(), s, seed, prog, c, d, r);
        }
    }
    double wall = wallNow() - t0;
    u64 distinct = popcountMap(bitmap), distinctNt = popcountMap(bitmapNt);
    for (auto& k : known)
        if (k.prop == o.prop) printf("KNOWN-FINDING: property=%s %s %s\n", o.prop.c_str(), k.cls.c_str(), k.sub.c_str());
    printf("%llu runs in %.1f s (%.0f runs/h), %llu steps, %.1f simulated s, %llu distinct interleavings (%llu non-trivial)\n",
           (unsigned long long)tot.runs, tRun, double(tot.runs) / tRun * 3600, (unsigned long long)tot.steps,
           double(tot.simtime) * 1e-9, (unsigned long long)distinct, (unsigned long long)distinctNt);
    for (size_t i = 0; i < p.sc.size(); ++i) {
        printf("  scenario %s: %llu runs\n", p.sc[i]->name, (unsigned long long)tot.scn[i]);
    }
    for (int f = 0; f < F_N; ++f)
        if (tot.fired[f]) printf("  fault %s: %llu in %llu runs\n", faultNames[f], (unsigned long long)tot.fired[f], (unsigned long long)tot.firedRuns[f]);
    const char* const* pn = p.sc[0]->probes;
    for (int b = 0; pn && pn[b]; ++b) printf("  probe %s: %llu runs\n", pn[b], (unsigned long long)tot.probes[b]);
    if (!o.evidence.empty()) {
        mkdirs(o.evidence);
        FILE* f = fopen(o.evidence.c_str(), "w");
        if (!f) {
            perror(o.evidence.c_str());
            return 2;
        }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n",
                o.prop.c_str(), o.tier.c_str(), (unsigned long long)o.seed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n",
                (unsigned long long)tot.runs, (unsigned long long)distinctNt);
        fprintf(f,
                "  \"rule\": \"one evaluation is one simulated run: a program generated from the run's seed, executed by "
                "fibers under the seeded scheduler and fault injector; distinct = different sequence of scheduling, "
                "synchronisation and fault events, in the single-thread scenarios of operations and faults (64-bit event hash folded into a 2^27-bit map, so collisions undercount); "
                "non-trivial = at least one injected fault, or more context switches than twice the number of threads\",\n");
        fprintf(f, "  \"samples\": [\"%s\"],\n", jesc(sample).c_str());
        fprintf(f, "  \"distinct_interleavings\": %llu,\n  \"nontrivial_runs\": %llu,\n", (unsigned long long)distinct,
                (unsigned long long)tot.nontrivial);
        fprintf(f, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n",
                double(tot.runs) / tRun * 3600, double(tot.runs) / tRun * 3600, double(tot.simtime) * 1e-9);
        fprintf(f, "  \"scheduling_steps\": %llu,\n  \"context_switches\": %llu,\n  \"decisions\": %llu,\n  \"checked_memory_accesses\": %llu,\n  \"history_operations_checked\": %llu,\n  \"history_searches_cut_short\": %llu,\n",
                (unsigned long long)tot.steps, (unsigned long long)tot.switches, (unsigned long long)tot.decisions,
                (unsigned long long)tot.accesses, (unsigned long long)tot.evals, (unsigned long long)tot.gaveUp);
        fprintf(f, "  \"max_threads_in_a_run\": %llu,\n", (unsigned long long)tot.maxFibers);
        fprintf(f, "  \"determinism_audit\": {\"runs_repeated_in_other_processes\": %llu, \"diverged\": %llu},\n",
                (unsigned long long)audited, (unsigned long long)auditBad);
        fprintf(f, "  \"faults_injected\": {");
        bool first = true;
        for (int k = 0; k < F_N; ++k)
            if (tot.fired[k]) {
                fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", faultNames[k], (unsigned long long)tot.fired[k]);
                first = false;
            }
        fprintf(f, "},\n  \"runs_with_fault\": {");
        first = true;
        for (int k = 0; k < F_N; ++k)
            if (tot.fired[k]) {
                fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", faultNames[k], (unsigned long long)tot.firedRuns[k]);
                first = false;
            }
        fprintf(f, "},\n  \"scenarios\": {");
        for (size_t i = 0; i < p.sc.size(); ++i)
            fprintf(f, "%s\"%s\": %llu", i ? ", " : "", p.sc[i]->name, (unsigned long long)tot.scn[i]);
        fprintf(f, "},\n  \"probes_runs\": {");
        for (int b = 0; pn && pn[b]; ++b)
            fprintf(f, "%s\"%s\": %llu", b ? ", " : "", pn[b], (unsigned long long)tot.probes[b]);
        fprintf(f, "},\n  \"real_components\": [");
        for (size_t i = 0; i < realCode().size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", realCode()[i]);
        fprintf(f, "],\n  \"stub_components\": [");
        for (size_t i = 0; i < sizeof stubs / sizeof stubs[0]; ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", stubs[i]);
        fprintf(f, "]\n },\n");
        if (rc) fprintf(f, " \"violation\": \"%s\",\n \"replay\": \"%s\",\n", jesc(vio).c_str(), jesc(replayPath).c_str());
        fprintf(f, " \"violations\": %d,\n \"wall_s\": %.2f,\n", rc, wall + o.buildS);
        fprintf(f,
                " \"assumptions\": [\"sequentially consistent execution of atomics (orderings are judged by the "
                "happens-before race oracle, weak-memory value staleness is not simulated)\", \"bugs that need a "
                "different C++ standard library are out of reach: libstdc++ 13 headers, clang 18\", \"a batch of seeded "
                "runs samples schedules and faults, it does not enumerate them\"]\n}\n");
        fclose(f);
    }
    if (rc) printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), replayPath.c_str());
    return rc;
}

int cmdReplay(const char* path, bool exact, bool trace)
{
    std::string prop, scen, cls;
    u64 seed = 0, hash = 0;
    Program p;
    Config c;
    std::vector<Decision> d, rec;
    if (!parse(path, prop, scen, cls, seed, hash, p, c, d)) {
        fprintf(stderr, "cannot read %s\n", path);
        return 2;
    }
    Prop pr = propOf(prop.c_str(), scen.c_str());
    if (pr.sc.empty()) {
        fprintf(stderr, "unknown scenario %s of %s\n", scen.c_str(), prop.c_str());
        return 2;
    }
    alarm(60);
    wantLog = trace;
    Result r;
    runOnce(*pr.sc[0], p, c, seed, &d, rec, r);
    if (trace)
        for (auto& e : evlog)
            printf("%6llu t=%.9fs t%d %s %lld %lld\n", (unsigned long long)e.step, double(e.time) * 1e-9, e.fid,
                   e.what, (long long)e.a, (long long)e.b);
    if (!r.failed) {
        printf("replay of %s: no violation (expected %s)\n", path, cls.c_str());
        return 0;
    }
    printf("%s: %s\n", r.cls, r.msg);
    if (exact && (cls != r.cls || hash != r.hash)) {
        printf("replay differs: class %s/%s hash %016llx/%016llx\n", cls.c_str(), r.cls, (unsigned long long)hash,
               (unsigned long long)r.hash);
        return 3;
    }
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
    return 1;
}
}  // namespace

int main(int argc, char** argv)
{
    std::string cmd = argc > 1 ? argv[1] : "";
    runtimeInit();
    if (cmd == "replay" && argc > 2) {
        bool exact = false, trace = false;
        for (int i = 3; i < argc; ++i) {
            if (!strcmp(argv[i], "--exact")) exact = true;
            if (!strcmp(argv[i], "--trace")) trace = true;
        }
        return cmdReplay(argv[2], exact, trace);
    }
    Opt o;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") o.prop = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val(), nullptr, 10);
        else if (a == "--runs") o.runs = strtoull(val(), nullptr, 10);
        else if (a == "--from") o.from = strtoull(val(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(val());
        else if (a == "--max-seconds") o.maxSec = atof(val());
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--replays") o.replays = val();
        else if (a == "--scenario") o.scenario = val();
        else if (a == "--known") o.knownFile = val();
        else if (a == "--build-s") o.buildS = atof(val());
    }
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    if (n <= 0) return 2;
    self[n] = 0;
    if (cmd == "run") return cmdRun(o, self);
    if (cmd == "one") {  // one seed index, with trace
        Prop p = propOf(o.prop.c_str(), o.scenario.empty() ? nullptr : o.scenario.c_str());
        Program prog;
        Config c;
        Result r;
        std::vector<Decision> rec;
        u64 seed = seedOf(o.seed, o.prop.c_str(), o.from);
        const Scenario& s = makeCase(p, seed, o.tier == "thorough", prog, c, nullptr);
        wantLog = true;
        runOnce(s, prog, c, seed, nullptr, rec, r);
        for (auto& e : evlog)
            printf("%6llu t=%.9fs t%d %s %lld %lld\n", (unsigned long long)e.step, double(e.time) * 1e-9, e.fid,
                   e.what, (long long)e.a, (long long)e.b);
        printf("%s", serialize(o.prop.c_str(), s, seed, prog, c, rec, r).c_str());
        printf("failed=%d %s %s\n", r.failed, r.cls, r.msg);
        return r.failed;
    }
    if (cmd == "list") {
        for (Scenario* s : scenarios()) printf("%s %s\n", s->prop, s->name);
        return 0;
    }
    fprintf(stderr, "usage: run --prop P ... | replay FILE [--trace] | one --prop P --from I | list\n");
    return 2;
}
