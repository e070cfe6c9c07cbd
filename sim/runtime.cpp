// Simulator runtime: fibers, virtual time, interposed pthread/clock/allocator
// functions, __tsan_* hooks (scheduling points, memory and race oracles).
#include "internal.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __libc_single_threaded;

namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
}  // namespace std

extern "C" char __executable_start;
namespace sim {
const char* const faultNames[F_N] = {
    "alloc_failure", "throwing_copy", "throwing_assign", "throwing_ctor",
    "spurious_wakeup", "time_jump", "clock_step", "thread_create_failure",
    "thread_stall", "callback_throw"};

Ledger ledger;
void (*onIdle)(u64) = nullptr;
bool (*onDeadlock)() = nullptr;
std::vector<LogEv> evlog;
bool wantLog = false;
u64 peakArena = 0;

static int g_on = 0;  // 1 while simulated (instrumented) code runs
struct Rt {
    int saved;
    Rt(): saved(g_on) { g_on = 0; }
    ~Rt() { g_on = saved; }
};

// ---------------------------------------------------------------- arena
constexpr u64 ABASE = 0x100000000000ULL;
constexpr u64 ASIZE = 64ULL << 20;
static char* const arena = reinterpret_cast<char*>(ABASE);
struct Shadow {  // per byte
    u32 w, r[4], aw, ar;
    u32 wpc;
};
static Shadow* shadow;  // [ASIZE]
static u8* mstate;  // [ASIZE] 0 redzone/unused 1 live 2 freed
static u32* blkOf;  // [ASIZE/16] block index + 1 at block starts
static u64 aused;
struct Block {
    u64 off;
    u64 size;
    bool live;
    bool sut;
    int fid;
    const void* pc;
};
static std::vector<Block> blocks;
static size_t liveSut;

static inline bool inArena(const void* p)
{
    return reinterpret_cast<u64>(p) - ABASE < ASIZE;
}

// ---------------------------------------------------------------- fibers
struct VC {
    u32 c[NF];
    void join(const VC& o)
    {
        for (int i = 0; i < NF; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
    void zero() { memset(c, 0, sizeof c); }
};
enum St { S_NONE, S_READY, S_BLOCKED, S_DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_FUTEX, W_ONCE, W_RW, W_SEM, W_STALL };
static const char* const waitNames[] = {"-", "mutex", "condition-variable", "join", "sleep",
                                        "future", "once", "rwlock", "semaphore", "stalled"};
struct EhGlobals {
    void* a;
    u64 b;
};
struct Fiber {
    void* sp{nullptr};
    char* stk{nullptr};
    int id{0};
    St st{S_NONE};
    WaitKind wk{W_NONE};
    const void* wobj{nullptr};
    u64 deadline{NEVER};
    int wres{0};  // 0 notified, 1 timed out, 2 spurious
    bool quiet{false};
    int sut{0};
    int nofault{0};
    bool detached{false}, joined{false};
    VC vc, pendAcq, relF;
    bool hasRelF{false};
    EhGlobals eh{nullptr, 0};
    void* oc{nullptr};
    void (*ocall)(){nullptr};
    void* (*fn)(void*){nullptr};
    void* arg{nullptr};
    void* ret{nullptr};
    int prio{0};
    const char* op{""};
    u64 seq{0};  // wait arrival order
    u32 waits{0};  // condition variable waits begun
};
static Fiber F[NF];
static int nf = 0;
static int cur = -1;
static void* driverSp;
static EhGlobals driverEh;
constexpr u64 STK = 256 * 1024;
static char* stkBase;

static const Scenario* gsc;
static const Program* gprog;
static const Config* cfg;
static const std::vector<Decision>* rep;
static size_t repPos;
static std::vector<Decision>* rec;
static Result* res;
static Rng rng;
static u64 didx, nsteps, nowNs, evSeq, waitSeq;
static i64 rtSkew;
static u32 nfaults;
static bool running = false;
static bool over = false;
static u64 hashv, ilhash, naccess;
static u64 maxAccess = 30000000;  // per run
static std::vector<u64> pctPts;
static size_t pctPos;
static int pctLow;
static bool pctAt;

extern "C" void simSwitch(void** save, void* to);
asm(R"(
.text
.globl simSwitch
.type simSwitch,@function
simSwitch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simSwitch,.-simSwitch
)");

static inline void mix(u64 v)
{
    hashv = (hashv ^ v) * 0x100000001b3ULL;
    hashv ^= hashv >> 29;
}
static inline void mixil(u64 v)
{
    ilhash = (ilhash ^ v) * 0x100000001b3ULL;
    ilhash ^= ilhash >> 31;
}
static inline void logEv(const char* what, i64 a, i64 b)
{
    if (wantLog && evlog.size() < 200000) evlog.push_back({nsteps, nowNs, a, b, what, cur});
}
static inline void event(int kind, const char* what, i64 a, i64 b = 0)
{
    mix((u64(kind) << 8 | u64(cur + 1)) * 0x9E3779B97F4A7C15ULL + u64(a) * 31 + u64(b));
    mixil(u64(kind) << 8 | u64(cur + 1));
    logEv(what, a, b);
}

// ---------------------------------------------------------------- statics
// Static and thread-local variables of the code under test (symbols of its
// namespace): every run finds them as a fresh process would, every fiber has
// its own thread-locals, and the statics are shared memory like the arena.
struct Stat {
    char* p;
    u64 n, off;  // off: its place in the shadow of the arena
    std::vector<char> init;
};
static std::vector<Stat> stats;
static u64 statLo = ~0ULL, statHi = 0, statTotal = 0;
struct TlsVar {
    u64 off, n;
};
static std::vector<TlsVar> tlsVars;
static std::vector<char> tlsInit, tlsOf[NF];
static char* tlsBlock;
struct AtExit {
    void (*fn)(void*);
    void* obj;
};
static std::vector<AtExit> exitsOf[NF];

static bool statOff(const void* p, u64& off)
{
    u64 a = reinterpret_cast<u64>(p);
    if (a < statLo || a >= statHi) return false;
    for (auto& s : stats) {
        u64 d = a - reinterpret_cast<u64>(s.p);
        if (d < s.n) {
            off = s.off + d;
            return true;
        }
    }
    return false;
}
static void tlsSwap(std::vector<char>& out, const std::vector<char>* in)
{
    u64 k = 0;
    for (auto& t : tlsVars) {
        memcpy(&out[k], tlsBlock + t.off, t.n);
        if (in) memcpy(tlsBlock + t.off, &(*in)[k], t.n);
        k += t.n;
    }
}
static void tlsSet(const std::vector<char>& in)
{
    u64 k = 0;
    for (auto& t : tlsVars) {
        memcpy(tlsBlock + t.off, &in[k], t.n);
        k += t.n;
    }
}
static void findStatics()
{
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat sb;
    if (fd < 0 || fstat(fd, &sb)) return;
    void* m = mmap(nullptr, size_t(sb.st_size), PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    const char* b = static_cast<const char*>(m);
    auto* eh = reinterpret_cast<const Elf64_Ehdr*>(b);
    auto* sh = reinterpret_cast<const Elf64_Shdr*>(b + eh->e_shoff);
    const char* shn = b + sh[eh->e_shstrndx].sh_offset;
    u64 base = 0;
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void* out) {
            *static_cast<u64*>(out) = i->dlpi_addr;
            tlsBlock = static_cast<char*>(i->dlpi_tls_data);
            return 1;  // the executable comes first
        },
        &base);
    for (int k = 0; k < eh->e_shnum; ++k) {
        if (sh[k].sh_type != SHT_SYMTAB) continue;
        auto* sy = reinterpret_cast<const Elf64_Sym*>(b + sh[k].sh_offset);
        const char* names = b + sh[sh[k].sh_link].sh_offset;
        for (u64 i = 0; i < sh[k].sh_size / sizeof *sy; ++i) {
            const Elf64_Sym& y = sy[i];
            int type = ELF64_ST_TYPE(y.st_info);
            const char* nm = names + y.st_name;
            if (!y.st_size || y.st_shndx == SHN_UNDEF || y.st_shndx >= eh->e_shnum) continue;
            if (type == STT_TLS) {
                if (tlsBlock && (strstr(nm, "4gmlc") || !strcmp(nm, "__tls_guard")))
                    tlsVars.push_back({y.st_value, y.st_size});
            } else if (type == STT_OBJECT && strstr(nm, "4gmlc")) {
                const char* sec = shn + sh[y.st_shndx].sh_name;
                bool rel = !strncmp(sec, ".data.rel.ro", 12);
                if ((strncmp(sec, ".data", 5) && strncmp(sec, ".bss", 4)) || rel) continue;
                char* p = reinterpret_cast<char*>(base + y.st_value);
                bool dup = false;
                for (auto& s : stats) dup = dup || s.p == p;
                if (dup) continue;
                u64 off = 64 + statTotal;
                stats.push_back({p, y.st_size, off, std::vector<char>(p, p + y.st_size)});
                statTotal += (y.st_size + 15) & ~15ULL;
                statLo = std::min(statLo, reinterpret_cast<u64>(p));
                statHi = std::max(statHi, reinterpret_cast<u64>(p) + y.st_size);
            }
        }
    }
    munmap(m, size_t(sb.st_size));
    u64 n = 0;
    for (auto& t : tlsVars) n += t.n;
    tlsInit.resize(n);
    if (n) tlsSwap(tlsInit, nullptr);
    for (auto& v : tlsOf) v = tlsInit;
}
// heap blocks a static or a thread-local refers to, directly or not
static void markReachable(std::vector<char>& live)
{
    std::vector<u32> todo;
    auto scan = [&](const char* p, u64 n) {
        for (u64 i = 0; i + 8 <= n; i += 8) {
            u64 v;
            memcpy(&v, p + i, 8);
            if (v - ABASE >= ASIZE) continue;
            u64 g = (v - ABASE) / 16;
            for (u64 k = 0; k < 1u << 16 && k <= g; ++k)
                if (u32 b = blkOf[g - k]) {
                    const Block& x = blocks[b - 1];
                    if (v - ABASE <= x.off + x.size && x.live && !live[b - 1]) {
                        live[b - 1] = 1;
                        todo.push_back(b - 1);
                    }
                    break;
                }
        }
    };
    for (auto& s : stats) scan(s.p, s.n);
    for (auto& t : tlsOf) scan(t.data(), t.size());
    while (!todo.empty()) {
        const Block& x = blocks[todo.back()];
        todo.pop_back();
        scan(arena + x.off, x.size);
    }
}

static void saveTls(Fiber& f)
{
    if (!tlsVars.empty()) tlsSwap(tlsOf[f.id], nullptr);
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    f.eh = *g;
    f.oc = std::__once_callable;
    f.ocall = std::__once_call;
}
static void loadTls(const Fiber& f)
{
    if (!tlsVars.empty()) tlsSet(tlsOf[f.id]);
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    *g = f.eh;
    std::__once_callable = f.oc;
    std::__once_call = f.ocall;
}

[[noreturn]] static void toDriver()
{
    over = true;
    running = false;
    g_on = 0;
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    *g = driverEh;
    void* dummy;
    simSwitch(&dummy, driverSp);
    abort();
}

static void describeFibers(char* buf, size_t n)
{
    size_t o = 0;
    buf[0] = 0;
    for (int i = 0; i < nf && o + 120 < n; ++i) {
        Fiber& f = F[i];
        const char* s = f.st == S_DONE ? "done" : f.st == S_READY ? "runnable" : waitNames[f.wk];
        o += snprintf(buf + o, n - o, "%s t%d:%s%s%s", i ? ";" : "", i, s, f.op[0] ? " in " : "",
                      f.op);
    }
}

void fail(const char* cls, const char* fmt, ...)
{
    Rt rt;
    if (res && !res->failed) {
        res->failed = true;
        snprintf(res->cls, sizeof res->cls, "%s", cls);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(res->msg, sizeof res->msg, fmt, ap);
        va_end(ap);
    }
    if (running) toDriver();
    // failure in post-processing: unwind through an exception
    throw 0xFA11;
}

// ---------------------------------------------------------------- decisions
static u32 commit(u32 n, u32 proposal)
{
    u64 i = didx++;
    if (n <= 1) return 0;
    u32 v = 0;
    if (rep) {
        while (repPos < rep->size() && (*rep)[repPos].idx < i) ++repPos;
        if (repPos < rep->size() && (*rep)[repPos].idx == i) v = (*rep)[repPos++].val % n;
    } else
        v = proposal;
    if (v) rec->push_back({i, v});
    return v;
}

static bool injectIn(Fault f)
{
    if (!cfg->pf[f]) return false;
    u32 p = 0;
    if (!rep && nfaults < cfg->maxf) p = rng.below(65536) < cfg->pf[f];
    if (!commit(2, p)) return false;
    ++nfaults;
    ++res->fired[f];
    event(100 + f, faultNames[f], f);
    return true;
}
bool inject(Fault f)
{
    if (!running || cur < 0) return false;
    if (F[cur].sut <= 0 || F[cur].nofault) return false;
    Rt rt;
    return injectIn(f);
}
u32 choose(u32 n)
{
    Rt rt;
    u32 v = commit(n, rep ? 0 : rng.below(n));
    event(60, "choose", n, v);
    return v;
}

// ---------------------------------------------------------------- scheduler
static void switchTo(int to)
{
    if (to == cur) return;
    int from = cur;
    saveTls(F[from]);
    ++res->switches;
    cur = to;
    mix(0x51ULL << 32 | u64(to));
    mixil(0x5100 | u64(to));
    logEv("switch", to, 0);
    loadTls(F[to]);
    simSwitch(&F[from].sp, F[to].sp);
    // resumed
}

static int pickPct(const int* cand, int n)
{
    int best = 0;
    for (int i = 1; i < n; ++i)
        if (F[cand[i]].prio > F[cand[best]].prio) best = i;
    return best;
}

static void expireTimers()
{
    for (int i = 0; i < nf; ++i) {
        Fiber& f = F[i];
        if (f.st == S_BLOCKED && f.deadline <= nowNs) {
            f.st = S_READY;
            f.wres = 1;
            f.deadline = NEVER;
            event(61, "timer", i);
        }
    }
}
static u64 nextTimer()
{
    u64 t = NEVER;
    for (int i = 0; i < nf; ++i)
        if (F[i].st == S_BLOCKED && F[i].deadline < t) t = F[i].deadline;
    return t;
}

static void advanceTo(u64 t)
{
    if (t > nowNs) nowNs = t;
    if (nowNs > cfg->maxtime) {
        char b[900];
        describeFibers(b, sizeof b);
        fail("no-progress", "virtual time exceeded %llu s without completion: %s",
             (unsigned long long)(cfg->maxtime / 1000000000ULL), b);
    }
    expireTimers();
}

// picks the next fiber; cur may be blocked or ready
static void schedule()
{
    for (;;) {
        int cand[NF];
        int n = 0;
        bool curReady = cur >= 0 && F[cur].st == S_READY;
        if (curReady) cand[n++] = cur;
        for (int k = 1; k <= nf; ++k) {
            int i = (cur + k) % nf;
            if (i != cur && F[i].st == S_READY) cand[n++] = i;
        }
        if (n == 0) {
            u64 t = nextTimer();
            if (t == NEVER) {
                if (onDeadlock) {
                    bool ok = onDeadlock();
                    if (ok) toDriver();
                }
                char b[900];
                describeFibers(b, sizeof b);
                fail("deadlock", "no thread can run: %s", b);
            }
            if (onIdle && t > nowNs) onIdle(t);
            event(62, "idle-advance", i64(t - nowNs));
            advanceTo(t);
            continue;
        }
        u32 prop = 0;
        if (!rep && n > 1) {
            if (cfg->strategy == 1) {
                if (pctAt) {
                    pctAt = false;
                    F[cur].prio = pctLow--;
                }
                prop = pickPct(cand, n);
            } else if (curReady) {
                if (rng.below(1024) < cfg->psw) prop = 1 + rng.below(n - 1);
            } else
                prop = rng.below(n);
        }
        u32 c = commit(n, prop);
        switchTo(cand[c]);
        return;
    }
}

static void checkCaps()
{
    if (nsteps > cfg->maxsteps) {
        char b[900];
        describeFibers(b, sizeof b);
        fail("livelock", "more than %u scheduling steps: %s", cfg->maxsteps, b);
    }
}

static void envFaults()
{
    if (cfg->pf[F_SPURIOUS]) {
        int w[NF], n = 0;
        for (int i = 0; i < nf; ++i)
            if (F[i].st == S_BLOCKED && F[i].wk == W_COND) w[n++] = i;
        if (n) {
            u32 p = 0;
            if (!rep && nfaults < cfg->maxf && rng.below(65536) < cfg->pf[F_SPURIOUS])
                p = 1 + rng.below(n);
            u32 v = commit(n + 1, p);
            if (v) {
                Fiber& f = F[w[v - 1]];
                f.st = S_READY;
                f.wres = 2;
                f.deadline = NEVER;
                ++nfaults;
                ++res->fired[F_SPURIOUS];
                event(100 + F_SPURIOUS, faultNames[F_SPURIOUS], w[v - 1]);
            }
        }
    }
    if (cfg->pf[F_TIMEJUMP]) {
        u64 t = nextTimer();
        if (t != NEVER && injectIn(F_TIMEJUMP)) advanceTo(t);
    }
    if (cfg->pf[F_CLOCKJUMP] && injectIn(F_CLOCKJUMP)) {
        static const i64 jumps[] = {3600, -3600, 5, -5, 86400LL * 365, -86400LL * 365, 1, -1};
        u32 j = commit(8, rep ? 0 : rng.below(8));
        rtSkew += jumps[j] * 1000000000LL;
    }
    if (cfg->pf[F_STALL] && nf > 1 && injectIn(F_STALL)) {
        static const u64 d[] = {1000, 1000000, 50000000ULL, 400000000ULL, 7000000000ULL};
        u32 j = commit(5, rep ? 0 : rng.below(5));
        Fiber& f = F[cur];
        f.st = S_BLOCKED;
        f.wk = W_STALL;
        f.wobj = nullptr;
        f.deadline = nowNs + d[j];
    }
}

// a scheduling point before a visible operation
static void point()
{
    if (!running || F[cur].quiet) return;
    ++nsteps;
    checkCaps();
    if (cfg->strategy == 1) {
        while (pctPos < pctPts.size() && pctPts[pctPos] <= nsteps) {
            ++pctPos;
            pctAt = true;
        }
    }
    envFaults();
    schedule();
}

// blocks the current fiber; returns wres
static int block(WaitKind wk, const void* obj, u64 deadline)
{
    Fiber& f = F[cur];
    f.st = S_BLOCKED;
    f.wk = wk;
    f.wobj = obj;
    f.deadline = deadline;
    f.wres = 0;
    f.seq = ++waitSeq;
    schedule();
    f.wk = W_NONE;
    f.wobj = nullptr;
    f.deadline = NEVER;
    return f.wres;
}
static void wakeAll(WaitKind wk, const void* obj)
{
    for (int i = 0; i < nf; ++i)
        if (F[i].st == S_BLOCKED && F[i].wk == wk && F[i].wobj == obj) {
            F[i].st = S_READY;
            F[i].wres = 0;
            F[i].deadline = NEVER;
        }
}

static inline void incEpoch() { ++F[cur].vc.c[cur]; }

// ---------------------------------------------------------------- fiber api
static void fiberMain();
static void fiberEntryC()
{
    fiberMain();
    abort();
}
static void prepStack(Fiber& f)
{
    char* top = f.stk + STK;
    top -= 64;
    auto* sp = reinterpret_cast<u64*>(top);
    *--sp = 0;  // fake return address, keeps alignment
    *--sp = reinterpret_cast<u64>(&fiberEntryC);
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp;
}
static int newFiber(void* (*fn)(void*), void* arg)
{
    if (nf >= NF) fail("harness-limit", "too many threads in one run");
    int id = nf++;
    Fiber& f = F[id];
    char* stk = f.stk;
    f = Fiber();
    f.stk = stk;
    f.id = id;
    f.st = S_READY;
    f.fn = fn;
    f.arg = arg;
    f.vc.zero();
    f.pendAcq.zero();
    f.relF.zero();
    if (cur >= 0) {
        f.vc = F[cur].vc;
        incEpoch();
        f.sut = F[cur].sut;
        f.nofault = 0;
    }
    f.vc.c[id] = 1;
    f.prio = rep ? 0 : static_cast<int>(rng.below(1000)) + 10;
    tlsOf[id] = tlsInit;
    exitsOf[id].clear();
    prepStack(f);
    return id;
}
static void fiberMain()
{
    Fiber& f = F[cur];
    try {
        g_on = 1;
        f.ret = f.fn(f.arg);
        while (!exitsOf[f.id].empty()) {  // its thread-locals
            AtExit e = exitsOf[f.id].back();
            exitsOf[f.id].pop_back();
            e.fn(e.obj);
        }
        g_on = 0;
    }
    catch (...) {
        g_on = 0;
        fail("uncaught-exception", "exception escaped a thread function");
    }
    incEpoch();
    f.st = S_DONE;
    event(63, "thread-exit", cur);
    wakeAll(W_JOIN, &f);
    if (cur == 0) {
        for (int i = 1; i < nf; ++i)
            if (F[i].st != S_DONE) {
                char b[900];
                describeFibers(b, sizeof b);
                fail("thread-left-running", "threads still alive after the run ended: %s", b);
            }
        toDriver();
    }
    schedule();
    abort();
}
struct RawArg {
    void (*fn)(void*);
    void* arg;
};
static RawArg rawArgs[NF];
static void* rawTramp(void* p)
{
    auto* r = static_cast<RawArg*>(p);
    r->fn(r->arg);
    return nullptr;
}
int spawnRaw(void (*fn)(void*), void* arg)
{
    Rt rt;
    if (nf >= NF) fail("harness-limit", "too many threads in one run");
    rawArgs[nf] = {fn, arg};
    int id = newFiber(&rawTramp, &rawArgs[nf]);
    F[id].sut = 0;
    event(64, "spawn", id);
    return id;
}
static void joinFiber(int id)
{
    point();
    while (F[id].st != S_DONE) block(W_JOIN, &F[id], NEVER);
    F[cur].vc.join(F[id].vc);
    event(65, "join", id);
}
void join(int id)
{
    Rt rt;
    joinFiber(id);
}
void yield()
{
    Rt rt;
    event(66, "yield", 0);
    F[cur].prio = rep ? 0 : pctLow--;
    point();
}
void sleepNs(u64 ns)
{
    Rt rt;
    point();
    event(67, "sleep", i64(ns));
    block(W_SLEEP, nullptr, nowNs + (ns ? ns : 1));
}
u64 now() { return nowNs; }
u64 steps() { return nsteps; }
int self() { return cur; }
int nfibers() { return nf; }
u64 seq()
{
    Rt rt;
    point();
    return ++evSeq;
}
void note(const char* what, i64 a, i64 b)
{
    Rt rt;
    event(68, what, a, b);
}
void mark(u64 v)
{
    mix(v);
    mixil(v);
}
void opname(const char* w) { F[cur].op = w; }
void probe(int id)
{
    if (res) res->probes |= 1ULL << id;
}
void addEvals(u64 n)
{
    if (res) res->evals += n;
}
void addGiveUp()
{
    if (res) ++res->gaveUp;
}
bool faultsFired()
{
    for (int i = 0; i < F_N; ++i)
        if (res->fired[i]) return true;
    return false;
}
u32 faultCount(Fault f) { return res->fired[f]; }
bool fiberBlocked(int i) { return F[i].st == S_BLOCKED; }
bool fiberTimed(int i) { return F[i].deadline != NEVER; }
const char* fiberOp(int i) { return F[i].op; }
u32 fiberWaits(int i) { return F[i].waits; }
bool fiberDone(int i) { return F[i].st == S_DONE; }
Sut::Sut() { ++F[cur].sut; }
Sut::~Sut() { --F[cur].sut; }
NoSut::NoSut(): saved(F[cur].sut) { F[cur].sut = 0; }
NoSut::~NoSut() { F[cur].sut = saved; }
NoFault::NoFault() { ++F[cur].nofault; }
NoFault::~NoFault() { --F[cur].nofault; }
Quiet::Quiet(): saved(g_on) { g_on = 0; }
Quiet::~Quiet() { g_on = saved; }
size_t liveSutBlocks() { return liveSut; }
bool arenaLive(const void* p)
{
    return inArena(p) && mstate[reinterpret_cast<u64>(p) - ABASE] == 1;
}
void elemBad(const void* p, u32 magic, const char* what)
{
    Rt rt;
    if (!running) return;
    fail("element-lifetime", "%s of an element that is %s (thread %d, %s)", what,
         magic == kDead ? "already destroyed" : "not constructed", cur,
         inArena(p) ? "container storage" : "caller storage");
}

// ---------------------------------------------------------------- allocator
static void* arenaAlloc(size_t n, size_t align, bool mayThrow, const void* pc)
{
    Fiber& f = F[cur];
    if (f.sut > 0 && !f.nofault && injectIn(F_ALLOC)) {
        if (mayThrow) throw std::bad_alloc();
        return nullptr;
    }
    if (align < 16) align = 16;
    u64 off = (aused + align - 1) & ~u64(align - 1);
    if (n > ASIZE || off + n + 64 > ASIZE) {
        if (n <= (64u << 10)) fail("harness-limit", "simulated heap exhausted");
        if (mayThrow) throw std::bad_alloc();
        return nullptr;
    }
    aused = off + ((n + 15) & ~size_t(15)) + 32;
    if (aused > peakArena) peakArena = aused;
    memset(arena + off, 0xCD, n);
    memset(mstate + off, 1, n);
    if (cfg->race) {
        u32 e = (u32(cur) << 27) | F[cur].vc.c[cur];
        for (size_t i = 0; i < n; ++i) {
            Shadow& s = shadow[off + i];
            s.w = e;
            s.wpc = static_cast<u32>(reinterpret_cast<u64>(pc));
        }
    }
    blocks.push_back({off, n, true, f.sut > 0, cur, pc});
    if (f.sut > 0) ++liveSut;
    blkOf[off / 16] = static_cast<u32>(blocks.size());
    return arena + off;
}
static void raceWrite(u64 off, size_t n, const void* pc, bool atomic, const char* what);
static void arenaFree(void* p, const void* pc)
{
    u64 off = reinterpret_cast<u64>(p) - ABASE;
    u32 b = (off % 16 == 0) ? blkOf[off / 16] : 0;
    if (!b) fail("bad-free", "deallocation of an address that is not an allocation");
    Block& k = blocks[b - 1];
    if (!k.live) fail("double-free", "allocation #%u (%llu bytes) freed twice", b,
                      (unsigned long long)k.size);
    if (cfg->race) raceWrite(off, k.size, pc, false, "free");
    k.live = false;
    if (k.sut) --liveSut;
    memset(arena + off, 0xDD, k.size);
    memset(mstate + off, 2, k.size);
}

// ---------------------------------------------------------------- race oracle
static inline bool ordered(u32 e, const VC& vc)
{
    return e == 0 || (e & 0x7FFFFFF) <= vc.c[e >> 27];
}
[[noreturn]] static void raceFail(u64 off, const char* kind, u32 other, u32 opc, const void* pc)
{
    u32 blk = 0;
    for (u64 b = off / 16 + 1; b-- > 0;)
        if (blkOf[b]) {
            blk = blkOf[b];
            break;
        }
    u64 base = reinterpret_cast<u64>(&__executable_start);
    fail("data-race",
         "unordered accesses to shared memory (allocation #%u of %llu bytes, offset %llu): %s by "
         "t%d (pc +0x%llx, in %s) against t%u (pc +0x%llx, in %s)",
         blk, blk ? (unsigned long long)blocks[blk - 1].size : 0ULL,
         blk ? (unsigned long long)(off - blocks[blk - 1].off) : 0ULL, kind, cur,
         (unsigned long long)(reinterpret_cast<u64>(pc) - base), F[cur].op, other >> 27,
         opc ? (unsigned long long)u32(opc - u32(base)) : 0ULL, F[other >> 27].op);
}
static void raceRead(u64 off, size_t n, const void* pc, bool atomic)
{
    const VC& vc = F[cur].vc;
    u32 e = (u32(cur) << 27) | vc.c[cur];
    for (size_t i = 0; i < n; ++i) {
        Shadow& s = shadow[off + i];
        if (!ordered(s.w, vc)) raceFail(off + i, atomic ? "atomic read" : "read", s.w, s.wpc, pc);
        if (atomic)
            s.ar = e;
        else {
            if (!ordered(s.aw, vc)) raceFail(off + i, "read", s.aw, s.wpc, pc);
            s.r[cur & 3] = e;
        }
    }
}
static void raceWrite(u64 off, size_t n, const void* pc, bool atomic, const char* what)
{
    const VC& vc = F[cur].vc;
    u32 e = (u32(cur) << 27) | vc.c[cur];
    for (size_t i = 0; i < n; ++i) {
        Shadow& s = shadow[off + i];
        if (!ordered(s.w, vc)) raceFail(off + i, what, s.w, s.wpc, pc);
        for (u32 r : s.r)
            if (!ordered(r, vc)) raceFail(off + i, what, r, 0, pc);
        if (atomic)
            s.aw = e;
        else {
            if (!ordered(s.aw, vc)) raceFail(off + i, what, s.aw, s.wpc, pc);
            if (!ordered(s.ar, vc)) raceFail(off + i, what, s.ar, 0, pc);
            s.w = e;
            s.r[0] = s.r[1] = s.r[2] = s.r[3] = 0;
        }
        s.wpc = static_cast<u32>(reinterpret_cast<u64>(pc));
    }
}

// ---------------------------------------------------------------- accesses
[[noreturn]] static void memFail(const void* p, size_t n, bool write)
{
    u64 off = reinterpret_cast<u64>(p) - ABASE;
    u64 bad = off;
    while (bad < off + n && bad < ASIZE && mstate[bad] == 1) ++bad;
    int st = bad < ASIZE ? mstate[bad] : 0;
    u32 blk = 0;
    for (u64 b = bad / 16 + 1; b-- > 0;)
        if (blkOf[b]) {
            blk = blkOf[b];
            break;
        }
    if (st == 2)
        fail("use-after-free", "%s of %zu bytes in freed memory (allocation #%u of %llu bytes), %s",
             write ? "write" : "read", n, blk, blk ? (unsigned long long)blocks[blk - 1].size : 0ULL,
             F[cur].op);
    fail("out-of-bounds", "%s of %zu bytes %lld bytes past the start of a %llu-byte allocation (#%u), %s",
         write ? "write" : "read", n, blk ? (long long)(bad - blocks[blk - 1].off) : 0LL,
         blk ? (unsigned long long)blocks[blk - 1].size : 0ULL, blk, F[cur].op);
}
static void accessSlow(u64 off, size_t n, bool write, const void* pc)
{
    const void* p = arena + off;
    if (n == 0) return;
    Rt rt;
    if (++naccess > maxAccess) {
        char b[900];
        describeFibers(b, sizeof b);
        fail("livelock", "memory access budget exceeded: %s", b);
    }
    if (off + n > ASIZE) memFail(p, n, write);
    for (size_t i = 0; i < n; ++i)
        if (mstate[off + i] != 1) memFail(p, n, write);
    if (cfg->pplain) {
        u32 prop = 0;
        int cand[NF], c = 0;
        cand[c++] = cur;
        for (int k = 1; k < nf; ++k) {
            int i = (cur + k) % nf;
            if (F[i].st == S_READY) cand[c++] = i;
        }
        if (c > 1) {
            if (!rep && rng.below(65536) < cfg->pplain) prop = 1 + rng.below(c - 1);
            u32 v = commit(c, prop);
            if (v) {
                ++nsteps;
                checkCaps();
                event(69, "preempt-at-access", 0);
                switchTo(cand[v]);
                for (size_t i = 0; i < n; ++i)
                    if (mstate[off + i] != 1) memFail(p, n, write);
            }
        }
    }
    if (cfg->race) {
        if (write)
            raceWrite(off, n, pc, false, "write");
        else
            raceRead(off, n, pc, false);
    }
}
static inline void access(const void* p, size_t n, bool write, const void* pc)
{
    if (__builtin_expect(g_on, 1)) {
        u64 off;
        if (inArena(p))
            accessSlow(reinterpret_cast<u64>(p) - ABASE, n, write, pc);
        else if (reinterpret_cast<u64>(p) - statLo < statHi - statLo && statOff(p, off))
            accessSlow(off, n, write, pc);
        else if (__builtin_expect(++naccess > maxAccess, 0))
            accessSlow(0, 1, false, pc);
    }
}

// ---------------------------------------------------------------- atomics
struct AtomVC {
    VC vc;
};
static std::unordered_map<u64, VC> avc;
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static i64 objId(const void* p)
{
    u64 a = reinterpret_cast<u64>(p);
    if (inArena(p)) return i64(a - ABASE);
    return i64(a & 0xFFF);
}
static void atomMem(const void* p, size_t n, bool write, const void* pc)
{
    u64 off;
    if (inArena(p)) off = reinterpret_cast<u64>(p) - ABASE;
    else if (!statOff(p, off)) return;
    for (size_t i = 0; i < n; ++i)
        if (mstate[off + i] != 1) memFail(arena + off, n, write);
    if (cfg->race) {
        if (write)
            raceWrite(off, n, pc, true, "atomic write");
        else
            raceRead(off, n, pc, true);
    }
}
static void atomLoad(const void* p, size_t n, int mo, const void* pc)
{
    atomMem(p, n, false, pc);
    auto it = avc.find(reinterpret_cast<u64>(p));
    if (it != avc.end()) {
        if (isAcq(mo))
            F[cur].vc.join(it->second);
        else
            F[cur].pendAcq.join(it->second);
    }
}
static void atomStore(const void* p, size_t n, int mo, const void* pc)
{
    atomMem(p, n, true, pc);
    VC& v = avc[reinterpret_cast<u64>(p)];
    if (isRel(mo)) {
        v = F[cur].vc;
        incEpoch();
    } else if (F[cur].hasRelF)
        v = F[cur].relF;
    else
        v.zero();
}
static void atomRmw(const void* p, size_t n, int mo, const void* pc)
{
    atomMem(p, n, true, pc);
    auto ins = avc.emplace(reinterpret_cast<u64>(p), VC());
    VC& v = ins.first->second;
    if (ins.second) v.zero();
    if (isAcq(mo))
        F[cur].vc.join(v);
    else
        F[cur].pendAcq.join(v);
    if (isRel(mo)) {
        v.join(F[cur].vc);
        incEpoch();
    } else if (F[cur].hasRelF)
        v.join(F[cur].relF);
}
static void atomFence(int mo)
{
    if (isAcq(mo)) F[cur].vc.join(F[cur].pendAcq);
    if (isRel(mo)) {
        F[cur].relF = F[cur].vc;
        F[cur].hasRelF = true;
        incEpoch();
    }
}

// ---------------------------------------------------------------- sync objects
struct MutexS {
    int owner{-1};
    int count{0};
    VC vc;
};
struct RwS {
    int writer{-1};
    u32 readers{0};
    int rcount[NF]{0};
    VC vc;
};
struct OnceS {
    VC vc;
};
static std::unordered_map<u64, MutexS> mutexes;
static std::unordered_map<u64, RwS> rws;
static std::unordered_map<u64, VC> onces;
struct SemS {
    u32 v{0};
    VC vc;
};
static std::unordered_map<u64, SemS> sems;
static u64 exclLo[8], exclHi[8];
static int nexcl = 0;
static bool simObj(const void* p)
{
    if (!running || !g_on) return false;
    u64 a = reinterpret_cast<u64>(p);
    for (int i = 0; i < nexcl; ++i)
        if (a >= exclLo[i] && a < exclHi[i]) return false;
    return true;
}
static void objCheck(const void* p, size_t n, const char* what)
{
    if (!inArena(p)) return;
    u64 off = reinterpret_cast<u64>(p) - ABASE;
    for (size_t i = 0; i < n; ++i)
        if (mstate[off + i] != 1)
            fail("use-after-free", "%s on a %s synchronisation object (t%d, %s)", what,
                 mstate[off + i] == 2 ? "destroyed" : "non-existent", cur, F[cur].op);
}
static MutexS& mtx(const void* m)
{
    auto ins = mutexes.emplace(reinterpret_cast<u64>(m), MutexS());
    if (ins.second) ins.first->second.vc.zero();
    return ins.first->second;
}
static int lockImpl(pthread_mutex_t* m, bool try_, u64 deadline)
{
    objCheck(m, sizeof *m, "lock");
    point();
    objCheck(m, sizeof *m, "lock");
    MutexS* s = &mtx(m);
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (s->owner == cur && recursive) {
        ++s->count;
        return 0;
    }
    if (s->owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP)
        return try_ ? EBUSY : EDEADLK;
    while (s->owner != -1) {
        if (try_) {
            event(11, "trylock-busy", objId(m));
            return EBUSY;
        }
        event(12, "lock-wait", objId(m));
        if (block(W_MUTEX, m, deadline) == 1 && s->owner != -1) return ETIMEDOUT;
        objCheck(m, sizeof *m, "lock");
        s = &mtx(m);
    }
    s->owner = cur;
    s->count = 1;
    F[cur].vc.join(s->vc);
    event(10, "lock", objId(m));
    return 0;
}
static void unlockRaw(pthread_mutex_t* m)
{
    MutexS& s = mtx(m);
    if (s.owner != cur)
        fail("unlock-not-owner", "thread %d unlocked a mutex it does not hold (owner %d), %s", cur,
             s.owner, F[cur].op);
    if (--s.count > 0) return;
    s.vc = F[cur].vc;
    incEpoch();
    s.owner = -1;
    wakeAll(W_MUTEX, m);
}
static int unlockImpl(pthread_mutex_t* m)
{
    objCheck(m, sizeof *m, "unlock");
    point();
    objCheck(m, sizeof *m, "unlock");
    event(13, "unlock", objId(m));
    unlockRaw(m);
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
{
    objCheck(c, sizeof *c, "wait");
    point();
    objCheck(c, sizeof *c, "wait");
    event(20, deadline == NEVER ? "cond-wait" : "cond-timedwait", objId(c));
    ++F[cur].waits;
    unlockRaw(m);
    int r = 1;
    if (deadline > nowNs)
        r = block(W_COND, c, deadline);
    event(21, r == 1 ? "cond-timeout" : r == 2 ? "cond-spurious" : "cond-wake", objId(c));
    // reacquire
    MutexS* s = &mtx(m);
    while (s->owner != -1) {
        block(W_MUTEX, m, NEVER);
        s = &mtx(m);
    }
    objCheck(m, sizeof *m, "relock");
    s->owner = cur;
    s->count = 1;
    F[cur].vc.join(s->vc);
    event(22, "cond-return", objId(c));
    return r == 1 ? ETIMEDOUT : 0;
}
static int condSignal(pthread_cond_t* c, bool all)
{
    objCheck(c, sizeof *c, "notify");
    point();
    objCheck(c, sizeof *c, "notify");
    int w[NF], n = 0;
    for (int i = 0; i < nf; ++i)
        if (F[i].st == S_BLOCKED && F[i].wk == W_COND && F[i].wobj == c) w[n++] = i;
    event(all ? 24 : 23, all ? "notify-all" : "notify-one", objId(c), n);
    if (!n) return 0;
    if (all) {
        wakeAll(W_COND, c);
        return 0;
    }
    // arrival order
    for (int i = 1; i < n; ++i)
        for (int j = i; j > 0 && F[w[j]].seq < F[w[j - 1]].seq; --j) std::swap(w[j], w[j - 1]);
    u32 v = commit(n, rep ? 0 : (rng.chance(1, 2) ? rng.below(n) : 0));
    Fiber& f = F[w[v]];
    f.st = S_READY;
    f.wres = 0;
    f.deadline = NEVER;
    event(25, "wakes", w[v]);
    return 0;
}
static u64 toMono(clockid_t clk, const timespec* ts)
{
    // what is decades away does not come
    if (ts->tv_sec > (clk == CLOCK_REALTIME ? 1700000000LL : 0) + 2000000000LL) return NEVER;
    i64 t = i64(ts->tv_sec) * 1000000000LL + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) t -= 1700000000LL * 1000000000LL + rtSkew;
    else t -= i64(cfg->uptime) * 1000000000LL;
    if (t < 0) t = 0;
    return u64(t);
}
static void fromMono(clockid_t clk, timespec* ts)
{
    i64 t = i64(nowNs);
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE)
        t += 1700000000LL * 1000000000LL + rtSkew;
    else
        t += i64(cfg->uptime) * 1000000000LL;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
}

// ---------------------------------------------------------------- run control
static void* bodyTramp(void*)
{
    gsc->body(*gprog);
    return nullptr;
}
static void onTerminate()
{
    if (running) {
        g_on = 0;
        const char* what = "(no exception)";
        char b[256];
        if (auto ep = std::current_exception()) {
            (void)ep;
            try {
                throw;
            }
            catch (const std::exception& e) {
                snprintf(b, sizeof b, "exception: %s", e.what());
                what = b;
            }
            catch (...) {
                what = "exception of another type";
            }
        }
        fail("terminate", "std::terminate called by t%d in %s: %s", cur, F[cur].op, what);
    }
    _exit(70);
}
static void onSignal(int sig)
{
    // unrecoverable in-process: the parent reads the shared result
    if (res && !res->failed && running) {
        res->failed = true;
        snprintf(res->cls, sizeof res->cls, "%s",
                 sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : "crash");
        snprintf(res->msg, sizeof res->msg, "signal %d in t%d, operation %s", sig, cur,
                 cur >= 0 ? F[cur].op : "");
    }
    if (running) {
        // leave the signal stack for the driver's stack; the caller of runOnce
        // treats these classes like any other failure
        sigset_t s;
        sigemptyset(&s);
        sigaddset(&s, sig);
        sigprocmask(SIG_UNBLOCK, &s, nullptr);
        toDriver();
    }
    _exit(71);
}
static int phdrCb(dl_phdr_info* i, size_t, void*)
{
    if (i->dlpi_name &&
        (strstr(i->dlpi_name, "libgcc_s") || strstr(i->dlpi_name, "libc.so") ||
         strstr(i->dlpi_name, "ld-linux"))) {
        u64 lo = ~0ULL, hi = 0;
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD) {
                u64 a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                if (a < lo) lo = a;
                if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
            }
        if (nexcl < 8) {
            exclLo[nexcl] = lo;
            exclHi[nexcl++] = hi;
        }
    }
    return 0;
}
static void* mapAt(u64 addr, u64 size)
{
    void* p = mmap(reinterpret_cast<void*>(addr), size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (addr && p != reinterpret_cast<void*>(addr))) {
        fprintf(stderr, "sim: cannot map memory\n");
        _exit(72);
    }
    return p;
}
void runtimeInit()
{
    static bool done = false;
    if (done) return;
    done = true;
    mapAt(ABASE, ASIZE);
    shadow = static_cast<Shadow*>(mapAt(ABASE + (1ULL << 32), ASIZE * sizeof(Shadow)));
    mstate = static_cast<u8*>(mapAt(0, ASIZE));
    blkOf = static_cast<u32*>(mapAt(0, ASIZE / 16 * 4));
    stkBase = static_cast<char*>(mapAt(ABASE + (2ULL << 32), (STK + 4096) * NF));
    for (int i = 0; i < NF; ++i) {
        mprotect(stkBase + u64(i) * (STK + 4096), 4096, PROT_NONE);
        F[i].stk = stkBase + u64(i) * (STK + 4096) + 4096;
    }
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 64 * 1024;
    ss.ss_sp = mapAt(0, ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    dl_iterate_phdr(phdrCb, nullptr);
    findStatics();
    __libc_single_threaded = 0;
    evlog.reserve(4096);
}

void runOnce(const Scenario& sc, const Program& prog, const Config& c, u64 seed,
             const std::vector<Decision>* replay, std::vector<Decision>& recOut, Result& r)
{
    runtimeInit();
    __libc_single_threaded = 0;
    gsc = &sc;
    gprog = &prog;
    cfg = &c;
    rep = replay;
    repPos = 0;
    rec = &recOut;
    recOut.clear();
    r = Result();
    res = &r;
    rng = Rng(seed * 0x9E3779B97F4A7C15ULL + 0x1234567);
    didx = nsteps = evSeq = waitSeq = naccess = 0;
    maxAccess = 30000000 + (c.maxsteps > 1000000 ? 100 * u64(c.maxsteps) : 0);
    nowNs = 1;
    rtSkew = 0;
    nfaults = 0;
    hashv = 0xcbf29ce484222325ULL;
    ilhash = 0xcbf29ce484222325ULL;
    evlog.clear();
    onIdle = nullptr;
    onDeadlock = nullptr;
    memset(&ledger, 0, sizeof ledger);
    histReset();
    // reset arena
    if (aused) {
        u64 n = (aused + 63) & ~63ULL;
        memset(mstate, 0, n);
        memset(blkOf, 0, n / 16 * 4);
        memset(static_cast<void*>(shadow), 0, n * sizeof(Shadow));
        // memory content of the previous run must not leak into this one
        memset(arena, 0, n);
    }
    aused = 64 + ((statTotal + 63) & ~63ULL);
    for (auto& s : stats) {
        memcpy(s.p, s.init.data(), s.n);
        memset(mstate + s.off, 1, s.n);
    }
    if (!tlsVars.empty()) tlsSet(tlsInit);
    blocks.clear();
    liveSut = 0;
    avc.clear();
    mutexes.clear();
    rws.clear();
    onces.clear();
    sems.clear();
    pctPts.clear();
    pctPos = 0;
    pctLow = 0;
    pctAt = false;
    if (!rep && c.strategy == 1) {
        for (u32 i = 0; i < c.pctDepth; ++i) pctPts.push_back(1 + rng.below(c.pctLen));
        for (size_t i = 1; i < pctPts.size(); ++i)
            for (size_t j = i; j > 0 && pctPts[j] < pctPts[j - 1]; --j)
                std::swap(pctPts[j], pctPts[j - 1]);
    }
    nf = 0;
    cur = -1;
    over = false;
    newFiber(&bodyTramp, nullptr);
    cur = 0;
    driverEh = *reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    running = true;
    loadTls(F[0]);
    simSwitch(&driverSp, F[0].sp);
    g_on = 0;
    running = false;
    *reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()) = driverEh;
    bool natural = !r.failed && F[0].st == S_DONE;
    if (natural && c.leak) {
        if (liveSut) {
            size_t n = 0;
            u64 bytes = 0;
            std::vector<char> kept(blocks.size(), 0);
            markReachable(kept);
            for (auto& b : blocks)
                if (b.live && b.sut && !kept[size_t(&b - blocks.data())]) {
                    ++n;
                    bytes += b.size;
                }
            if (n) {
                r.failed = true;
                snprintf(r.cls, sizeof r.cls, "leak");
                snprintf(r.msg, sizeof r.msg, "%zu allocations (%llu bytes) made by the library were never freed",
                         n, (unsigned long long)bytes);
            }
        }
        if (!r.failed && ledger.live != 0) {
            r.failed = true;
            snprintf(r.cls, sizeof r.cls, "element-leak");
            snprintf(r.msg, sizeof r.msg, "%lld elements were constructed but never destroyed",
                     (long long)ledger.live);
        }
    }
    if (!r.failed && sc.post) {
        try {
            sc.post(prog);
        }
        catch (int) {
        }
    }
    r.hash = hashv;
    r.ilhash = ilhash;
    r.steps = nsteps;
    r.simtime = nowNs;
    r.decisions = didx;
    r.accesses = naccess;
    r.fibers = nf;
    res = nullptr;
}
}  // namespace sim

using namespace sim;

// =============================================================== allocator
#define PC __builtin_return_address(0)
static void* doNew(size_t n, size_t al, bool thr, const void* pc)
{
    if (g_on && running) {
        Rt rt;
        return arenaAlloc(n, al, thr, pc);
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && thr) throw std::bad_alloc();
    return p;
}
static void doDel(void* p, const void* pc)
{
    if (!p) return;
    if (inArena(p)) {
        if (!running) return;
        Rt rt;
        arenaFree(p, pc);
    } else
        free(p);
}
void* operator new(size_t n) { return doNew(n, 16, true, PC); }
void* operator new[](size_t n) { return doNew(n, 16, true, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16, false, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16, false, PC); }
void* operator new(size_t n, std::align_val_t a) { return doNew(n, size_t(a), true, PC); }
void* operator new[](size_t n, std::align_val_t a) { return doNew(n, size_t(a), true, PC); }
void operator delete(void* p) noexcept { doDel(p, PC); }
void operator delete[](void* p) noexcept { doDel(p, PC); }
void operator delete(void* p, size_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, size_t) noexcept { doDel(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doDel(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doDel(p, PC); }

// =============================================================== pthread
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!simObj(m)) return 0;
    Rt rt;
    return lockImpl(m, false, NEVER);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!simObj(m)) return 0;
    Rt rt;
    return lockImpl(m, true, NEVER);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept
{
    if (!simObj(m)) return 0;
    Rt rt;
    return lockImpl(m, false, toMono(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) noexcept
{
    if (!simObj(m)) return 0;
    Rt rt;
    return lockImpl(m, false, toMono(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!simObj(m)) return 0;
    Rt rt;
    return unlockImpl(m);
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (!simObj(c)) return 0;
    Rt rt;
    for (int i = 0; i < nf; ++i)
        if (F[i].st == S_BLOCKED && F[i].wk == W_COND && F[i].wobj == c)
            fail("use-after-free", "condition variable destroyed while t%d waits on it (%s)", i,
                 F[i].op);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!simObj(c)) return 0;
    Rt rt;
    return condWait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!simObj(c)) return 0;
    Rt rt;
    return condWait(c, m, toMono(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!simObj(c)) return 0;
    Rt rt;
    return condWait(c, m, toMono(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!simObj(c)) return 0;
    Rt rt;
    return condSignal(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!simObj(c)) return 0;
    Rt rt;
    return condSignal(c, true);
}
static RwS& rwOf(const void* p)
{
    auto ins = rws.emplace(reinterpret_cast<u64>(p), RwS());
    if (ins.second) ins.first->second.vc.zero();
    return ins.first->second;
}
static int rwLock(pthread_rwlock_t* l, bool wr, bool try_, u64 dl)
{
    objCheck(l, sizeof *l, "lock");
    point();
    objCheck(l, sizeof *l, "lock");
    for (;;) {
        RwS& s = rwOf(l);
        if (s.writer == -1 && (!wr || s.readers == 0)) {
            if (wr)
                s.writer = cur;
            else {
                ++s.readers;
                ++s.rcount[cur];
            }
            F[cur].vc.join(s.vc);
            event(wr ? 31 : 30, wr ? "wrlock" : "rdlock", objId(l));
            return 0;
        }
        if (try_) return EBUSY;
        if (block(W_RW, l, dl) == 1) return ETIMEDOUT;
    }
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, false, false, NEVER);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, true, false, NEVER);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, false, true, NEVER);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, true, true, NEVER);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, false, false, toMono(c, ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    return rwLock(l, true, false, toMono(c, ts));
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!simObj(l)) return 0;
    Rt rt;
    objCheck(l, sizeof *l, "unlock");
    point();
    objCheck(l, sizeof *l, "unlock");
    RwS& s = rwOf(l);
    if (s.writer == cur) {
        s.writer = -1;
        s.vc = F[cur].vc;
    } else if (s.rcount[cur] > 0) {
        --s.rcount[cur];
        --s.readers;
        s.vc.join(F[cur].vc);
    } else
        fail("unlock-not-owner", "thread %d unlocked a shared mutex it does not hold", cur);
    incEpoch();
    event(32, "rwunlock", objId(l));
    wakeAll(W_RW, l);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    int* st = reinterpret_cast<int*>(o);
    if (!simObj(o)) {
        if (*st == 0) {
            *st = 2;
            fn();
        }
        return 0;
    }
    {
        Rt rt;
        objCheck(o, sizeof *o, "call_once");
        point();
        objCheck(o, sizeof *o, "call_once");
        while (*st == 1) block(W_ONCE, o, NEVER);
        if (*st == 2) {
            auto it = onces.find(reinterpret_cast<u64>(o));
            if (it != onces.end()) F[cur].vc.join(it->second);
            event(40, "once-done", objId(o));
            return 0;
        }
        *st = 1;
        event(41, "once-run", objId(o));
    }
    try {
        fn();
    }
    catch (...) {
        Rt rt;
        *st = 0;
        wakeAll(W_ONCE, o);
        throw;
    }
    Rt rt;
    *st = 2;
    onces[reinterpret_cast<u64>(o)] = F[cur].vc;
    incEpoch();
    wakeAll(W_ONCE, o);
    return 0;
}
// initialisation of function-local statics
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    if (b[0]) return 0;
    if (!simObj(g)) return 1;
    Rt rt;
    point();
    while (b[1] && !b[0]) block(W_ONCE, g, NEVER);
    if (b[0]) {
        atomLoad(g, 1, 2, nullptr);
        return 0;
    }
    b[1] = 1;
    event(41, "static-init", objId(g));
    return 1;
}
static void guardEnd(__cxxabiv1::__guard* g, bool ok)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    b[0] = ok;
    b[1] = 0;
    if (!simObj(g)) return;
    Rt rt;
    if (ok) atomStore(g, 1, 3, nullptr);
    wakeAll(W_ONCE, g);
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { guardEnd(g, true); }
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { guardEnd(g, false); }
// destructors of thread-locals run when their fiber ends
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept
{
    if (running && cur >= 0) {
        Rt rt;
        exitsOf[cur].push_back({fn, obj});
    }
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
    if (!running || !g_on) return EAGAIN;
    Rt rt;
    point();
    if (F[cur].sut > 0 && !F[cur].nofault && injectIn(F_THREAD)) return EAGAIN;
    int id = newFiber(fn, arg);
    F[id].op = "worker";
    *t = 0x1000 + id;
    event(50, "thread-create", id);
    point();
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    if (!running || !g_on) return ESRCH;
    Rt rt;
    int id = int(t) - 0x1000;
    if (id < 0 || id >= nf) return ESRCH;
    if (id == cur) return EDEADLK;
    if (F[id].detached) return EINVAL;
    if (F[id].joined)
        fail("double-join", "thread t%d joined a thread that was already joined (%s)", cur, F[cur].op);
    joinFiber(id);
    if (F[id].joined)
        fail("double-join", "two threads joined t%d (%s)", id, F[cur].op);
    F[id].joined = true;
    if (ret) *ret = F[id].ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept
{
    if (!running || !g_on) return ESRCH;
    int id = int(t) - 0x1000;
    if (id < 0 || id >= nf) return ESRCH;
    F[id].detached = true;
    return 0;
}
pthread_t pthread_self() noexcept
{
    if (!running || cur < 0) return 0x1000;
    return 0x1000 + cur;
}
int sched_yield() noexcept
{
    if (running && g_on) sim::yield();
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) noexcept
{
    if (!simObj(s)) return 0;
    Rt rt;
    SemS& x = sems[reinterpret_cast<u64>(s)];
    x.v = v;
    x.vc.zero();
    return 0;
}
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept
{
    if (!simObj(s)) return 0;
    Rt rt;
    objCheck(s, sizeof *s, "post");
    point();
    SemS& x = sems[reinterpret_cast<u64>(s)];
    ++x.v;
    x.vc.join(F[cur].vc);
    incEpoch();
    wakeAll(W_SEM, s);
    return 0;
}
int sem_wait(sem_t* s)
{
    if (!simObj(s)) return 0;
    Rt rt;
    objCheck(s, sizeof *s, "wait");
    point();
    while (sems[reinterpret_cast<u64>(s)].v == 0) block(W_SEM, s, NEVER);
    SemS& x = sems[reinterpret_cast<u64>(s)];
    --x.v;
    F[cur].vc.join(x.vc);
    return 0;
}
int sem_trywait(sem_t* s) noexcept
{
    if (!simObj(s)) return 0;
    Rt rt;
    point();
    SemS& x = sems[reinterpret_cast<u64>(s)];
    if (!x.v) {
        errno = EAGAIN;
        return -1;
    }
    --x.v;
    F[cur].vc.join(x.vc);
    return 0;
}
// ---- time
int clock_gettime(clockid_t c, timespec* ts) noexcept
{
    if (!running || !g_on) return int(syscall(SYS_clock_gettime, c, ts));
    fromMono(c, ts);
    return 0;
}
int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const timespec* a, timespec*)
{
    if (!running || !g_on) return int(syscall(SYS_nanosleep, a, nullptr));
    sim::sleepNs(u64(a->tv_sec) * 1000000000ULL + u64(a->tv_nsec));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec*)
{
    if (!running || !g_on) return int(syscall(SYS_clock_nanosleep, c, flags, a, nullptr));
    u64 d = u64(a->tv_sec) * 1000000000ULL + u64(a->tv_nsec);
    if (flags & TIMER_ABSTIME) {
        u64 t = toMono(c, a);
        d = t > nowNs ? t - nowNs : 0;
    }
    sim::sleepNs(d);
    return 0;
}
int usleep(useconds_t u)
{
    timespec ts{time_t(u / 1000000), long(u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int get_nprocs() noexcept
{
    return 2;
}
}  // extern "C"

#include <future>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool hasTo,
                                                       chrono::seconds s, chrono::nanoseconds ns)
{
    if (!running || !g_on) return true;
    Rt rt;
    point();
    objCheck(a, 4, "future wait");
    if (*reinterpret_cast<volatile unsigned*>(a) != v) return true;
    u64 dl = NEVER;
    if (hasTo) {
        timespec ts{s.count(), long(ns.count())};
        dl = toMono(CLOCK_REALTIME, &ts);
        if (dl <= nowNs) return false;
    }
    event(42, "future-wait", objId(a));
    int r = block(W_FUTEX, a, dl);
    objCheck(a, 4, "future wait");
    return r != 1;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool hasTo,
                                                              chrono::seconds s,
                                                              chrono::nanoseconds ns)
{
    if (!running || !g_on) return true;
    Rt rt;
    point();
    objCheck(a, 4, "future wait");
    if (*reinterpret_cast<volatile unsigned*>(a) != v) return true;
    u64 dl = NEVER;
    if (hasTo) {
        timespec ts{s.count(), long(ns.count())};
        dl = toMono(CLOCK_MONOTONIC, &ts);
        if (dl <= nowNs) return false;
    }
    event(42, "future-wait", objId(a));
    int r = block(W_FUTEX, a, dl);
    objCheck(a, 4, "future wait");
    return r != 1;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (!running || !g_on) return;
    Rt rt;
    event(43, "future-notify", objId(a));
    wakeAll(W_FUTEX, a);
}
}  // namespace std

// =============================================================== tsan hooks
extern "C" {
void __tsan_init() {}
#define RW(N)                                                                    \
    void __tsan_read##N(void* p) { access(p, N, false, PC); }                    \
    void __tsan_write##N(void* p) { access(p, N, true, PC); }                    \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }          \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }          \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }           \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }           \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, true, PC); }               \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    access(d, n, true, PC);
    return memset(d, c, n);
}

#define GUARD(p, what)                        \
    int sv_ = g_on;                           \
    bool live_ = running && sv_;              \
    struct Re { int s; ~Re() { g_on = s; } } re_{sv_}; \
    g_on = 0;                                 \
    if (live_) point();

#define ATOMICS(B, T)                                                                            \
    T __tsan_atomic##B##_load(const volatile T* a, int mo)                                       \
    {                                                                                            \
        GUARD(a, "load")                                                                         \
        if (live_) {                                                                             \
            atomLoad((const void*)a, sizeof(T), mo, PC);                                         \
            event(70, "atomic-load", objId((const void*)a), sizeof(T) < 8 ? i64(*a) : 0);                            \
        }                                                                                        \
        return *a;                                                                               \
    }                                                                                            \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                    \
    {                                                                                            \
        GUARD(a, "store")                                                                        \
        if (live_) {                                                                             \
            atomStore((const void*)a, sizeof(T), mo, PC);                                        \
            event(71, "atomic-store", objId((const void*)a), sizeof(T) < 8 ? i64(v) : 0);                            \
        }                                                                                        \
        *a = v;                                                                                  \
    }                                                                                            \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo)                                    \
    {                                                                                            \
        GUARD(a, "exchange")                                                                     \
        if (live_) {                                                                             \
            atomRmw((const void*)a, sizeof(T), mo, PC);                                          \
            event(72, "atomic-exchange", objId((const void*)a), sizeof(T) < 8 ? i64(v) : 0);                         \
        }                                                                                        \
        T o = *a;                                                                                \
        *a = v;                                                                                  \
        return o;                                                                                \
    }                                                                                            \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)    \
    {                                                                                            \
        GUARD(a, "cas")                                                                          \
        bool ok = *a == *c;                                                                      \
        if (live_) {                                                                             \
            if (ok) atomRmw((const void*)a, sizeof(T), mo, PC);                                  \
            else atomLoad((const void*)a, sizeof(T), fmo, PC);                                   \
            event(73, "atomic-cas", objId((const void*)a), ok);                                  \
        }                                                                                        \
        if (ok) *a = v;                                                                          \
        else *c = *a;                                                                            \
        return ok;                                                                               \
    }                                                                                            \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)      \
    {                                                                                            \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                     \
    }                                                                                            \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)          \
    {                                                                                            \
        T e = c;                                                                                 \
        __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                           \
        return e;                                                                                \
    }                                                                                            \
    FETCH(B, T, add, +) FETCH(B, T, sub, -) FETCH(B, T, and, &) FETCH(B, T, or, |)               \
    FETCH(B, T, xor, ^)
#define FETCH(B, T, NAME, OP)                                                                    \
    T __tsan_atomic##B##_fetch_##NAME(volatile T* a, T v, int mo)                                \
    {                                                                                            \
        GUARD(a, "fetch")                                                                        \
        if (live_) {                                                                             \
            atomRmw((const void*)a, sizeof(T), mo, PC);                                          \
            event(74, "atomic-rmw", objId((const void*)a), sizeof(T) < 8 ? i64(v) : 0);                              \
        }                                                                                        \
        T o = *a;                                                                                \
        *a = T(o OP v);                                                                          \
        return o;                                                                                \
    }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (!running || !g_on) return;
    Rt rt;
    point();
    atomFence(mo);
    event(75, "fence", mo);
}
void __tsan_atomic_signal_fence(int) {}
}
