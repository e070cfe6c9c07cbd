// Deterministic simulator: public interface used by the harnesses.
// One OS thread; every "thread" of a simulated run is a fiber; every
// nondeterministic choice comes from one decision stream.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

// a check compiles only its own scenarios (0: all of them)
#ifndef SIM_ONLY
#    define SIM_ONLY 0
#endif
// 0 when the code under test does not compile with the unusual element types
#ifndef SIM_EXTRAS
#    define SIM_EXTRAS 1
#endif
#define SIM_HAS(n) (SIM_ONLY == 0 || SIM_ONLY == (n))

namespace sim {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

struct Rng {
    u64 s{0};
    Rng() = default;
    explicit Rng(u64 seed): s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? static_cast<u32>((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

enum Fault {
    F_ALLOC,  // operator new inside the code under test throws bad_alloc
    F_COPY,  // element copy constructor throws
    F_ASSIGN,  // element copy/value assignment throws
    F_CTOR,  // element value construction throws
    F_SPURIOUS,  // a condition-variable waiter wakes without notification
    F_TIMEJUMP,  // virtual time jumps to the next timer while others are runnable
    F_CLOCKJUMP,  // the realtime clock is stepped forwards or backwards
    F_THREAD,  // pthread_create fails with EAGAIN
    F_STALL,  // the running thread is paused for a long virtual time
    F_CALLBACK,  // a user callback / task throws
    F_N
};
extern const char* const faultNames[F_N];

struct Op {
    int k{0};
    int a{0};
    int b{0};
    int c{0};
};
struct Program {
    std::vector<int> par;
    std::vector<std::vector<Op>> th;
    int p(size_t i) const { return i < par.size() ? par[i] : 0; }
};
struct Config {
    int strategy{0};  // 0 random walk, 1 PCT
    u32 psw{100};  // /1024 switch probability (random walk)
    u32 pplain{0};  // /65536 switch probability at plain accesses
    u32 pctDepth{3};
    u32 pctLen{200};
    u32 pf[F_N] = {0};  // /65536 fault probability per opportunity
    u32 maxf{0};  // max injected faults (all but spurious) per run
    bool race{false};  // happens-before data-race oracle
    bool leak{true};  // leak oracle at the end of the run
    u32 maxsteps{60000};
    u64 maxtime{3600ULL * 1000000000ULL};
    u64 uptime{1000};  // seconds the machine has been up when the run starts
};

struct Scenario {
    const char* prop;
    const char* name;
    int weight;
    void (*gen)(Rng&, int tier, Program&, Config&);
    void (*body)(const Program&);
    void (*post)(const Program&);  // history checks, outside the simulation
    const char* const* opnames;  // null terminated
    const char* const* probes;  // null terminated probe names (may be null)
};
// every harness file registers its scenarios and the code they run
struct Register {
    Register(Scenario* s, size_t n, const char* const* realCode);
};

// ---- inside a run -------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
int spawnRaw(void (*fn)(void*), void* arg);
template<class F>
int go(F* f)
{
    return spawnRaw([](void* p) { (*static_cast<F*>(p))(); }, f);
}
void join(int fid);
void yield();
void sleepNs(u64 ns);
u64 now();
u64 steps();
u64 seq();  // next global event number (also a scheduling point)
int self();
int nfibers();
bool inject(Fault f);  // a fault opportunity
u32 choose(u32 n);  // a recorded nondeterministic choice
void note(const char* what, i64 a = 0, i64 b = 0);  // event into log and hash
void mark(u64 v);  // an operation, into the event hashes
void opname(const char* what);  // label of the current fiber's operation
void probe(int id);
void addEvals(u64 n);
void addGiveUp();  // a history whose check was cut short
bool faultsFired();
u32 faultCount(Fault f);
// a fiber's state, for idle / deadlock callbacks
bool fiberBlocked(int fid);
const char* fiberOp(int fid);
bool fiberDone(int fid);
bool fiberTimed(int fid);
u32 fiberWaits(int fid);  // condition variable waits it has begun

struct Sut {  // allocations and element operations inside are fault eligible
    Sut();
    ~Sut();
};
struct NoSut {  // callback code that belongs to the harness again
    int saved;
    NoSut();
    ~NoSut();
};
// temporarily suspends fault injection by the current fiber
struct NoFault {
    NoFault();
    ~NoFault();
};
// run-scoped hooks; cleared at the start of each run
extern void (*onIdle)(u64 target);  // before time advances because all idle
extern bool (*onDeadlock)();  // true: the run legitimately ends here
// runtime-private regions: harness bookkeeping neither scheduled nor checked
struct Quiet {
    int saved;
    Quiet();
    ~Quiet();
};
bool arenaLive(const void* p);  // p points into a live arena block
size_t liveSutBlocks();

// ---- element ledger -----------------------------------------------------
struct Ledger {
    i64 live;  // constructed and not destroyed Elem objects
    i64 valid;  // of those, holding a value (not moved-from / default)
    i64 made;
    i64 copies;
    i64 moves;
};
extern Ledger ledger;
// no access that might switch threads comes between reading and writing
inline void bump(i64& n, int d)
{
    asm volatile("" ::: "memory");
    n += d;
    asm volatile("" ::: "memory");
}

struct Tok {  // marks construction from a fresh value
    int id;
};
constexpr u32 kLive = 0x4C495645U;
constexpr u32 kDead = 0x44454144U;
void elemBad(const void* p, u32 magic, const char* what);

// tracked element: throwing copy/value construction and copy assignment,
// non-throwing moves
struct Elem {
    int id;
    u32 magic;
    int pad[2];
    Elem() noexcept: id(-1), magic(kLive) { bump(ledger.live, 1); pad[0] = pad[1] = 0; }
    explicit Elem(int v): id(-1), magic(0)
    {
        pad[0] = pad[1] = 0;
        if (inject(F_CTOR)) throw v;
        id = v;
        magic = kLive;
        bump(ledger.live, 1);
        bump(ledger.made, 1);
        if (v >= 0) bump(ledger.valid, 1);
    }
    Elem(const Elem& o): id(-1), magic(0)
    {
        pad[0] = pad[1] = 0;
        o.check("copy from");
        if (inject(F_COPY)) throw o.id;
        id = o.id;
        magic = kLive;
        bump(ledger.live, 1);
        bump(ledger.copies, 1);
        if (id >= 0) bump(ledger.valid, 1);
    }
    Elem(Elem&& o) noexcept: id(o.id), magic(kLive)
    {
        pad[0] = pad[1] = 0;
        o.check("move from");
        o.id = -1;
        bump(ledger.live, 1);
        bump(ledger.moves, 1);
    }
    Elem& operator=(const Elem& o)
    {
        check("assign to");
        o.check("assign from");
        if (inject(F_ASSIGN)) throw o.id;
        if (id >= 0) bump(ledger.valid, -1);
        id = o.id;
        if (id >= 0) bump(ledger.valid, 1);
        bump(ledger.copies, 1);
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept
    {
        check("move-assign to");
        o.check("move-assign from");
        if (&o != this) {
            if (id >= 0) bump(ledger.valid, -1);
            id = o.id;
            o.id = -1;
        }
        bump(ledger.moves, 1);
        return *this;
    }
    ~Elem()
    {
        if (magic != kLive) elemBad(this, magic, "destroy");
        magic = kDead;
        if (id >= 0) bump(ledger.valid, -1);
        id = -77;
        bump(ledger.live, -1);
    }
    void check(const char* what) const
    {
        if (magic != kLive) elemBad(this, magic, what);
    }
    int get() const
    {
        check("read");
        return id;
    }
    bool operator==(const Elem& o) const { return id == o.id; }
};
// one that can only be moved
struct MoveOnly: Elem {
    MoveOnly() = default;
    explicit MoveOnly(int v): Elem(v) {}
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
};
// one that can only be copied, also where others would be moved
struct CopyOnly: Elem {
    CopyOnly() = default;
    explicit CopyOnly(int v): Elem(v) {}
    CopyOnly(const CopyOnly&) = default;
    CopyOnly& operator=(const CopyOnly&) = default;
};
// one that is nothing but its bytes
struct Plain {
    int id;
    int pad[3];
    Plain() = default;
    explicit Plain(int v): id(v), pad{v + 1, v + 2, v + 3} {}
    int get() const
    {
        if (pad[0] != id + 1 || pad[1] != id + 2 || pad[2] != id + 3) fail("torn-element", "an element that was never stored: %d", id);
        return id;
    }
    bool operator==(const Plain& o) const { return id == o.id; }
};

// ---- linearizability ----------------------------------------------------
enum LOp {
    L_PUSH,  // a = value
    L_PUSHV,  // a = first value, b = count (contiguous batch)
    L_PUSHP,  // priority push
    L_POP,  // ret = value or -1 (empty)
    L_PEEK,  // ret = value or -1
    L_PEEKW,  // weak peek: a value must be the front; -1 always allowed
    L_SIZE,  // ret = n
    L_EMPTY,  // ret = 0/1
    L_CLEAR,
    L_SIZEWEAK,
    L_SWAPIN,  // move-assignment: contents replaced by batch a..a+b-1
    L_TAKE,  // move out of the whole contents
    L_LOAD,  // airlock: slot must be empty; a = value
    L_TRYLOADFAIL,  // slot must be full
    L_UNLOAD,  // ret = value, -1: slot empty
    L_LOADED,  // ret 0/1
    L_MAYBE_PUSH,  // took effect or not (threw)
};
enum LModel { M_FIFO, M_PRIO, M_SLOT };
int histBegin(LOp op, i64 a = 0, i64 b = 0);  // scheduling point + stamp
void histEnd(int h, i64 ret = 0);
void histCancel(int h);  // operation never took effect (threw)
void histRetype(int h, LOp op, i64 a);
void histReset();
size_t histSize();
// returns empty string if linearizable, otherwise a description
std::string linCheck(LModel m, const std::vector<i64>& initial = {});
std::string histDump();
void histExt(int h, const i64* v, size_t n);
}  // namespace sim
