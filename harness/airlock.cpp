// C07, C08, C13, C15: AirLock
#include "sim.h"

#include <gmlc/containers/AirLock.hpp>

#include <condition_variable>
#include <mutex>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>

using namespace sim;
using gmlc::containers::AirLock;

namespace {
enum K { LOAD, LOADC, TRYLOAD, TRYLOADC, UNLOAD, LOADED, SLEEP, YIELD, MANY, OTHER, KN };
const char* const kNames[] = {"load(move)", "load(copy)", "try_load(move)", "try_load(copy)", "try_unload",
                              "isLoaded", "sleep", "yield", "many load+unload", "use of another airlock", nullptr};
const char* const probeNames[] = {"loader_blocked", "try_load_refused", "unload_empty", "load_threw",
                                  "unload_threw", "ended_with_waiting_loader", "drained", "two_loaders_blocked",
                                  "another_airlock", nullptr};
enum P { P_BLOCKED, P_REFUSED, P_UNEMPTY, P_LTHREW, P_UTHREW, P_ENDBLOCKED, P_DRAINED, P_TWO, P_OTHER };
// par: 0 end mode (0 drain while loaders wait, 1 just end)
enum Par { PEND };

// a cargo type whose move is a copy and may throw
struct CElem {
    Elem e;
    CElem() noexcept = default;
    explicit CElem(int v): e(v) {}
    CElem(const CElem&) = default;
    CElem& operator=(const CElem&) = default;
    int get() const { return e.get(); }
};

bool isLoadOp(int f)
{
    const char* o = fiberOp(f);
    return o == kNames[LOAD] || o == kNames[LOADC];
}
bool (*slotFull)() = nullptr;
void* lockPtr = nullptr;

void check(const char* when)
{
    int n = 0, who = -1;
    for (int i = 0; i < nfibers(); ++i)
        if (fiberBlocked(i) && isLoadOp(i)) {
            ++n;
            who = i;
        }
    if (!n) return;
    probe(P_BLOCKED);
    if (n > 1) probe(P_TWO);
    if (!slotFull())
        fail("stranded-loader", "%s: thread %d is still blocked in %s although the airlock is empty", when, who,
             fiberOp(who));
}
void idle(u64) { check("virtual time must advance"); }
bool deadlock()
{
    check("no thread can run");
    bool any = false;
    for (int i = 1; i < nfibers(); ++i) {
        if (fiberDone(i)) continue;
        if (!isLoadOp(i)) return false;
        any = true;
    }
    if (any) probe(P_ENDBLOCKED);
    return any;
}

template<class T, class M, class C>
struct Runner {
    static constexpr bool copies = std::is_copy_constructible<T>::value;
    using L = AirLock<T, M, C>;
    L* a;
    template<class F>
    bool attempt(int h, F&& f)
    {
        try {
            f();
            return true;
        }
        catch (int) {
        }
        catch (const std::bad_alloc&) {
        }
        histCancel(h);
        return false;
    }
    void run(const Op& op)
    {
        opname(kNames[op.k]);
        switch (op.k) {
            case LOAD:
            case LOADC:
            case TRYLOAD:
            case TRYLOADC: {
                bool blocking = op.k == LOAD || op.k == LOADC;
                std::optional<T> v;
                {
                    NoFault n;
                    v.emplace(op.a);
                }
                int h = histBegin(L_LOAD, op.a);
                bool ok = true;
                if (attempt(h, [&] {
                        Sut s;
                        if constexpr (copies) {
                            if (op.k == LOADC) {
                                a->load(static_cast<const T&>(*v));
                                return;
                            }
                            if (op.k == TRYLOADC) {
                                ok = a->try_load(static_cast<const T&>(*v));
                                return;
                            }
                        }
                        if (blocking) a->load(std::move(*v));
                        else ok = a->try_load(std::move(*v));
                    })) {
                    if (!ok) {
                        histRetype(h, L_TRYLOADFAIL, 0);
                        probe(P_REFUSED);
                        // a refused value stays with the caller
                        if (v->get() != op.a)
                            fail("value-lost", "try_load returned false but consumed the caller's value %d", op.a);
                    }
                    v.reset();
                    histEnd(h);
                } else {
                    probe(P_LTHREW);
                    v.reset();
                }
                break;
            }
            case UNLOAD: {
                int h = histBegin(L_UNLOAD);
                i64 r = -1;
                if (attempt(h, [&] {
                        Sut s;
                        auto o = a->try_unload();
                        if (o) {
                            r = o->get();
                            if (r < 0) r = -2;
                        }
                    })) {
                    if (r == -2) fail("bad-value", "try_unload returned a value that was never loaded");
                    if (r < 0) probe(P_UNEMPTY);
                    histEnd(h, r);
                } else
                    probe(P_UTHREW);
                break;
            }
            case LOADED: {
                int h = histBegin(L_LOADED);
                bool b = a->isLoaded();
                histEnd(h, b);
                break;
            }
            case OTHER: {
                // airlocks do not know of each other
                probe(P_OTHER);
                NoFault nf;
                L own;
                T v(op.a), w(op.a + 1);
                bool in = own.try_load(std::move(v)), again = own.try_load(std::move(w)), full = own.isLoaded();
                auto o = own.try_unload();
                int got = o ? o->get() : -1;
                bool none = !own.try_unload();
                if (!in || again || !full || got != op.a || !none || w.get() != op.a + 1)
                    fail("not-linearizable", "another airlock: loaded %d, again %d, isLoaded %d, unloaded %d instead of %d, then empty %d", int(in),
                         int(again), int(full), got, op.a, int(none));
                own.load(std::move(w));
                break;
            }
            case SLEEP: sleepNs(u64(op.a) * 100000); break;
            case YIELD: yield(); break;
            case MANY:
                for (int i = 0; i < op.b; ++i) {
                    run(Op{op.c, op.a + i, 0, 0});
                    run(Op{UNLOAD, 0, 0, 0});
                }
                break;
            default: break;
        }
        opname("");
    }
};

template<class T, class M = std::mutex, class C = std::condition_variable>
void body(const Program& p)
{
    using R = Runner<T, M, C>;
    typename R::L* a;
    {
        NoFault n;
        a = new typename R::L();
    }
    lockPtr = a;
    slotFull = [] {
        Quiet q;
        return static_cast<typename R::L*>(lockPtr)->isLoaded();
    };
    onIdle = idle;
    onDeadlock = deadlock;
    R r{a};
    struct Th {
        R* r;
        const std::vector<Op>* ops;
        void operator()() const
        {
            for (auto& o : *ops) r->run(o);
        }
    };
    Th th[8];
    int id[8];
    int n = int(p.th.size());
    if (n > 8) n = 8;
    if (n) {
        th[0] = {&r, &p.th[0]};
        th[0]();
    }
    for (int i = 1; i < n; ++i) {
        th[i] = {&r, &p.th[i]};
        id[i] = go(&th[i]);
    }
    if (p.p(PEND) == 0) {
        // keep unloading until every loader is through: each successful
        // unload must let a waiting loader proceed
        for (int guard = 0; guard < 4000; ++guard) {
            bool all = true;
            for (int i = 1; i < n; ++i) all = all && fiberDone(id[i]);
            if (all) break;
            // only unload a full slot: unlimited failing attempts would
            // overflow the history
            if (a->isLoaded() && histSize() < 8000) {
                NoFault nf;
                r.run(Op{UNLOAD, 0, 0, 0});
            } else
                sleepNs(1000);
        }
    }
    for (int i = 1; i < n; ++i) join(id[i]);
    opname("final phase");
    {
        NoFault nf;
        for (int k = 0; k < 2; ++k) {
            r.run(Op{LOADED, 0, 0, 0});
            r.run(Op{UNLOAD, 0, 0, 0});
        }
        probe(P_DRAINED);
        // still usable
        r.run(Op{TRYLOAD, 90000, 0, 0});
        r.run(Op{UNLOAD, 0, 0, 0});
    }
    delete a;
}

void post(const Program&)
{
    std::string e = linCheck(M_SLOT);
    if (!e.empty()) fail("not-linearizable", "%s", e.c_str());
}

void genCommon(Rng& r, Program& p, Config& c, bool faults, bool contend, int tier)
{
    int nt = 2 + int(r.below(contend ? 4 : 3));
    if (r.chance(1, 24)) nt = 7;
    p.par = {contend ? int(r.below(3) == 0) : int(r.below(2))};
    p.th.resize(size_t(nt + 1));
    int next = 1;
    int budget = tier ? 34 : 26;
    if (r.chance(1, 3)) p.th[0].push_back({TRYLOAD, next++, 0, 0});
    bool sleeps = r.chance(1, 5), obs = r.chance(1, 3);
    bool many = r.chance(1, 40);
    if (many) c.maxsteps = 1000000;
    for (int t = 0; many && t <= nt; ++t) {
        if (!r.chance(1, 2)) continue;
        int n = 1 + int(r.below(t ? 60 : 400));
        p.th[size_t(t)].push_back({MANY, next, n, t && r.chance(1, 2) ? LOAD : TRYLOAD});
        next += n;
    }
    for (int t = 1; t <= nt; ++t) {
        int role = contend ? (t == nt ? 1 : 0) : int(r.below(3));
        int n = 1 + int(r.below(contend ? 4 : 7));
        if (contend && role == 1) n += 3;
        for (int i = 0; i < n && budget > 0; ++i) {
            --budget;
            auto& th = p.th[size_t(t)];
            if (sleeps && r.chance(1, 6)) th.push_back({SLEEP, int(r.below(30)), 0, 0});
            if (obs && r.chance(1, 5)) {
                th.push_back({LOADED, 0, 0, 0});
                continue;
            }
            bool ld = role == 0 ? r.chance(9, 10) : role == 1 ? r.chance(1, 8) : r.chance(1, 2);
            if (ld) {
                bool cp = r.chance(faults ? 3 : 1, 4);
                bool bl = contend ? r.chance(5, 6) : r.chance(1, 2);
                th.push_back({bl ? (cp ? LOADC : LOAD) : (cp ? TRYLOADC : TRYLOAD), next++, 0, 0});
            } else
                th.push_back({UNLOAD, 0, 0, 0});
        }
    }
    if (r.chance(1, 16)) {
        auto& th = p.th[r.below(u32(nt + 1))];
        th.insert(th.begin() + r.below(u32(th.size() + 1)), Op{OTHER, 5000, 0, 0});
    }
    if (r.chance(1, 3)) {
        c.pf[F_SPURIOUS] = r.chance(1, 2) ? 3000 : 12000;
        c.maxf = 1 + r.below(5);
    }
    if (faults) {
        c.maxf += 1 + r.below(3);
        u32 rate = r.chance(1, 2) ? 5000 : 16000;
        c.pf[F_ASSIGN] = rate;
        if (r.chance(1, 2)) c.pf[F_COPY] = rate;
    }
}
void gen7(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, false, false, t); }
void gen8(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, false, true, t); }
void gen15(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, true, r.chance(2, 3), t); }
void gen13(Rng& r, int t, Program& p, Config& c)
{
    genCommon(r, p, c, false, r.chance(1, 3), t);
    c.race = true;
}

Scenario sc[] = {
    {"C07", "airlock", 10, gen7, body<Elem>, post, kNames, probeNames},
    {"C07", "airlock_any_cond", 3, gen7, body<Elem, std::recursive_mutex, std::condition_variable_any>, post, kNames,
     probeNames},
#if SIM_EXTRAS
    {"C07", "airlock_plain", 3, gen7, body<Plain>, post, kNames, probeNames},
    {"C07", "airlock_move_only", 3, gen7, body<MoveOnly>, post, kNames, probeNames},
    {"C08", "waiting_loaders_plain", 3, gen8, body<Plain>, post, kNames, probeNames},
    {"C13", "airlock_races_plain", 2, gen13, body<Plain>, nullptr, kNames, probeNames},
#endif
    {"C08", "waiting_loaders", 10, gen8, body<Elem>, post, kNames, probeNames},
    {"C15", "airlock_throwing_copy", 10, gen15, body<Elem>, post, kNames, probeNames},
    {"C15", "airlock_copy_only_cargo", 8, gen15, body<CElem>, post, kNames, probeNames},
    {"C13", "airlock_races", 10, gen13, body<Elem>, nullptr, kNames, probeNames},
};
const char* const real[] = {"gmlc/containers/AirLock.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
