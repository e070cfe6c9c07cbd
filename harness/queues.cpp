// C01-C06, C13, C14: SimpleQueue, BlockingQueue, BlockingPriorityQueue
#include "sim.h"

#include <gmlc/containers/BlockingPriorityQueue.hpp>
#include <gmlc/containers/BlockingQueue.hpp>
#include <gmlc/containers/SimpleQueue.hpp>

#include <chrono>
#include <condition_variable>
#include <cstring>
#include <mutex>
#include <new>
#include <optional>
#include <utility>
#include <vector>

using namespace sim;
using gmlc::containers::BlockingPriorityQueue;
using gmlc::containers::BlockingQueue;
using gmlc::containers::SimpleQueue;

namespace {
enum K {
    PUSH, PUSHC, EMPL, PUSHV, PUSHP, PUSHPC, EMPLP, POPB, POPT, TRYPOP, POPCALL, PEEK, SIZE, EMPTY,
    CLEAR, RESERVE, SLEEP, YIELD, ASSIGN, BULK, PULL, OTHER, KN
};
const char* const kNames[] = {"push(move)", "push(copy)", "emplace", "pushVector", "pushPriority(move)",
                              "pushPriority(copy)", "emplacePriority", "pop", "pop(timeout)", "try_pop",
                              "popOrCall", "peek", "size", "empty", "clear", "reserve", "sleep", "yield",
                              "move-assign", "many pushes", "many try_pops", "use of another queue", nullptr};
const char* const probeNames[] = {"consumer_blocked", "timed_pop_timed_out", "timed_pop_got_value",
                                  "callback_ran", "callback_pushed", "push_threw", "cleared_nonempty",
                                  "assigned_into_queue", "ended_with_blocked_consumer", "drained_at_end",
                                  "try_pop_empty", "peek_threw", "hundreds_of_elements", "another_queue", nullptr};
enum P { P_BLOCKED, P_TIMEOUT, P_TVALUE, P_CB, P_CBPUSH, P_PUSHTHREW, P_CLEARED, P_ASSIGNED, P_ENDBLOCKED,
         P_DRAINED, P_TRYEMPTY, P_PEEKTHREW, P_MANY, P_OTHER };

// par: 0 capacity (0: default constructor), 1 end mode, 2 strict timing
enum Par { PCAP, PEND, PTIMING };

// adapters giving the three classes one interface, for any element and lock type
template<class E, class... L>
struct SQT {
    using El = E;
    using Q = SimpleQueue<E, L...>;
    static constexpr bool blocking = false, prio = false, sized = true;
    static std::optional<E> tryPop(Q& q) { return q.pop(); }
    template<class X>
    static std::optional<E> peek(const X& q)
    {
        return q.peek();
    }
};
template<class E, class... L>
struct BQT {
    using El = E;
    using Q = BlockingQueue<E, L...>;
    static constexpr bool blocking = true, prio = false, sized = true;
    static std::optional<E> tryPop(Q& q) { return q.try_pop(); }
    template<class X>
    static std::optional<E> peek(const X& q)
    {
        return q.try_peek();
    }
};
template<class E, class... L>
struct BPQT {
    using El = E;
    using Q = BlockingPriorityQueue<E, L...>;
    static constexpr bool blocking = true, prio = true, sized = false;
    static std::optional<E> tryPop(Q& q) { return q.try_pop(); }
    template<class X>
    static std::optional<E> peek(const X& q)
    {
        return q.try_peek();
    }
};
using SQ = SQT<Elem>;
using BQ = BQT<Elem>;
using BPQ = BPQT<Elem>;
using SQA = SQT<Elem, std::recursive_mutex>;
using BQA = BQT<Elem, std::recursive_mutex, std::condition_variable_any>;
using BPQA = BPQT<Elem, std::recursive_mutex, std::condition_variable_any>;

// a fresh argument must not fail to construct: only the library's own work is
// subject to injection
struct NF {
    NoFault f;
};
// an element that can only be copied is lost when a pop cannot copy it
struct Nothing {
    Nothing() {}
};
template<class E>
using PopGuard = std::conditional_t<std::is_nothrow_move_constructible_v<E>, Nothing, NF>;

template<class F>
bool attempt(const int& h, F&& f)
{
    try {
        f();
        return true;
    }
    catch (int) {
    }
    catch (const std::bad_alloc&) {
    }
    histCancel(h);
    return false;
}
template<class E>
i64 val(const std::optional<E>& o)
{
    return o ? i64(o->get()) : -1;
}
const char* const kCalled = "popOrCall, after its function";
bool isPopOp(int f)
{
    const char* o = fiberOp(f);
    return o == kNames[POPB] || o == kNames[POPT] || o == kNames[POPCALL] || o == kCalled;
}
u32 waitsAt[64];  // a thread's waits when its function was called, or its popOrCall began
void calledBack(int i, bool first, const char* when)
{
    u32 n = fiberWaits(i) - waitsAt[i & 63];
    if (n > (first ? 0u : 1u))
        fail("callback-not-called", "%s: thread %d waited in popOrCall %s", when, i,
             first ? "and its function was not called" : "again without calling its function again");
}
void calledBack()
{
    for (int i = 0; i < nfibers(); ++i)
        if (fiberBlocked(i) && (fiberOp(i) == kNames[POPCALL] || fiberOp(i) == kCalled))
            calledBack(i, fiberOp(i) == kNames[POPCALL], "blocked");
}
// elements that plain objects cannot count themselves: from completed
// operations, so exact when nobody is in the middle of one
struct {
    bool use, known;
    i64 n;
} plain;
void put(i64 n) { bump(plain.n, int(n)); }
i64 elements() { return !plain.use ? ledger.valid : plain.known ? plain.n : 0; }
void strandedAt(const char* when)
{
    for (int i = 0; i < nfibers(); ++i)
        if (fiberBlocked(i) && isPopOp(i))
            fail("stranded-consumer", "%s: thread %d is still blocked in %s although %lld element(s) are in the queue",
                 when, i, fiberOp(i), (long long)elements());
}
void queueIdle(u64)
{
    for (int i = 0; i < nfibers(); ++i)
        if (fiberBlocked(i) && isPopOp(i)) probe(P_BLOCKED);
    if (elements() > 0) strandedAt("virtual time must advance");
    calledBack();
}
bool queueDeadlock()
{
    if (elements() > 0) strandedAt("no thread can run");
    calledBack();
    // legitimate only if everybody who is blocked waits for an element
    bool any = false;
    for (int i = 1; i < nfibers(); ++i) {
        if (fiberDone(i)) continue;
        if (!isPopOp(i)) return false;
        any = true;
    }
    if (any) probe(P_ENDBLOCKED);
    return any;
}

template<class A>
struct Runner {
    using Q = typename A::Q;
    using El = typename A::El;
    static constexpr bool copies = std::is_copy_constructible_v<El>;
    Q* q;
    const Program* prog;
    bool timing;

    void timedPop(const Op& op)
    {
        static const i64 ns[] = {0,   1000,    1000000, 20000000, 300000000, 2000000000LL,  -5000000,
                                 999, 1500000, 949000,  1234567,  20999999,  60000000000LL, 1};
        // so long that it never ends, or so negative that it has ended
        const int odd = op.a >= 14 ? op.a % 8 : -1;
        i64 t = odd < 0 ? ns[op.a % 14] : odd < 5 ? 4000000000000000000LL : -1;
        // the time a duration stands for, and how exactly it can be converted
        i64 slack = 0;
        const double sec = double(t) * 1e-9;
        const auto fsec = std::chrono::duration<float>(float(sec));
        using Frames = std::chrono::duration<int, std::ratio<1, 60>>;
        const auto frames = Frames(odd < 0 ? int(t * 60 / 1000000000LL) : 0);
        switch (odd < 0 ? op.b % 8 : 0) {
            case 0: break;
            case 1: t = t / 1000 * 1000; break;
            case 2: slack = 2; break;
            case 3:
                t = i64(double(fsec.count()) * 1e9);
                slack = 2 + std::abs(t) / 4000000;
                break;
            case 4: t = t / 1000000 * 1000000; break;
            case 5: t = t / 1000000000 * 1000000000; break;
            case 6: t = i64(frames.count()) * 1000000000LL / 60; break;
            default: t = t / 60000000000LL * 60000000000LL; break;
        }
        u64 t0 = now();
        int h = histBegin(L_POP);
        std::optional<El> v;
        PopGuard<El> guard;
        bool ok = attempt(h, [&] {
            Sut s;
            switch (odd < 0 ? op.b % 8 : odd + 10) {
                case 10: v = q->pop(std::chrono::nanoseconds::max()); break;
                case 11: v = q->pop(std::chrono::seconds::max()); break;
                case 12: v = q->pop(std::chrono::hours::max()); break;
                case 13: v = q->pop(std::chrono::duration<double>(1e30)); break;
                case 14: v = q->pop(std::chrono::hours(24 * 365 * 250)); break;
                case 15: v = q->pop(std::chrono::hours::min()); break;
                case 16: v = q->pop(std::chrono::duration<float>(-1e30F)); break;
                case 17: v = q->pop(std::chrono::nanoseconds::min()); break;
                case 0: v = q->pop(std::chrono::nanoseconds(t)); break;
                case 1: v = q->pop(std::chrono::microseconds(t / 1000)); break;
                case 2: v = q->pop(std::chrono::duration<double>(sec)); break;
                case 3: v = q->pop(fsec); break;
                case 4: v = q->pop(std::chrono::milliseconds(t / 1000000)); break;
                case 5: v = q->pop(std::chrono::seconds(t / 1000000000)); break;
                case 6: v = q->pop(frames); break;
                default: v = q->pop(std::chrono::minutes(t / 60000000000LL)); break;
            }
        });
        u64 t1 = now();
        if (!ok) return;
        i64 r = val(v);
        if (r >= 0) put(-1);
        histEnd(h, r);
        probe(r < 0 ? P_TIMEOUT : P_TVALUE);
        i64 el = i64(t1 - t0);
        if (r < 0 && el + slack < t)
            fail("timed-pop-early", "timed pop gave up after %lld ns of a %lld ns timeout", (long long)el,
                 (long long)t);
        if (timing && el > (t > 0 ? t : 0) + 1000 + slack)
            fail("timed-pop-late", "timed pop with a %lld ns timeout returned only after %lld ns", (long long)t,
                 (long long)el);
    }

    void run(const Op& op)
    {
        opname(kNames[op.k]);
        switch (op.k) {
            case PUSH:
            case PUSHC:
            case EMPL: {
                std::optional<El> e;
                if (op.k != EMPL) {
                    NF n;
                    e.emplace(op.a);
                }
                int h = histBegin(L_PUSH, op.a);
                if (attempt(h, [&] {
                        Sut s;
                        if (op.k == EMPL) q->emplace(op.a);
                        else if (op.k == PUSH || !copies) q->push(std::move(*e));
                        else if constexpr (copies) q->push(static_cast<const El&>(*e));
                    })) {
                    // the harness's own copy no longer counts
                    e.reset();
                    put(1);
                    histEnd(h);
                } else {
                    e.reset();
                    probe(P_PUSHTHREW);
                }
                break;
            }
            case PUSHP:
            case PUSHPC:
            case EMPLP:
                if constexpr (A::prio) {
                    std::optional<El> e;
                    if (op.k != EMPLP) {
                        NF n;
                        e.emplace(op.a);
                    }
                    int h = histBegin(L_PUSHP, op.a);
                    if (attempt(h, [&] {
                            Sut s;
                            if (op.k == EMPLP) q->emplacePriority(op.a);
                            else if (op.k == PUSHP || !copies) q->pushPriority(std::move(*e));
                            else if constexpr (copies) q->pushPriority(static_cast<const El&>(*e));
                        })) {
                        e.reset();
                        put(1);
                        histEnd(h);
                    } else {
                        e.reset();
                        probe(P_PUSHTHREW);
                    }
                }
                break;
            case PUSHV:
                if constexpr (!A::blocking && copies) {
                    std::vector<El> v;
                    v.reserve(size_t(op.b));
                    for (int i = 0; i < op.b; ++i) v.emplace_back(op.a + i);
                    int h = histBegin(L_PUSHV, op.a, op.b);
                    if (attempt(h, [&] {
                            Sut s;
                            q->pushVector(v);
                        })) {
                        v.clear();
                        put(op.b);
                        histEnd(h);
                    }
                }
                break;
            case POPB:
                if constexpr (A::blocking) {
                    int h = histBegin(L_POP);
                    i64 r = -2;
                    PopGuard<El> guard;
                    if (attempt(h, [&] {
                            Sut s;
                            El e = q->pop();
                            r = e.get();
                        })) {
                        if (r < 0) fail("bad-value", "blocking pop returned a value that was never pushed");
                        put(-1);
                        histEnd(h, r);
                    }
                }
                break;
            case POPT:
                if constexpr (A::blocking) timedPop(op);
                break;
            case TRYPOP: {
                int h = histBegin(L_POP);
                i64 r = -2;
                PopGuard<El> guard;
                if (attempt(h, [&] {
                        Sut s;
                        auto o = A::tryPop(*q);
                        r = val(o);
                    })) {
                    if (r < 0) probe(P_TRYEMPTY);
                    else put(-1);
                    histEnd(h, r);
                }
                break;
            }
            case POPCALL:
                if constexpr (A::blocking) {
                    int h = histBegin(L_POP);
                    i64 r = -2;
                    int calls = 0;
                    PopGuard<El> guard;
                    waitsAt[self() & 63] = fiberWaits(self());
                    if (attempt(h, [&] {
                            Sut s;
                            El e = q->popOrCall([&] {
                                NoSut n;
                                probe(P_CB);
                                opname("callback");
                                calledBack(self(), !calls, "called");
                                ++calls;
                                // called because the queue was found empty
                                histEnd(h, -1);
                                struct Again {
                                    int& h;
                                    ~Again() { h = histBegin(L_POP); }
                                } again{h};
                                if (op.b == 1 && calls == 1) {
                                    probe(P_CBPUSH);
                                    run(Op{PUSH, op.a, 0, 0});
                                } else if (op.b == 2)
                                    sleepNs(1000);
                                else if (op.b == 3 && calls == 1)
                                    throw 7;
                                else
                                    yield();
                                opname(kCalled);
                                waitsAt[self() & 63] = fiberWaits(self());
                            });
                            calledBack(self(), !calls, "returned");
                            r = e.get();
                        })) {
                        if (r < 0) fail("bad-value", "popOrCall returned a value that was never pushed");
                        put(-1);
                        histEnd(h, r);
                    }
                }
                break;
            case PEEK:
                if constexpr (copies) {
                    int h = histBegin(L_PEEK);
                    i64 r = -2;
                    if (attempt(h, [&] {
                            Sut s;
                            auto o = A::peek(*q);
                            NoFault n;
                            r = val(o);
                        }))
                        histEnd(h, r);
                    else
                        probe(P_PEEKTHREW);
                }
                break;
            case SIZE: {
                if constexpr (!A::sized) break;
                int h = histBegin(L_SIZE);
                i64 r = 0;
                if constexpr (A::sized) r = i64(q->size());
                histEnd(h, r);
                break;
            }
            case EMPTY: {
                int h = histBegin(L_EMPTY);
                i64 r = q->empty() ? 1 : 0;
                histEnd(h, r);
                break;
            }
            case CLEAR: {
                int h = histBegin(L_CLEAR);
                if (elements() > 0) probe(P_CLEARED);
                plain.known = false;
                {
                    Sut s;
                    q->clear();
                }
                histEnd(h);
                break;
            }
            case RESERVE:
                try {
                    Sut s;
                    q->reserve(size_t(op.a));
                }
                catch (const std::bad_alloc&) {
                }
                catch (int) {
                }
                break;
            case ASSIGN: {
                // a thread-private queue is moved into the shared one
                plain.known = false;
                auto* src = new Q();
                std::vector<i64> ext;
                {
                    NF n;
                    Sut s;
                    for (int i = 0; i < op.b; ++i) src->push(El(op.a + i));
                }
                for (int i = 0; i < op.b; ++i) ext.push_back(op.a + i);
                int h = histBegin(L_SWAPIN);
                histExt(h, ext.data(), ext.size());
                {
                    Sut s;
                    *q = std::move(*src);
                }
                histEnd(h);
                probe(P_ASSIGNED);
                delete src;
                break;
            }
            case BULK:
                for (int i = 0; i < op.b; ++i) {
                    bool pr = A::prio && op.c && (op.a + i) % op.c == 0;
                    run(Op{pr ? PUSHP : PUSH, op.a + i, 0, 0});
                }
                if (elements() > 100) probe(P_MANY);
                break;
            case PULL:
                for (int i = 0; i < op.b; ++i) run(Op{TRYPOP, 0, 0, 0});
                break;
            case OTHER: {
                // queues do not know of each other
                probe(P_OTHER);
                NF n;
                Q own;
                int want = op.a;
                own.push(El(op.a));
                own.emplace(op.a + 1);
                if constexpr (A::prio)
                    if (op.b & 1) own.emplacePriority(want = op.a + 2);
                for (int i = 0; i < 2; ++i) {
                    auto v = A::tryPop(own);
                    if (!v || v->get() != want)
                        fail("not-linearizable", "another queue: pop gives %d instead of %d", v ? v->get() : -1, want);
                    want = want == op.a + 2 ? op.a : op.a + 1;
                }
                bool left = own.empty();
                if (left != !(A::prio && (op.b & 1))) fail("not-linearizable", "another queue: empty() is %d", int(left));
                own.push(El(op.a));
                break;
            }
            case SLEEP: sleepNs(u64(op.a) * 100000); break;
            case YIELD: yield(); break;
            default: break;
        }
        opname("");
    }
};

template<class A>
void body(const Program& p)
{
    using Q = typename A::Q;
    Q* q = p.p(PCAP) ? new Q(size_t(p.p(PCAP))) : new Q();
    plain = {std::is_trivially_destructible_v<typename A::El>, true, 0};
    onIdle = queueIdle;
    onDeadlock = queueDeadlock;
    struct Th {
        Runner<A>* r;
        const std::vector<Op>* ops;
        void operator()() const
        {
            for (auto& o : *ops) r->run(o);
        }
    };
    Runner<A> r{q, &p, p.p(PTIMING) != 0};
    Th th[8];
    int id[8];
    int n = int(p.th.size());
    if (n > 8) n = 8;
    // thread 0 is the main thread: its operations run before the others start
    if (n) {
        th[0] = {&r, &p.th[0]};
        th[0]();
    }
    for (int i = 1; i < n; ++i) {
        th[i] = {&r, &p.th[i]};
        id[i] = go(&th[i]);
    }
    for (int i = 1; i < n; ++i) join(id[i]);
    auto drain = [&](Q& x) {
        for (int k = 0; k < 20000; ++k) {
            int h = histBegin(L_POP);
            i64 v = -1;
            {
                PopGuard<typename A::El> guard;
                auto o = A::tryPop(x);
                v = val(o);
            }
            histEnd(h, v);
            if (v < 0) break;
        }
        probe(P_DRAINED);
        int h = histBegin(L_EMPTY);
        bool e = x.empty();
        histEnd(h, e);
    };
    // a queue that was moved goes on, and so does the one it was moved from
    auto moved = [&](Q& x) {
        Runner<A> rm{&x, &p, false};
        rm.run(Op{EMPTY, 0, 0, 0});
        rm.run(Op{SIZE, 0, 0, 0});
        rm.run(Op{PEEK, 0, 0, 0});
        {
            NF n;
            rm.run(Op{PUSH, 90001, 0, 0});
            if (A::prio) rm.run(Op{PUSHP, 90002, 0, 0});
            rm.run(Op{PUSHV, 90003, 2, 0});
        }
        rm.run(Op{EMPTY, 0, 0, 0});
        rm.run(Op{SIZE, 0, 0, 0});
        rm.run(Op{TRYPOP, 0, 0, 0});
        drain(x);
        if (p.p(PEND) < 4) {
            Sut s;
            q->clear();
        }
        r.run(Op{EMPTY, 0, 0, 0});
        {
            NF n;
            r.run(Op{PUSH, 90005, 0, 0});
            if (A::prio && p.p(PCAP) % 2) r.run(Op{PUSHP, 90006, 0, 0});
        }
        r.run(Op{EMPTY, 0, 0, 0});
        r.run(Op{SIZE, 0, 0, 0});
        r.run(Op{PEEK, 0, 0, 0});
        drain(*q);
    };
    opname("final phase");
    switch (p.p(PEND)) {
        case 0: drain(*q); break;
        case 1: break;
        case 2:
        case 5: {
            Q q2(std::move(*q));
            moved(q2);
            break;
        }
        case 3:
        case 6: {
            Q q2;
            q2 = std::move(*q);
            moved(q2);
            break;
        }
        default: {  // keep using it after a drain
            drain(*q);
            r.run(Op{PUSH, 90000, 0, 0});
            r.run(Op{EMPTY, 0, 0, 0});
            r.run(Op{SIZE, 0, 0, 0});
            drain(*q);
        }
    }
    {
        Sut s;
        delete q;
    }
}

void postFifo(const Program&)
{
    std::string e = linCheck(M_FIFO);
    if (!e.empty()) fail("not-linearizable", "%s", e.c_str());
}
void postPrio(const Program&)
{
    std::string e = linCheck(M_PRIO);
    if (!e.empty()) fail("not-linearizable", "%s", e.c_str());
}

struct Gen {
    Rng& r;
    Program& p;
    int next{1};
    int budget{40};
    bool prio, blocking, faults, timed;
    Op push()
    {
        int v = next++;
        u32 x = r.below(prio ? 6 : 3);
        switch (x) {
            case 0: return {PUSH, v, 0, 0};
            case 1: return {PUSHC, v, 0, 0};
            case 2: return {EMPL, v, 0, 0};
            case 3: return {PUSHP, v, 0, 0};
            case 4: return {PUSHPC, v, 0, 0};
            default: return {EMPLP, v, 0, 0};
        }
    }
    bool large{false};
    Op bulk(int n)
    {
        Op o{BULK, next, n, int(r.below(5))};
        next += n;
        return o;
    }
    Op batch()
    {
        int n = int(large && r.chance(1, 2) ? r.below(r.chance(1, 4) ? 400 : 90) : r.below(5));
        Op o{PUSHV, next, n, 0};
        next += n;
        return o;
    }
    Op timedOp()
    {
        if (timed && r.chance(1, 16)) {
            // those that never end leave the thread waiting
            return {POPT, 16 + int(r.chance(1, 2) ? 5 + r.below(3) : r.below(8)), 0, 0};
        }
        return {POPT, int(r.below(14)), int(r.below(8)), 0};
    }
    Op call()
    {
        int m = int(r.below(faults ? 4 : 3));
        Op o{POPCALL, 0, m, 0};
        if (m == 1) o.a = next++;
        return o;
    }
    Op pop()
    {
        if (!blocking) return {TRYPOP, 0, 0, 0};
        if (timed) {
            u32 x = r.below(10);
            if (x < 6) return timedOp();
            if (x < 8) return {TRYPOP, 0, 0, 0};
            return x == 8 ? Op{POPB, 0, 0, 0} : call();
        }
        u32 x = r.below(10);
        if (x < 4) return {POPB, 0, 0, 0};
        if (x < 6) return {TRYPOP, 0, 0, 0};
        if (x < 8) return call();
        return timedOp();
    }
    Op observe()
    {
        switch (r.below(4)) {
            case 0: return {PEEK, 0, 0, 0};
            case 1: return {SIZE, 0, 0, 0};
            case 2: return {EMPTY, 0, 0, 0};
            default: return {PEEK, 0, 0, 0};
        }
    }
    Op admin()
    {
        switch (r.below(4)) {
            case 0: return {CLEAR, 0, 0, 0};
            case 1: return {RESERVE, int(r.below(large ? 300 : 12)), 0, 0};
            default: {
                int n = int(r.below(large ? 60 : 4));
                Op o{ASSIGN, next, n, 0};
                next += n;
                return o;
            }
        }
    }
};

void genCommon(Rng& r, Program& p, Config& c, bool blocking, bool prio, bool faults, bool timed, bool strand,
               int tier)
{
    Gen g{r, p};
    g.prio = prio;
    g.blocking = blocking;
    g.faults = faults;
    g.timed = timed;
    p.par = {r.chance(1, 3) ? int(1 + r.below(6)) : 0, int(r.below(7)), 0};
    int nt = 1 + int(r.below(3)) + int(r.chance(1, 3));
    if (nt < 2) nt = 2;
    if (r.chance(1, 24)) nt = 7;
    int maxops = tier ? 7 : 5;
    p.th.resize(size_t(nt + 1));
    bool observers = r.chance(1, 2), admins = r.chance(1, 4), batches = !blocking && r.chance(1, 2);
    bool sleeps = timed || r.chance(1, 5);
    // preload
    if (r.chance(1, 2))
        for (u32 i = 0, n = r.below(4); i < n; ++i) p.th[0].push_back(r.chance(1, 4) ? g.pop().k == TRYPOP ? Op{TRYPOP, 0, 0, 0} : g.push() : g.push());
    if (r.chance(1, 16))  // beyond the capacity of anything reserved
        for (u32 i = 0, n = 6 + r.below(26); i < n; ++i) {
            if (batches && r.chance(1, 3)) p.th[0].push_back(g.batch());
            else p.th[0].push_back(g.push());
        }
    if (r.chance(1, 48)) {  // and beyond anything a small case meets
        g.large = true;
        c.maxsteps = 1000000;
        u32 n = r.chance(1, 3) ? 20 + r.below(60) : r.chance(3, 4) ? 60 + r.below(240) : 300 + r.below(900);
        // most on one side, and both sides
        if (r.chance(1, 2)) p.th[0].push_back({TRYPOP, 0, 0, 0});
        p.th[0].push_back(g.bulk(int(n)));
        if (r.chance(1, 2)) {
            p.th[0].push_back({TRYPOP, 0, 0, 0});
            p.th[0].push_back(r.chance(1, 2) ? g.bulk(int(r.below(n))) : batches ? g.batch() : g.push());
        }
        if (r.chance(1, 2)) p.th[0].push_back({PULL, 0, int(r.below(n)), 0});
    }
    for (int t = 1; t <= nt; ++t) {
        int role = strand ? (t == 1 ? 0 : t == 2 ? 1 : int(r.below(3))) : int(r.below(4));
        int n = 1 + int(r.below(u32(maxops)));
        for (int i = 0; i < n && g.budget > 0; ++i) {
            --g.budget;
            auto& th = p.th[size_t(t)];
            if (sleeps && r.chance(1, timed ? 4 : 8)) th.push_back({SLEEP, int(r.below(60)), 0, 0});
            if (observers && r.chance(1, 4)) {
                th.push_back(g.observe());
                continue;
            }
            if (admins && r.chance(1, 6)) {
                th.push_back(g.admin());
                continue;
            }
            if (g.large && r.chance(1, 5)) {
                th.push_back(r.chance(1, 2) ? g.bulk(int(r.below(100))) : Op{PULL, 0, int(r.below(100)), 0});
                continue;
            }
            bool doPush = role == 0 ? r.chance(9, 10) : role == 1 ? r.chance(1, 10) : r.chance(1, 2);
            if (doPush)
                th.push_back(batches && r.chance(1, 3) ? g.batch() : g.push());
            else
                th.push_back(g.pop());
        }
    }
    if (r.chance(1, 16)) {
        auto& th = p.th[r.below(u32(nt + 1))];
        th.insert(th.begin() + r.below(u32(th.size() + 1)), Op{OTHER, 5000, int(r.below(2)), 0});
    }
    if (blocking && r.chance(1, 3)) {
        c.pf[F_SPURIOUS] = r.chance(1, 2) ? 3000 : 12000;
        c.maxf = 1 + r.below(5);
    }
    if (sleeps && r.chance(1, 3)) {
        c.pf[F_TIMEJUMP] = 4000;
        c.maxf += 2 + r.below(4);
    }
    if (blocking && r.chance(1, 6)) {
        c.pf[F_CLOCKJUMP] = 1500;
        c.maxf += 2;
    }
    if (faults) {
        c.maxf += 1 + r.below(3);
        u32 rate = r.chance(1, 2) ? 5000 : 16000;
        bool any = false;
        while (!any) {
            if (r.chance(2, 3)) c.pf[F_ALLOC] = rate, any = true;
            if (r.chance(1, 2)) c.pf[F_COPY] = rate, any = true;
            if (r.chance(1, 2)) c.pf[F_CTOR] = rate, any = true;
        }
    }
    if (timed) p.par[PTIMING] = c.pf[F_TIMEJUMP] == 0;
}

void genSq(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, false, false, false, false, false, tier); }
void genBq(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, false, false, false, false, tier); }
void genBpq(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, true, false, false, false, tier); }
void genBqS(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, false, false, false, true, tier); }
void genBpqS(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, true, false, false, true, tier); }
void genBqT(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, false, false, true, false, tier); }
void genBpqT(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, true, false, true, false, tier); }
void genSqF(Rng& r, int tier, Program& p, Config& c)
{
    genCommon(r, p, c, false, false, true, false, false, tier);
}
void genBqF(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, false, true, false, true, tier); }
void genBpqF(Rng& r, int tier, Program& p, Config& c) { genCommon(r, p, c, true, true, true, false, true, tier); }
void genSqR(Rng& r, int tier, Program& p, Config& c) { genSq(r, tier, p, c); c.race = true; }
void genBqR(Rng& r, int tier, Program& p, Config& c) { genBq(r, tier, p, c); c.race = true; }
void genBpqR(Rng& r, int tier, Program& p, Config& c) { genBpq(r, tier, p, c); c.race = true; }

// ---------------------------------------------------------------- queues of bool
// The vectors inside pack their elements, so neighbours share a byte and what
// is taken from them may be a reference in disguise. The values cannot tell
// where they come from: with one producer and one consumer the whole sequence
// is compared, otherwise the number of elements of each value.
template<class A>
struct Bits {
    typename A::Q q;
    const Program* p{nullptr};
    bool in[8][64], out[8][64];
    int nin[8], nout[8];
    void put(int t, int k, bool v)
    {
        opname(kNames[k]);
        Sut s;
        bool one = v;
        switch (k) {
            case PUSH: q.push(std::move(one)); break;
            case EMPL: q.emplace(v); break;
            case PUSHP:
                if constexpr (A::prio) {
                    q.pushPriority(v);
                    break;
                }
                [[fallthrough]];
            default: q.push(static_cast<const bool&>(one)); break;
        }
        in[t][nin[t]++] = v;
    }
    bool take(int t, int k)
    {
        opname(kNames[k]);
        std::optional<bool> v;
        {
            Sut s;
            if constexpr (A::blocking) {
                if (k == POPB) v = q.pop();
                else if (k == POPCALL) v = q.popOrCall([] {});
                else if (k == POPT) v = q.pop(std::chrono::milliseconds(3));
                else v = q.try_pop();
            } else
                v = q.pop();
        }
        if (v) out[t][nout[t]++] = *v;
        return bool(v);
    }
    void look(int k)
    {
        opname(kNames[k]);
        Sut s;
        if (k == PEEK) A::peek(q);
        else (void)q.empty();
    }
    void run(int t, const Op& o)
    {
        switch (o.k) {
            case PUSH:
            case PUSHC:
            case EMPL:
            case PUSHP: put(t, o.k, o.a & 1); break;
            case PUSHV:
                opname(kNames[PUSHV]);
                if constexpr (!A::blocking) {
                    Sut s;
                    std::vector<bool> v;
                    for (int i = 0; i < o.b; ++i) v.push_back((o.a >> i) & 1), in[t][nin[t]++] = (o.a >> i) & 1;
                    q.pushVector(v);
                }
                break;
            case PEEK:
            case EMPTY: look(o.k); break;
            default: take(t, o.k); break;
        }
        opname("");
    }
};
template<class A>
void bodyBits(const Program& p)
{
    auto* b = new Bits<A>();
    b->p = &p;
    for (int i = 0; i < 8; ++i) b->nin[i] = b->nout[i] = 0;
    struct Th {
        Bits<A>* b;
        int t;
        void operator()() const
        {
            for (auto& o : b->p->th[size_t(t)]) b->run(t, o);
        }
    };
    Th th[8];
    int id[8], n = int(p.th.size());
    for (int i = 1; i < n; ++i) {
        th[i] = {b, i};
        id[i] = go(&th[i]);
    }
    for (int i = 1; i < n; ++i) join(id[i]);
    opname("final phase");
    for (int k = 0; k < 200 && b->take(0, TRYPOP); ++k) {}
    int total[2] = {0, 0}, got[2] = {0, 0};
    for (int i = 0; i < 8; ++i) {
        for (int k = 0; k < b->nin[i]; ++k) ++total[b->in[i][k]];
        for (int k = 0; k < b->nout[i]; ++k) ++got[b->out[i][k]];
    }
    if (total[0] != got[0] || total[1] != got[1])
        fail("wrong-element", "%d times false and %d times true went in, %d and %d came out", total[0], total[1], got[0], got[1]);
    if (p.p(0) == 1) {  // one producer, thread 1, and one consumer, thread 2
        int k = 0;
        for (int t : {2, 0})
            for (int i = 0; i < b->nout[t]; ++i, ++k)
                if (b->out[t][i] != b->in[1][k])
                    fail("wrong-element", "element %d was pushed as %d and taken as %d", k, int(b->in[1][k]), int(b->out[t][i]));
    }
    addEvals(8);
    delete b;
}
void genBits(Rng& r, Program& p, Config& c, bool blocking, bool prio)
{
    int np = r.chance(1, 2) ? 1 : 2, nc = r.chance(2, 3) ? 1 : 2;
    bool levels = prio && r.chance(1, 2);
    p.par = {np == 1 && nc == 1 && !levels ? 1 : 0};
    p.th.resize(size_t(1 + np + nc));
    int pushes = 0;
    for (int t = 1; t <= np; ++t)
        for (int i = 0, n = 1 + int(r.below(7)); i < n; ++i) {
            if (!blocking && r.chance(1, 3)) {
                p.th[size_t(t)].push_back(Op{PUSHV, int(r.below(64)), int(r.below(6)), 0});
                continue;
            }
            static const int kinds[] = {PUSH, PUSHC, EMPL, PUSHP};
            p.th[size_t(t)].push_back(Op{kinds[r.below(levels ? 4 : 3)], int(r.below(2)), 0, 0});
            ++pushes;
        }
    // no more blocking pops than there are elements
    int left = blocking ? pushes : 0;
    for (int t = np + 1; t <= np + nc; ++t)
        for (int i = 0, n = 1 + int(r.below(9)); i < n; ++i) {
            u32 x = r.below(8);
            if (x < 4 && left > 0) {
                --left;
                p.th[size_t(t)].push_back(Op{r.chance(1, 2) ? POPB : POPCALL, 0, 0, 0});
            } else if (x == 4)
                p.th[size_t(t)].push_back(Op{r.chance(1, 2) ? PEEK : EMPTY, 0, 0, 0});
            else if (left > 0 || !blocking) {
                --left;
                p.th[size_t(t)].push_back(Op{blocking && r.chance(1, 3) ? POPT : TRYPOP, 0, 0, 0});
            }
        }
    c.psw = 60 + r.below(600);
    if (r.chance(1, 3)) c.pplain = 2000 + r.below(12000);
    if (r.chance(1, 3)) c.pf[F_SPURIOUS] = 1000 + r.below(12000);
}
[[maybe_unused]] void genSqB(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, false, false); }
[[maybe_unused]] void genBqB(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, true, false); }
[[maybe_unused]] void genBpqB(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, true, true); }
[[maybe_unused]] void genSqBR(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, false, false); c.race = true; }
[[maybe_unused]] void genBqBR(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, true, false); c.race = true; }
[[maybe_unused]] void genBpqBR(Rng& r, int, Program& p, Config& c) { genBits(r, p, c, true, true); c.race = true; }

Scenario sc[] = {
    {"C01", "simple_queue", 10, genSq, body<SQ>, postFifo, kNames, probeNames},
    {"C01", "simple_queue_other_lock", 2, genSq, body<SQA>, postFifo, kNames, probeNames},
#if SIM_EXTRAS
    {"C01", "simple_queue_bits", 1, genSqB, bodyBits<SQT<bool>>, nullptr, kNames, nullptr},
    {"C02", "blocking_queue_bits", 1, genBqB, bodyBits<BQT<bool>>, nullptr, kNames, nullptr},
    {"C03", "priority_queue_bits", 1, genBpqB, bodyBits<BPQT<bool>>, nullptr, kNames, nullptr},
    {"C13", "simple_queue_races_bits", 1, genSqBR, bodyBits<SQT<bool>>, nullptr, kNames, nullptr},
    {"C13", "blocking_queue_races_bits", 1, genBqBR, bodyBits<BQT<bool>>, nullptr, kNames, nullptr},
    {"C13", "priority_queue_races_bits", 1, genBpqBR, bodyBits<BPQT<bool>>, nullptr, kNames, nullptr},
    {"C01", "simple_queue_plain", 2, genSq, body<SQT<Plain>>, postFifo, kNames, probeNames},
    {"C01", "simple_queue_move_only", 1, genSq, body<SQT<MoveOnly>>, postFifo, kNames, probeNames},
    {"C02", "blocking_queue_plain", 2, genBq, body<BQT<Plain>>, postFifo, kNames, probeNames},
    {"C02", "blocking_queue_move_only", 1, genBq, body<BQT<MoveOnly>>, postFifo, kNames, probeNames},
    {"C03", "priority_queue_plain", 2, genBpq, body<BPQT<Plain>>, postPrio, kNames, probeNames},
    {"C03", "priority_queue_move_only", 1, genBpq, body<BPQT<MoveOnly>>, postPrio, kNames, probeNames},
    {"C04", "blocked_consumers_plain", 2, genBqS, body<BQT<Plain>>, postFifo, kNames, probeNames},
    {"C05", "blocked_consumers_plain", 2, genBpqS, body<BPQT<Plain>>, postPrio, kNames, probeNames},
    {"C06", "timed_pop_queue_plain", 2, genBqT, body<BQT<Plain>>, postFifo, kNames, probeNames},
    {"C06", "timed_pop_priority_plain", 2, genBpqT, body<BPQT<Plain>>, postPrio, kNames, probeNames},
    {"C14", "simple_queue_faults_copy_only", 3, genSqF, body<SQT<CopyOnly>>, postFifo, kNames, probeNames},
    {"C14", "simple_queue_faults_plain", 2, genSqF, body<SQT<Plain>>, postFifo, kNames, probeNames},
    {"C14", "blocking_queue_faults_copy_only", 3, genBqF, body<BQT<CopyOnly>>, postFifo, kNames, probeNames},
    {"C14", "blocking_queue_faults_plain", 2, genBqF, body<BQT<Plain>>, postFifo, kNames, probeNames},
    {"C14", "priority_queue_faults_copy_only", 3, genBpqF, body<BPQT<CopyOnly>>, postPrio, kNames, probeNames},
    {"C14", "priority_queue_faults_plain", 2, genBpqF, body<BPQT<Plain>>, postPrio, kNames, probeNames},
    {"C13", "simple_queue_races_plain", 2, genSqR, body<SQT<Plain>>, nullptr, kNames, probeNames},
    {"C13", "blocking_queue_races_plain", 2, genBqR, body<BQT<Plain>>, nullptr, kNames, probeNames},
    {"C13", "priority_queue_races_plain", 2, genBpqR, body<BPQT<Plain>>, nullptr, kNames, probeNames},
#endif
    {"C02", "blocking_queue_any_cond", 2, genBq, body<BQA>, postFifo, kNames, probeNames},
    {"C03", "priority_queue_any_cond", 2, genBpq, body<BPQA>, postPrio, kNames, probeNames},
    {"C04", "blocked_consumers_any_cond", 2, genBqS, body<BQA>, postFifo, kNames, probeNames},
    {"C05", "blocked_consumers_any_cond", 2, genBpqS, body<BPQA>, postPrio, kNames, probeNames},
    {"C02", "blocking_queue", 10, genBq, body<BQ>, postFifo, kNames, probeNames},
    {"C03", "priority_queue", 10, genBpq, body<BPQ>, postPrio, kNames, probeNames},
    {"C04", "blocked_consumers", 10, genBqS, body<BQ>, postFifo, kNames, probeNames},
    {"C05", "blocked_consumers", 10, genBpqS, body<BPQ>, postPrio, kNames, probeNames},
    {"C06", "timed_pop_queue", 10, genBqT, body<BQ>, postFifo, kNames, probeNames},
    {"C06", "timed_pop_priority", 10, genBpqT, body<BPQ>, postPrio, kNames, probeNames},
    {"C14", "simple_queue_faults", 8, genSqF, body<SQ>, postFifo, kNames, probeNames},
    {"C14", "blocking_queue_faults", 10, genBqF, body<BQ>, postFifo, kNames, probeNames},
    {"C14", "priority_queue_faults", 10, genBpqF, body<BPQ>, postPrio, kNames, probeNames},
    {"C13", "simple_queue_races", 10, genSqR, body<SQ>, nullptr, kNames, probeNames},
    {"C13", "blocking_queue_races", 10, genBqR, body<BQ>, nullptr, kNames, probeNames},
    {"C13", "priority_queue_races", 10, genBpqR, body<BPQ>, nullptr, kNames, probeNames},
};
const char* const real[] = {"gmlc/containers/SimpleQueue.hpp", "gmlc/containers/BlockingQueue.hpp",
                            "gmlc/containers/BlockingPriorityQueue.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
