// C19, C20: CircularBuffer and StackBuffer under failing memory
#include "sim.h"

#include <gmlc/containers/CircularBuffer.hpp>
#include <gmlc/containers/StackBuffer.hpp>

#include <climits>
#include <deque>
#include <memory>
#include <new>
#include <stdexcept>
#include <utility>
#include <vector>

using namespace sim;
using gmlc::containers::CircularBuffer;
using gmlc::containers::CircularBufferRaw;
using gmlc::containers::StackBuffer;
using gmlc::containers::StackBufferRaw;

namespace {
enum K { NEWDEF, NEWSIZE, COPYC, MOVEC, COPYA, MOVEA, SWAP, DROP, PUSH, BADPUSH, POP, POPSMALL, DRAIN, SPACE, RESIZE, REVERSE, CLEAR, MANYPUSH, MANYPOP, KN };
const char* const kNames[] = {"default construct", "construct(size)", "copy construct", "move construct", "copy assign",
                              "move assign", "swap", "destroy", "push", "push of nothing", "pop", "pop with too little room",
                              "pop all", "isSpaceAvailable", "resize", "reverse", "clear", "many pushes", "many pops", nullptr};
const char* const probeNames[] = {"push_refused", "filled_exactly", "copy_failed", "resize_failed_no_memory",
                                  "resize_refused", "grown_with_data", "shrunk_with_data", "wrapped", "emptied_by_pops",
                                  "reversed_with_data", "moved_from_reused", "tiny_block", "block_over_64K",
                                  "over_255_blocks", nullptr};
enum P { P_REFUSED, P_EXACT, P_COPYFAIL, P_RESFAIL, P_RESREF, P_GROWN, P_SHRUNK, P_WRAP, P_EMPTIED, P_REV, P_MOVEDREUSE, P_TINY, P_LARGE, P_MANY };

constexpr int NS = 3;

using Block = std::vector<unsigned char>;

// the byte pattern of block number id
Block pattern(int id, int n)
{
    Block b{};
    b.resize(size_t(n));
    for (int i = 0; i < n; ++i) b[size_t(i)] = (unsigned char)(id * 37 + i * 11 + (i >> 3) + 1);
    return b;
}

// the raw classes on a block of memory of exactly the stated size
template<class R>
struct OnBlock {
    std::unique_ptr<unsigned char[]> mem;
    R r;
    OnBlock() : mem(), r(nullptr, 0) {}
    explicit OnBlock(int n) : mem(new unsigned char[size_t(n)]), r(mem.get(), n) {}
    bool push(const unsigned char* d, int n) { return r.push(d, n); }
    int pop(unsigned char* d, int n) { return r.pop(d, n); }
    int nextDataSize() const { return r.nextDataSize(); }
    bool empty() const { return r.empty(); }
    bool isSpaceAvailable(int n) const { return r.isSpaceAvailable(n); }
    int capacity() const { return r.capacity(); }
    void clear() { r.clear(); }
    void reverse() { if constexpr (std::is_same<R, StackBufferRaw>::value) r.reverse(); }
    int getCurrentCount() const
    {
        if constexpr (std::is_same<R, StackBufferRaw>::value) return r.getCurrentCount();
        return 0;
    }
};

template<class B, bool Stack, bool Raw>
struct Runner {
    static constexpr int OV = Stack ? 8 : 4;  // bookkeeping bytes per block
    struct Slot {
        B* b{nullptr};
        std::deque<std::pair<int, int>> m;  // id, size; the next to pop is at the front
        int cap{0};
        i64 room{0};  // a block of this many bytes including bookkeeping must be accepted
        i64 used{0};
        bool reversed{false};  // since last empty
        bool moved{false};
    };
    Slot s[NS];
    int ids{0};

    template<class F>
    bool attempt(F&& f)
    {
        try {
            Sut g;
            f();
            return true;
        }
        catch (const std::bad_alloc&) {
        }
        return false;
    }
    void emptied(Slot& x)
    {
        x.m.clear();
        x.used = 0;
        x.reversed = false;
        x.room = x.cap;
    }
    void check(Slot& x, const char* when)
    {
        if (!x.b) return;
        const B& b = *x.b;
        if (b.empty() != x.m.empty())
            fail("wrong-emptiness", "after %s: empty() is %d with %zu blocks stored", when, int(b.empty()), x.m.size());
        if (b.capacity() != x.cap) fail("wrong-capacity", "after %s: capacity() is %d instead of %d", when, b.capacity(), x.cap);
        int want = x.m.empty() ? 0 : x.m.front().second;
        if (b.nextDataSize() != want)
            fail("wrong-size", "after %s: nextDataSize() is %d instead of %d", when, b.nextDataSize(), want);
        if constexpr (Stack)
            if (b.getCurrentCount() != int(x.m.size()))
                fail("wrong-count", "after %s: getCurrentCount() is %d instead of %zu", when, b.getCurrentCount(), x.m.size());
        addEvals(3);
    }
    void drop(Slot& x)
    {
        if (x.b) {
            Sut g;
            delete x.b;
            x.b = nullptr;
        }
        x.cap = 0;
        emptied(x);
        x.moved = false;
    }
    void ensure(Slot& x, int size)
    {
        if (!x.b) {
            NoFault nf;
            Sut g;
            x.b = new B(size);
            x.cap = size;
            emptied(x);
        }
        if (x.moved) {
            probe(P_MOVEDREUSE);
            x.moved = false;
        }
    }
    // pops one block and compares it; false when there was none
    bool popOne(Slot& x, int maxSize)
    {
        Block out(size_t(maxSize), 0xEE);
        int got;
        {
            Sut g;
            got = x.b->pop(out.data(), maxSize);
        }
        if (x.m.empty()) {
            if (got != 0) fail("invented-block", "pop on an empty buffer returned %d", got);
            return false;
        }
        auto [id, n] = x.m.front();
        if (n > maxSize) {
            if (got != -n) fail("wrong-size", "pop with room for %d of a block of %d bytes returned %d", maxSize, n, got);
            for (auto c : out)
                if (c != 0xEE) fail("wrong-data", "a pop that does not fit wrote data");
            return true;
        }
        if (got != n)
            fail("wrong-block", "pop returned %d bytes, block %d of %d bytes was next (%zu stored, capacity %d)", got, id, n,
                 x.m.size(), x.cap);
        Block want = pattern(id, n);
        for (int i = 0; i < maxSize; ++i)
            if (out[size_t(i)] != (i < n ? want[size_t(i)] : 0xEE))
                fail("wrong-data", "pop of block %d (%d bytes): byte %d is %d", id, n, i, int(out[size_t(i)]));
        x.m.pop_front();
        x.used -= n + OV;
        if (Stack && !x.reversed) x.room += n + OV;
        if (x.m.empty()) {
            probe(P_EMPTIED);
            emptied(x);
        }
        return true;
    }
    void drain(Slot& x)
    {
        while (!x.m.empty()) popOne(x, x.m.front().second);
        popOne(x, 16);
    }
    void pushOne(Slot& x, int n)
    {
        bool space = x.b->isSpaceAvailable(n);
        int id = ++ids;
        Block d = pattern(id, n);
        bool ok;
        {
            Sut g;
            ok = x.b->push(d.data(), n);
        }
        if (ok != space)
            fail("space-mismatch", "isSpaceAvailable(%d) said %d, push returned %d (capacity %d, %lld bytes used)", n,
                 int(space), int(ok), x.cap, (long long)x.used);
        if (ok && x.used + n + OV > x.cap)
            fail("overfull", "push of %d bytes accepted with %lld of %d bytes used", n, (long long)x.used, x.cap);
        if (!ok && n + OV <= x.room)
            fail("space-lost", "push of %d bytes refused, %lld bytes must be free (capacity %d, %lld used, %zu blocks)", n,
                 (long long)x.room, x.cap, (long long)x.used, x.m.size());
        if (!ok) {
            probe(P_REFUSED);
            return;
        }
        if (n < 4) probe(P_TINY);
        if (n > 65536) probe(P_LARGE);
        if (x.m.size() > 255) probe(P_MANY);
        if (n + OV > x.room) {
            if (!Stack) probe(P_WRAP);
            x.room = 0;
        } else
            x.room -= n + OV;
        x.used += n + OV;
        if (x.used == x.cap) probe(P_EXACT);
        if (Stack) x.m.emplace_front(id, n);
        else x.m.emplace_back(id, n);
    }
    void run(const Op& op)
    {
        opname(kNames[op.k]);
        mark(u64(op.k) | u64(op.a) << 8 | u64(u32(op.b)) << 16 | u64(u32(op.c)) << 32);
        Slot& x = s[op.a % NS];
        Slot& y = s[(op.a + 1 + (op.c & 1)) % NS];
        const char* when = kNames[op.k];
        switch (op.k) {
            case NEWDEF:
                drop(x);
                attempt([&] { x.b = new B(); });
                break;
            case NEWSIZE:
                drop(x);
                if (attempt([&] { x.b = new B(op.b); })) {
                    x.cap = op.b;
                    emptied(x);
                }
                break;
            case COPYC:
                if constexpr (!Raw) {
                    if (!y.b) break;
                    drop(x);
                    if (attempt([&] { x.b = new B(static_cast<const B&>(*y.b)); })) {
                        B* b = x.b;
                        x = y;
                        x.b = b;
                        x.moved = false;
                        if (x.m.empty()) emptied(x);
                        else if (!Stack) x.room = 0;
                    } else
                        probe(P_COPYFAIL);
                }
                break;
            case COPYA:
                if constexpr (!Raw) {
                    Slot& z = (op.c & 2) ? x : y;
                    if (!z.b) break;
                    ensure(x, op.b);
                    if (attempt([&] { *x.b = static_cast<const B&>(*z.b); })) {
                        B* b = x.b;
                        x = z;
                        x.b = b;
                        x.moved = false;
                        if (x.m.empty()) emptied(x);
                        else if (!Stack) x.room = 0;
                    } else
                        failedKeep(x, P_COPYFAIL, when);
                }
                break;
            case MOVEC:
            case MOVEA:
                if constexpr (!Raw) {
                    if (!y.b) break;
                    if (op.k == MOVEC) {
                        drop(x);
                        if (!attempt([&] { x.b = new B(std::move(*y.b)); })) break;
                    } else {
                        ensure(x, op.b);
                        Sut g;
                        *x.b = std::move(*y.b);
                    }
                    B* b = x.b;
                    x = y;
                    x.b = b;
                    x.moved = false;
                    y.cap = y.b->capacity();
                    emptied(y);
                    if (y.cap != 0) fail("wrong-capacity", "a moved from buffer has capacity %d", y.cap);
                    y.moved = true;
                }
                break;
            case SWAP:
                if constexpr (!Raw) {
                    if (op.c & 4) {  // exchange with itself
                        if (!x.b) break;
                        Sut g;
                        std::swap(*x.b, *x.b);
                        break;
                    }
                    if (!x.b || !y.b) break;
                    {
                        Sut g;
                        if constexpr (Stack) {
                            if (op.c & 8) std::swap(*x.b, *y.b);
                            else x.b->swap(*y.b);
                        } else
                            std::swap(*x.b, *y.b);
                    }
                    std::swap(x, y);
                    std::swap(x.b, y.b);
                }
                break;
            case DROP: drop(x); break;
            case PUSH:
                ensure(x, op.b & 63);
                pushOne(x, op.c);
                break;
            case BADPUSH: {
                ensure(x, op.b & 63);
                unsigned char d = 1;
                bool ok;
                {
                    Sut g;
                    ok = op.c > 3  ? x.b->push(&d, INT_MAX - (op.c - 4) * 3)
                        : (op.c & 1) ? x.b->push(&d, -(op.c >> 1))
                                   : x.b->push(nullptr, 1 + op.c);
                }
                if (ok) fail("invented-block", op.c > 3 ? "a push of more than any buffer holds was accepted" : "a push of no data was accepted");
                break;
            }
            case POP: {
                ensure(x, op.b & 63);
                int n = x.m.empty() ? 8 : x.m.front().second;
                popOne(x, n + ((op.c & 3) == 3 ? op.c : 0));
                break;
            }
            case POPSMALL: {
                ensure(x, op.b & 63);
                int n = x.m.empty() ? 0 : x.m.front().second - 1;
                popOne(x, op.c < n ? op.c : n);
                break;
            }
            case DRAIN:
                ensure(x, op.b & 63);
                drain(x);
                break;
            case SPACE: {
                if (!x.b) break;
                if (x.b->isSpaceAvailable(0x7fffffff - (op.c & 15)))
                    fail("space-mismatch", "isSpaceAvailable(%d) with a capacity of %d", 0x7fffffff - (op.c & 15), x.cap);
                bool sp = x.b->isSpaceAvailable(op.c);
                if (sp && op.c + OV + x.used > x.cap)
                    fail("space-mismatch", "isSpaceAvailable(%d) with %lld of %d bytes used", op.c, (long long)x.used, x.cap);
                if (!sp && op.c + OV <= x.room)
                    fail("space-lost", "isSpaceAvailable(%d) is false, %lld bytes must be free", op.c, (long long)x.room);
                break;
            }
            case RESIZE:
                if constexpr (!Raw) {
                    ensure(x, op.c);
                    int old = x.cap;
                    bool refused = false, done = false, said = true;
                    try {
                        Sut g;
                        if constexpr (Stack) {
                            if ((op.c & 15) == 15 && x.b->resize(-1 - op.c)) said = false;
                            if (!x.b->resize(op.b)) said = false;
                        } else
                            x.b->resize(op.b);
                        done = true;
                    }
                    catch (const std::bad_alloc&) {
                    }
                    catch (const std::runtime_error&) {
                        refused = true;
                    }
                    if (!said) fail("wrong-result", "resize from %d to %d returned the wrong result", old, op.b);
                    if (!Stack && op.b < 0) break;  // refused in one way or another, changes nothing
                    if (done) {
                        x.cap = op.b;
                        if constexpr (Stack)
                            if (x.b->rawBlockCapacity() < op.b)
                                fail("wrong-capacity", "rawBlockCapacity() is %d after resize to %d", x.b->rawBlockCapacity(), op.b);
                        if (x.used > x.cap) fail("overfull", "resize to %d with %lld bytes in use", op.b, (long long)x.used);
                        if (x.m.empty()) emptied(x);
                        else if (op.b > old) {
                            probe(P_GROWN);
                            i64 d = op.b - old;
                            if (Stack) x.room += d;
                            else if (x.room < d) x.room = d;
                        } else if (op.b < old) {
                            probe(P_SHRUNK);
                            if (Stack) x.room -= old - op.b;
                            if (!Stack || x.room < 0) x.room = 0;
                        }
                    } else if (refused) {
                        probe(P_RESREF);
                        if (op.b >= old) fail("resize-refused", "growing from %d to %d was refused", old, op.b);
                        if (x.m.empty()) fail("resize-refused", "resizing an empty buffer from %d to %d was refused", old, op.b);
                        if (Stack && op.b >= old - x.room)
                            fail("resize-refused", "resize from %d to %d with %lld bytes free was refused", old, op.b, (long long)x.room);
                    } else
                        failedKeep(x, P_RESFAIL, when);
                }
                break;
            case REVERSE:
                if constexpr (Stack) {
                    ensure(x, op.b & 63);
                    {
                        Sut g;
                        x.b->reverse();
                    }
                    if (x.m.size() > 1) {
                        probe(P_REV);
                        std::deque<std::pair<int, int>> r(x.m.rbegin(), x.m.rend());
                        x.m.swap(r);
                        x.reversed = true;
                    }
                }
                break;
            case MANYPUSH:
                ensure(x, op.b & 63);
                for (int i = 0; i < op.b; ++i) pushOne(x, op.c);
                break;
            case MANYPOP:
                ensure(x, op.b & 63);
                for (int i = 0; i < op.b && !x.m.empty(); ++i) popOne(x, x.m.front().second);
                break;
            case CLEAR: {
                ensure(x, op.b & 63);
                {
                    Sut g;
                    x.b->clear();
                }
                emptied(x);
                break;
            }
            default: break;
        }
        for (auto& z : s) check(z, when);
        opname("");
    }
    // an operation failed for lack of memory: previous contents, or empty
    void failedKeep(Slot& x, int p, const char* when)
    {
        probe(p);
        if (x.b->empty() && !x.m.empty()) emptied(x);
        x.cap = x.b->capacity();
        if (x.used > x.cap) fail("overfull", "capacity %d after a failed %s with %lld bytes in use", x.cap, when, (long long)x.used);
        if (x.room > x.cap - x.used) x.room = x.cap - x.used;
    }
};

template<bool Stack>
void body(const Program& p)
{
    auto run = [&](auto& r) {
        for (auto& t : p.th)
            for (auto& o : t) r.run(o);
        opname("pop all");
        for (auto& x : r.s)
            if (x.b) r.drain(x);
        opname("destroy all");
        for (auto& x : r.s) r.drop(x);
    };
    if constexpr (Stack) {
        if (p.p(0)) { Runner<OnBlock<StackBufferRaw>, true, true> r; run(r); }
        else { Runner<StackBuffer, true, false> r; run(r); }
    } else {
        if (p.p(0)) { Runner<OnBlock<CircularBufferRaw>, false, true> r; run(r); }
        else { Runner<CircularBuffer, false, false> r; run(r); }
    }
}

void gen(Rng& r, int tier, Program& p, Config& c, bool stack)
{
    bool raw = r.chance(1, 4);
    p.par = {raw ? 1 : 0};
    p.th.resize(1);
    int len = 3 + int(r.below(tier ? 60 : 40));
    int focus = r.chance(2, 3) ? 1 : NS;
    int ov = stack ? 8 : 4;
    // the scale of buffer and block sizes
    static const int scales[] = {12, 24, 48, 120, 400};
    int scale = scales[r.below(5)];
    // sometimes blocks longer than 255 and 65535 bytes, and hundreds of blocks
    if (r.chance(1, 8)) scale = 6000;
    else if (r.chance(1, 120)) scale = 300000;
    bool many = scale == 6000 && r.chance(1, 2);
    if (scale == 300000) len = len / 3 + 2;
    u32 popBias = 1 + r.below(4);
    bool resizes = r.chance(2, 3), copies = r.chance(1, 2), moves = r.chance(1, 2), rev = stack && r.chance(1, 2);
    bool tiny = r.chance(1, 3);
    int cap[NS] = {0, 0, 0};
    for (int i = 0; i < NS; ++i) {
        if (i && focus == 1 && !r.chance(1, 3)) continue;
        cap[i] = ov + 1 + int(r.below(u32(scale)));
        p.th[0].push_back({NEWSIZE, i, cap[i], 0});
    }
    for (int i = 0; i < len; ++i) {
        int slot = focus == 1 && !r.chance(1, 8) ? 0 : int(r.below(NS));
        Op o{0, slot, int(r.below(u32(scale))) + ov, 0};
        u32 x = r.below(32);
        auto blk = [&] {
            if (tiny && r.chance(1, 2)) return 1 + int(r.below(4));
            if (r.chance(1, 12)) return 1 + int(r.below(u32(scale)));
            if (r.chance(1, 8) && cap[slot] > ov) return cap[slot] - ov - int(r.below(2));
            return 1 + int(r.below(u32(scale / 4 + 2)));
        };
        if (x < 13) {
            o.k = PUSH;
            o.c = blk();
            if (o.c < 1) o.c = 1;
        } else if (x < 22) {
            if (r.below(4) < popBias) o.k = r.chance(1, 8) ? POPSMALL : POP, o.c = int(r.below(8));
            else o.k = SPACE, o.c = blk();
        } else if (x < 23)
            o.k = r.chance(1, 3) ? DRAIN : r.chance(1, 2) ? CLEAR : BADPUSH, o.c = int(r.below(7));
        else if (x < 26 && resizes && !raw) {
            o.k = RESIZE;
            int d = int(r.below(u32(scale)));
            o.b = r.chance(1, 2) ? cap[slot] + d : cap[slot] - d / 2;
            if (r.chance(1, 10)) o.b = d;
            if (o.b < 0) o.b = int(r.below(8));
            o.c = ov + int(r.below(u32(scale)));
            if (!stack && r.chance(1, 20)) o.b = -1 - int(r.below(u32(scale)));
            else cap[slot] = o.b;
        } else if (x < 28 && copies && !raw)
            o.k = r.chance(1, 2) ? COPYA : COPYC, o.c = int(r.below(4));
        else if (x < 29 && moves && !raw)
            o.k = r.chance(1, 4) ? SWAP : r.chance(1, 2) ? MOVEA : MOVEC, o.c = int(r.below(o.k == SWAP ? 16 : 2));
        else if (x < 31 && many) {
            o.k = r.chance(2, 3) ? MANYPUSH : MANYPOP;
            o.b = 1 + int(r.below(400));
            o.c = 1 + int(r.below(8));
        } else if (x < 31 && rev)
            o.k = REVERSE;
        else if (x < 31)
            o.k = POP;
        else {
            o.k = r.chance(1, 2) ? NEWSIZE : r.chance(1, 2) ? NEWDEF : DROP;
            if (r.chance(1, 10)) o.b = int(r.below(6));
            if (o.k == NEWSIZE) cap[slot] = o.b;
        }
        p.th[0].push_back(o);
    }
    c.psw = 0;
    if (!raw && r.chance(2, 3)) {
        c.maxf = 1 + r.below(4);
        static const u32 rates[] = {6000, 16000, 32000};
        c.pf[F_ALLOC] = rates[r.below(3)];
    }
}
void genC(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, false); }
void genS(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, true); }

Scenario sc[] = {
    {"C19", "circular_buffer", 10, genC, body<false>, nullptr, kNames, probeNames},
    {"C20", "stack_buffer", 10, genS, body<true>, nullptr, kNames, probeNames},
};
const char* const real[] = {"gmlc/containers/CircularBuffer.hpp", "gmlc/containers/StackBuffer.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
