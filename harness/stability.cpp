// C23: elements of stable containers under an owner that grows and shrinks them
// C24: concurrent const readers of an unchanging container
#include "sim.h"

#include <gmlc/containers/CircularBuffer.hpp>
#include <gmlc/containers/DualMappedPointerVector.hpp>
#include <gmlc/containers/DualMappedVector.hpp>
#include <gmlc/containers/DualStringMappedVector.hpp>
#include <gmlc/containers/MappedPointerVector.hpp>
#include <gmlc/containers/MappedVector.hpp>
#include <gmlc/containers/StableBlockDeque.hpp>
#include <gmlc/containers/StableBlockVector.hpp>
#include <gmlc/containers/StackBuffer.hpp>
#include <gmlc/containers/StringMappedVector.hpp>

#include <atomic>
#include <deque>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <utility>
#include <vector>

using namespace sim;
using namespace gmlc::containers;

namespace {
std::string keyName(int k)
{
    return (k % 3) ? "k" + std::to_string(k) : "a key that does not fit a small string " + std::to_string(k);
}

enum Kind { VEC, DEQ, ONE, STR, PTR, DUAL, DSTR, DPTR };
using US = std::string;
constexpr auto ST = reference_stability::stable;

#if SIM_HAS(23)
// ---- C23 ------------------------------------------------------------------
enum K { PUSHB, PUSHF, BULKB, BULKF, POPB, POPF, SHRINK, REMOVE, ADDKEY, FIND, WALK, MOVE, HAND, RECALL, PEEK, OYIELD, NOTHING, EMPTYALL, READ, WRITE, RELEASE, RYIELD, KN };
const char* const kNames[] = {"push_back", "push_front", "many push_back", "many push_front", "pop_back", "pop_front",
                              "shrink_to_fit", "remove", "add key", "find", "walk", "move container", "hand out",
                              "take back", "index", "owner yield", "refused operation", "clear", "read element", "write element", "release element",
                              "reader yield", nullptr};
const char* const probeNames[] = {"append_failed", "removal_next_to_held", "moved_while_held", "table_grew_while_held",
                                  "written_while_held", "front_growth_while_held", "shrunk_while_held",
                                  "neighbour_removed_in_block", "inner_removal_of_stable", "refused_while_held", nullptr};
enum P { P_APPFAIL, P_RMHELD, P_MOVEHELD, P_GROWN, P_WRITTEN, P_FRONT, P_SHRUNK, P_NEIGH, P_INNER, P_REFUSED };

struct Cell;
const Cell* beingRemoved;
bool handover;  // the container under test may not touch existing elements

struct Cell {
    Elem e;
    i64 val{-1};
    bool placed{false};  // an element of the container
    Cell() = default;
    explicit Cell(int v): e(v), val(v) {}
    Cell(const Cell& o): e(o.e), val(o.val) { o.touched("copied"); }
    Cell(Cell&& o) noexcept: e(std::move(o.e)), val(o.val) { o.touched("moved"); }
    Cell& operator=(const Cell& o)
    {
        touched("assigned");
        o.touched("copied");
        e = o.e;
        val = o.val;
        return *this;
    }
    Cell& operator=(Cell&& o) noexcept
    {
        touched("assigned");
        o.touched("moved");
        e = std::move(o.e);
        val = o.val;
        return *this;
    }
    ~Cell()
    {
        if (placed && handover && beingRemoved != this)
            fail("element-destroyed", "an element that was not removed is destroyed by %s", fiberOp(self()));
    }
    void touched(const char* how) const
    {
        if (placed && handover) fail("element-touched", "an element that stays in the container is %s by %s", how, fiberOp(self()));
    }
};

constexpr int kHandles = 12;
struct Handle {
    std::atomic<int> state{0};  // 0 free, 1 handed out, 2 released
    Cell* p{nullptr};
    i64 v{0};  // value the holder expects; the holder's while handed out
    int reader{0};
};
Handle* handles;

struct Ent {
    Cell* p;
    i64 v;
    int key;  // -1: none
    int key2;
    int holder;  // handle or -1
    bool dead;  // removed, but its place stays
};

template<class C, Kind KIND>
struct Owner {
    static constexpr bool Front = KIND == DEQ;
    static constexpr bool Keyed = KIND >= ONE;
    static constexpr bool Dual = KIND >= DUAL;
    static constexpr bool Ptr = KIND == PTR || KIND == DPTR;
    C* c{nullptr};
    std::deque<Ent> m;
    int nextKey{0};
    int held{0};

    template<class F>
    bool attempt(F&& f)
    {
        try {
            Sut g;
            f();
            return true;
        }
        catch (int) {
        }
        catch (const std::bad_alloc&) {
        }
        return false;
    }
    static Cell* ptr(Cell& x) { return &x; }
    static Cell* ptr(Cell* x) { return x; }
    static const Cell* cptr(const Cell& x) { return &x; }
    static const Cell* cptr(const Cell* x) { return x; }
    static const Cell* cptr(const std::unique_ptr<Cell>& x) { return x.get(); }
    Cell* at(size_t i) { return ptr((*c)[i]); }

    // "no key" as the class writes it
    static auto none()
    {
        if constexpr (KIND == DPTR) return nullptr;
        else return no_search;
    }
    // address checks only: the elements belong to their holders
    void check(const char* when)
    {
        size_t n = m.size();
        if (c->size() != n) fail("wrong-size", "after %s: size() is %zu instead of %zu", when, size_t(c->size()), n);
        for (size_t i = 0; i < n; ++i)
            if (at(i) != m[i].p) fail("element-moved", "after %s: element %zu of %zu changed its address", when, i, n);
        addEvals(n);
    }
    void add(bool front, int v)
    {
        const char* when = fiberOp(self());
        int key = nextKey++;
        int key2 = key;
        if constexpr (Dual) {
            if (key % 5 == 1) key2 = -1;
            if (key % 5 == 2) key = -1;
        }
        if constexpr (Keyed && KIND != DPTR)
            if (nextKey % 7 == 0) key = key2 = -1;
        bool ok = attempt([&] {
            if constexpr (KIND == VEC || KIND == DEQ) {
                if constexpr (Front) {
                    if (front) {
                        if (v & 1) c->emplace_front(v);
                        else c->push_front(Cell(v));
                        return;
                    }
                }
                if (v & 1) c->emplace_back(v);
                else c->push_back(Cell(v));
            } else if constexpr (KIND == ONE || KIND == STR || KIND == PTR) {
                if (key < 0) c->insert(no_search, v);
                else if (v & 1) c->insert(keyName(key), v);
                else c->insert_or_assign(keyName(key), v);
            } else {
                if constexpr (KIND != DPTR)
                    if (key < 0 && key2 < 0) {
                        c->insert(no_search, no_search, v);
                        return;
                    }
                if (key < 0) {
                    if (v & 1) c->insert(no_search, key2, v);
                    else c->insert_or_assign(none(), key2, v);
                } else if (key2 < 0) {
                    if (v & 1) c->insert(keyName(key), none(), v);
                    else c->insert_or_assign(keyName(key), none(), v);
                } else if (v & 1)
                    c->insert(keyName(key), key2, v);
                else
                    c->insert_or_assign(keyName(key), key2, v);
            }
        });
        if (!ok) probe(P_APPFAIL);
        else {
            size_t i = front ? 0 : m.size();
            if (c->size() != m.size() + 1) fail("wrong-size", "after %s: size() is %zu instead of %zu", when, size_t(c->size()), m.size() + 1);
            Cell* p = at(i);
            if (p->val != v) fail("wrong-element", "after %s: the new element is %lld instead of %d", when, (long long)p->val, v);
            p->placed = true;
            Ent e{p, v, key, key2, -1, false};
            if (front) m.push_front(e);
            else m.push_back(e);
            if (held && front) probe(P_FRONT);
        }
        check(when);
    }
    // by position or by one of its keys
    void removeKeyed(size_t i, i64 how)
    {
        if constexpr (Keyed) {
            const Ent& e = m[i];
            if constexpr (Dual)
                if (e.key2 >= 0 && (how & 3) == 2) {
                    c->remove(e.key2);
                    return;
                }
            if (e.key >= 0 && !(how & 1)) c->remove(keyName(e.key));
            else c->removeIndex(i);
        }
    }
    // operations that must leave everything as it is
    void refused(const Op& op)
    {
        if (held) probe(P_REFUSED);
        const char* when = fiberOp(self());
        size_t n = m.size();
        const C& kc = *c;
        if constexpr (KIND == VEC || KIND == DEQ) {
            if (n) {
                if (&c->front() != m.front().p || &kc.front() != m.front().p) fail("element-moved", "front() leads elsewhere");
                if (&c->back() != m.back().p || &kc.back() != m.back().p) fail("element-moved", "back() leads elsewhere");
                if (&c->at(n - 1) != m.back().p) fail("element-moved", "at() leads elsewhere");
                if (&*(c->begin() + std::ptrdiff_t(n / 2)) != m[n / 2].p) fail("element-moved", "begin() + %zu leads elsewhere", n / 2);
            }
            try {
                c->at(n + size_t(op.a));
                fail("at-range", "at() past the end does not throw");
            }
            catch (const std::out_of_range&) {
            }
            if (kc.empty() != (n == 0)) fail("wrong-size", "empty() is wrong");
        } else {
            size_t i = n ? size_t(op.b) % n : 0;
            Sut g;
            NoFault nf;
            switch (op.a % 6) {
                case 0: c->removeIndex(n + size_t(op.b % 3)); break;
                case 1: c->remove(keyName(100000 + op.b)); break;
                case 2:
                    if constexpr (Dual) c->remove(100000 + op.b);
                    break;
                case 3:
                    if (n && m[i].key >= 0) {
                        bool in = false;
                        if constexpr (!Dual) in = bool(c->insert(keyName(m[i].key), -5));
                        else if (m[i].key2 >= 0) in = bool(c->insert(keyName(m[i].key), m[i].key2, -5));
                        else in = bool(c->insert(keyName(m[i].key), none(), -5));
                        if (in) fail("wrong-insert", "a key that is in use was inserted again");
                    }
                    break;
                case 4:
                    if constexpr (Dual)
                        if (n && m[i].key2 >= 0 && c->insert(no_search, m[i].key2, -5)) fail("wrong-insert", "a second key that is in use was inserted again");
                    break;
                default:
                    if constexpr (!Ptr) {
                        if (n && m.back().holder < 0 && !m.back().dead && c->back().val != m.back().v) fail("wrong-element", "back() is another element");
                        if (n && &kc.back() != m.back().p) fail("element-moved", "back() leads elsewhere");
                    }
            }
        }
        check(when);
    }
    bool pop(bool front)
    {
        if (m.empty()) return false;
        size_t i = front ? 0 : m.size() - 1;
        Ent e = m[i];
        if (e.holder >= 0) return false;
        if (m.size() > 1 && m[front ? 1 : i - 1].holder >= 0) probe(P_RMHELD);
        read(i);
        beingRemoved = e.p;
        {
            NoFault nf;
            Sut g;
            if constexpr (KIND == VEC) c->pop_back();
            else if constexpr (KIND == DEQ) {
                if (front) c->pop_front();
                else c->pop_back();
            } else {
                removeKeyed(i, e.v);
            }
        }
        beingRemoved = nullptr;
        if (front) m.pop_front();
        else m.pop_back();
        check(fiberOp(self()));
        return true;
    }
    void read(size_t i)
    {
        if (m[i].holder >= 0 || m[i].dead) return;
        if (m[i].p->e.get() < 0 || m[i].p->val != m[i].v)
            fail("wrong-element", "element %zu is %lld instead of %lld", i, (long long)m[i].p->val, (long long)m[i].v);
    }
    void recall(int h)
    {
        Handle& x = handles[h];
        if (x.state.load(std::memory_order_acquire) != 2) return;
        for (size_t i = 0; i < m.size(); ++i)
            if (m[i].holder == h) {
                if (m[i].v != x.v) probe(P_WRITTEN);
                m[i].v = x.v;
                m[i].holder = -1;
                --held;
                read(i);
            }
        x.p = nullptr;
        x.state.store(0, std::memory_order_relaxed);
    }
    void run(const Op& op)
    {
        opname(kNames[op.k]);
        const char* when = kNames[op.k];
        switch (op.k) {
            case PUSHB: add(false, op.a); break;
            case PUSHF: add(Front, op.a); break;
            case BULKB:
            case BULKF:
                if (held && op.b > 40) probe(P_GROWN);
                for (int i = 0; i < op.b; ++i) add(Front && op.k == BULKF, op.a + i);
                break;
            case POPB:
            case POPF:
                for (int i = 0; i < op.b && pop(Front && op.k == POPF); ++i)
                    ;
                break;
            case SHRINK:
                if constexpr (KIND == VEC || KIND == DEQ) {
                    if (held) probe(P_SHRUNK);
                    NoFault nf;
                    Sut g;
                    c->shrink_to_fit();
                }
                check(when);
                break;
            case REMOVE:
                // the pointer containers take an inner element out; the others
                // forget its keys and keep its place
                if constexpr (Keyed) {
                    if (m.empty()) break;
                    size_t i = size_t(op.b) % m.size();
                    if (m[i].holder >= 0 || m[i].dead) break;
                    Ent e = m[i];
                    beingRemoved = e.p;
                    {
                        NoFault nf;
                        Sut g;
                        removeKeyed(i, op.a);
                    }
                    beingRemoved = nullptr;
                    if (Ptr || i + 1 == m.size()) {
                        if (held && Ptr) probe(P_NEIGH);
                        m.erase(m.begin() + std::ptrdiff_t(i));
                    } else {
                        if (held) probe(P_INNER);
                        m[i].dead = true;
                        m[i].key = m[i].key2 = -1;
                    }
                    check(when);
                }
                break;
            case NOTHING: refused(op); break;
            case EMPTYALL:
                if (held) break;
                handover = false;  // all elements go
                {
                    NoFault nf;
                    Sut g;
                    c->clear();
                }
                m.clear();
                handover = true;
                check(when);
                if (ledger.live != 0) fail("element-leak", "%lld elements are left after clear", (long long)ledger.live);
                break;
            case ADDKEY:
                if constexpr (KIND == ONE || KIND == PTR || KIND == DUAL || KIND == DSTR) {
                    if (m.empty()) break;
                    size_t i = size_t(op.b) % m.size();
                    if (m[i].dead) break;
                    int key = nextKey++;
                    attempt([&] {
                        if constexpr (Dual) {
                            if (op.a % 4 == 1) c->addSearchTermForIndex(key, i);
                            else if (op.a % 4 == 2 && m[i].key >= 0) c->addSearchTerm(key, keyName(m[i].key));
                            else if (op.a % 4 == 3 && m[i].key2 >= 0) c->addSearchTerm(keyName(key), m[i].key2);
                            else c->addSearchTermForIndex(keyName(key), i);
                        } else
                            c->addSearchTermForIndex(keyName(key), i);
                    });
                    check(when);
                }
                break;
            case FIND:
                if constexpr (Keyed) {
                    if (m.empty()) break;
                    Ent& e = m[size_t(op.b) % m.size()];
                    if (e.key < 0) break;
                    const Cell* f;
                    const C& kc = *c;
                    if constexpr (Ptr) f = kc.find(keyName(e.key));
                    else {
                        auto it = kc.find(keyName(e.key));
                        if (it == kc.end()) fail("wrong-lookup", "find does not find an element that is there");
                        f = &*it;
                    }
                    if constexpr (Dual)
                        if (e.key2 >= 0) {
                            const Cell* f2;
                            if constexpr (Ptr) f2 = kc.find(e.key2);
                            else {
                                auto it = c->find(e.key2);
                                if (it == c->end()) fail("wrong-lookup", "find does not find an element that is there");
                                f2 = &*it;
                            }
                            if (f2 != e.p) fail("wrong-lookup", "find leads to another address than the element's");
                        }
                    if (f != e.p) fail("wrong-lookup", "find leads to another address than the element's");
                }
                break;
            case WALK: {
                size_t i = 0;
                const C& kc = *c;
                for (auto it = kc.begin(); it != kc.end(); ++it, ++i)
                    if (i >= m.size() || cptr(*it) != m[i].p) fail("wrong-iteration", "iteration step %zu leads elsewhere", i);
                if (i != m.size()) fail("wrong-iteration", "iteration stops after %zu of %zu", i, m.size());
                break;
            }
            case MOVE: {
                if (held) probe(P_MOVEHELD);
                if (op.b % 3 == 1) {
                    NoFault nf;
                    Sut g;
                    C* d = new C();
                    std::swap(*c, *d);
                    delete c;
                    c = d;
                } else if (op.b % 3 == 2) {
                    C* d;
                    {
                        NoFault nf;
                        Sut g;
                        d = new C(std::move(*c));
                        delete c;
                    }
                    c = d;
                } else {
                    NoFault nf;
                    Sut g;
                    C* d = new C();
                    // into one that has elements of its own
                    for (int i = 0; i < op.a; ++i) {
                        if constexpr (KIND == VEC || KIND == DEQ) d->emplace_back(i);
                        else if constexpr (KIND == ONE || KIND == STR || KIND == PTR) d->insert(keyName(i), i);
                        else d->insert(keyName(i), i, i);
                    }
                    *d = std::move(*c);
                    delete c;
                    c = d;
                }
                check(when);
                break;
            }
            case HAND: {
                Handle& x = handles[op.a % kHandles];
                if (x.p) {
                    recall(op.a % kHandles);
                    if (x.p) break;
                }
                if (m.empty()) break;
                // prefer the ends: next to what is added and removed
                size_t n = m.size();
                size_t i = op.c == 0 ? n - 1 : op.c == 1 ? 0 : op.c == 2 && n > 1 ? n - 2 : size_t(op.b) % n;
                if (m[i].holder >= 0 || m[i].dead) break;
                read(i);
                m[i].holder = op.a % kHandles;
                ++held;
                x.p = m[i].p;
                x.v = m[i].v;
                x.state.store(1, std::memory_order_release);
                break;
            }
            case RECALL: recall(op.a % kHandles); break;
            case PEEK:
                for (size_t i = 0; i < m.size(); ++i) read(i);
                check(when);
                break;
            case OYIELD: yield(); break;
            default: break;
        }
        opname("");
    }
    void finish()
    {
        for (int h = 0; h < kHandles; ++h) recall(h);
        opname("final check");
        check("the end");
        for (size_t i = 0; i < m.size(); ++i) read(i);
        handover = false;
        opname("destroy");
        {
            NoFault nf;
            Sut g;
            delete c;
        }
        if (ledger.live != 0) fail("element-leak", "%lld elements are left after the container is gone", (long long)ledger.live);
    }
};

void reader(int me, const std::vector<Op>& ops)
{
    for (auto& op : ops) {
        if (op.k == RYIELD) {
            yield();
            continue;
        }
        Handle& x = handles[op.a % kHandles];
        if (op.a % kHandles % 3 != me) continue;
        if (x.state.load(std::memory_order_acquire) != 1) {
            yield();
            continue;
        }
        opname(kNames[op.k]);
        Cell* p = x.p;
        if (p->e.get() < 0 || p->val != x.v)
            fail("wrong-element", "thread %d finds %lld instead of %lld in the element it holds", self(), (long long)p->val, (long long)x.v);
        if (op.k == WRITE) {
            x.v = op.b;
            p->val = op.b;
            // the whole element belongs to its holder
            p->e.pad[0] = op.b;
            p->placed = true;
        } else if (op.k == RELEASE)
            x.state.store(2, std::memory_order_release);
        opname("");
    }
    // everything goes back
    for (int h = 0; h < kHandles; ++h) {
        Handle& x = handles[h];
        if (h % 3 == me && x.state.load(std::memory_order_acquire) == 1) {
            if (x.p->val != x.v) fail("wrong-element", "thread %d finds %lld instead of %lld at the end", self(), (long long)x.p->val, (long long)x.v);
            x.state.store(2, std::memory_order_release);
        }
    }
}

template<class O>
void drive(const Program& p)
{
    beingRemoved = nullptr;
    handover = true;
    Handle hs[kHandles];
    handles = hs;
    O o;
    {
        NoFault nf;
        Sut g;
        using C = std::remove_pointer_t<decltype(o.c)>;
        o.c = new C();
    }
    int n = int(p.th.size()) - 1;
    auto r0 = [&] { reader(0, p.th[1]); };
    auto r1 = [&] { reader(1, p.th[2]); };
    auto r2 = [&] { reader(2, p.th[3]); };
    int f[3] = {-1, -1, -1};
    if (n > 0) f[0] = go(&r0);
    if (n > 1) f[1] = go(&r1);
    if (n > 2) f[2] = go(&r2);
    for (auto& op : p.th[0]) o.run(op);
    for (int i = 0; i < n; ++i) join(f[i]);
    // handles of readers that are not there, or handed out after they ended
    for (auto& h : hs)
        if (h.state.load(std::memory_order_acquire) == 1) h.state.store(2, std::memory_order_release);
    o.finish();
}
void body(const Program& p)
{
    switch (p.p(0)) {
        case 0: drive<Owner<StableBlockVector<Cell, 0>, VEC>>(p); break;
        case 1: drive<Owner<StableBlockVector<Cell, 2>, VEC>>(p); break;
        case 2: drive<Owner<StableBlockDeque<Cell, 0>, DEQ>>(p); break;
        case 3: drive<Owner<StableBlockDeque<Cell, 1>, DEQ>>(p); break;
        case 4: drive<Owner<StableBlockDeque<Cell, 2>, DEQ>>(p); break;
        case 5: drive<Owner<MappedVector<Cell, US, ST, 1>, ONE>>(p); break;
        case 6: drive<Owner<StringMappedVector<Cell, ST, 1>, STR>>(p); break;
        case 7: drive<Owner<MappedPointerVector<Cell, US>, PTR>>(p); break;
        case 8: drive<Owner<DualMappedVector<Cell, US, int, ST, 1>, DUAL>>(p); break;
        case 9: drive<Owner<DualStringMappedVector<Cell, int, ST, 1>, DSTR>>(p); break;
        case 10: drive<Owner<DualMappedPointerVector<Cell, US, int>, DPTR>>(p); break;
        default: drive<Owner<StableBlockVector<Cell, 5>, VEC>>(p); break;
    }
}

void gen(Rng& r, int tier, Program& p, Config& c)
{
    int kind = int(r.below(12));
    p.par = {kind};
    int readers = 1 + int(r.below(3));
    p.th.resize(size_t(1 + readers));
    int len = 6 + int(r.below(tier ? 40 : 26));
    int val = 1;
    u32 grow = 2 + r.below(5), shrink = 1 + r.below(5);
    bool big = kind <= 4 && r.chance(1, 6);
    bool two = kind >= 2 && kind <= 4 && r.chance(2, 3);
    for (int i = 0; i < len; ++i) {
        Op o{0, int(r.below(kHandles)), int(r.below(64)), int(r.below(4))};
        u32 x = r.below(20);
        if (x < 6 || i < 2) {
            bool front = two && r.chance(1, 2);
            if (r.chance(1, 3)) {
                o.k = front ? BULKF : BULKB;
                o.b = 2 + int(r.below(big ? 80 : grow * 2));
            } else
                o.k = front ? PUSHF : PUSHB;
            o.a = val;
            val += o.k == BULKB || o.k == BULKF ? o.b : 1;
        } else if (x < 9) {
            o.k = two && r.chance(1, 2) ? POPF : POPB;
            o.b = 1 + int(r.below(r.chance(1, 4) ? 30 : shrink));
        } else if (x < 13) {
            o.k = HAND;
            o.a = o.a % 3 < readers ? o.a : o.a - o.a % 3;
        } else if (x < 15)
            o.k = RECALL;
        else if (x < 19) {
            static const int ks[] = {SHRINK, REMOVE, ADDKEY, FIND, WALK, MOVE, PEEK, OYIELD, NOTHING, REMOVE, NOTHING, EMPTYALL};
            o.k = ks[r.below(12)];
        } else
            o.k = OYIELD;
        p.th[0].push_back(o);
    }
    for (int t = 1; t <= readers; ++t) {
        int n = 4 + int(r.below(tier ? 40 : 26));
        for (int i = 0; i < n; ++i) {
            Op o{0, int(r.below(kHandles / 3)) * 3 + t - 1, 100000 + val++, 0};
            u32 x = r.below(10);
            o.k = x < 2 ? READ : x < 6 ? WRITE : x < 7 ? RELEASE : RYIELD;
            p.th[size_t(t)].push_back(o);
        }
    }
    c.race = true;
    static const u32 sw[] = {40, 150, 400};
    c.psw = sw[r.below(3)];
    static const u32 pl[] = {0, 500, 4000};
    c.pplain = pl[r.below(3)];
    c.strategy = r.chance(1, 4) ? 1 : 0;
    c.maxsteps = 400000;
    if (r.chance(1, 2)) {
        c.maxf = 1 + r.below(4);
        u32 rate = r.chance(1, 2) ? 4000 : 20000;
        if (r.chance(3, 4)) c.pf[F_ALLOC] = rate;
        if (r.chance(1, 3)) c.pf[F_CTOR] = rate;
    }
}

#endif

#if SIM_HAS(24)
// ---- C24 ------------------------------------------------------------------
enum RK { RSIZE, RINDEX, RENDS, RWALK, RBACKWALK, RFIND, RAPPLY, RCOPY, RAT, RJUMP, RKN };
const char* const rNames[] = {"size", "index", "front/back", "iterate", "iterate backwards", "find", "apply", "copy", "at", "iterator jumps", nullptr};
const char* const rProbes[] = {"container_empty", "copy_failed", "overlapping_reads", "copy_changed", "many_blocks", nullptr};
enum RP { RP_EMPTY, RP_COPYFAIL, RP_OVERLAP, RP_COPYCHANGED, RP_MANY };

template<class C, Kind KIND>
struct Readers {
    static constexpr bool Keyed = KIND >= ONE;
    static constexpr bool Dual = KIND >= DUAL;
    static constexpr bool Ptr = KIND == PTR || KIND == DPTR;
    C* c{nullptr};
    std::vector<int> m;
    std::vector<std::pair<int, int>> keys;  // key, index
    static int val(const Elem& e) { return e.get(); }
    static int val(const Elem* e) { return e->get(); }
    static int val(const std::unique_ptr<Elem>& e) { return e->get(); }
    int active{0};

    void build(const std::vector<Op>& ops)
    {
        NoFault nf;
        Sut g;
        c = new C();
        int key = 0;
        for (auto& op : ops) {
            int v = op.a;
            if (op.k == 0) {
                for (int i = 0; i < op.b; ++i, ++v) {
                    bool front = false;
                    if constexpr (KIND == VEC) c->emplace_back(v);
                    else if constexpr (KIND == DEQ) {
                        front = op.c & 1;
                        if (front) c->emplace_front(v);
                        else c->emplace_back(v);
                    } else if constexpr (!Dual)
                        c->insert(keyName(key), v);
                    else
                        c->insert(keyName(key), key, v);
                    if (front) m.insert(m.begin(), v);
                    else {
                        if constexpr (Keyed) keys.push_back({key, int(m.size())});
                        m.push_back(v);
                    }
                    ++key;
                }
            } else {
                for (int i = 0; i < op.b && !m.empty(); ++i) {
                    bool front = false;
                    if constexpr (KIND == VEC) c->pop_back();
                    else if constexpr (KIND == DEQ) {
                        front = op.c & 1;
                        if (front) c->pop_front();
                        else c->pop_back();
                    } else
                        c->removeIndex(m.size() - 1);
                    if (front) m.erase(m.begin());
                    else {
                        if constexpr (Keyed)
                            while (!keys.empty() && keys.back().second == int(m.size()) - 1) keys.pop_back();
                        m.pop_back();
                    }
                }
            }
        }
        if (m.empty()) probe(RP_EMPTY);
        if (m.size() > 128) probe(RP_MANY);
    }
    [[noreturn]] static void bad(const char* what, size_t i, i64 got, i64 want)
    {
        fail("wrong-read", "%s: step %zu gives %lld instead of %lld", what, i, (long long)got, (long long)want);
    }
    // a copy is the reader's own: changing it must not reach the source or the
    // other copies
    void copy(const Op& op, const C& k)
    {
        size_t n = m.size();
        std::unique_ptr<C> d;
        bool assigned = op.b & 1;
        std::vector<int> has;  // what the copy holds if it failed
        try {
            if (assigned) {
                {
                    NoFault nf;
                    Sut g;
                    d.reset(new C());
                    for (int i = 0; i < op.c; ++i) grow(*d, has, -i - 1);
                }
                Sut g;
                *d = k;
            } else {
                Sut g;
                d.reset(new C(k));
            }
        }
        catch (int) {
            probe(RP_COPYFAIL);
            if (!assigned) return;
            d.reset();
            return;
        }
        catch (const std::bad_alloc&) {
            probe(RP_COPYFAIL);
            return;
        }
        compare(*d, m, "copy");
        if (op.b & 2) return;
        probe(RP_COPYCHANGED);
        std::vector<int> own = m;
        {
            NoFault nf;
            Sut g;
            for (int i = 0; i < op.a % 7; ++i) {
                if ((op.b >> 2 & 1) && !own.empty()) {
                    shrink(*d, own);
                } else
                    grow(*d, own, 100000 + i);
            }
            if (op.a % 5 == 0) {
                d->clear();
                own.clear();
            }
        }
        compare(*d, own, "changed copy");
        if (n) {
            size_t i = size_t(op.a) % n;
            if (val(k[i]) != m[i]) bad("source of a changed copy", i, val(k[i]), m[i]);
        }
        if (op.b & 8) {
            NoFault nf;
            Sut g;
            C e(std::move(*d));
            d.reset();
            *(d = std::make_unique<C>()) = k;
        }
    }
    static void compare(const C& d, const std::vector<int>& want, const char* w)
    {
        if (d.size() != want.size()) bad(w, 0, i64(d.size()), i64(want.size()));
        for (size_t i = 0; i < want.size(); ++i)
            if (val(d[i]) != want[i]) bad(w, i, val(d[i]), want[i]);
    }
    static void grow(C& d, std::vector<int>& own, int v)
    {
        if constexpr (KIND == VEC || KIND == DEQ) d.emplace_back(v);
        else if constexpr (!Dual) d.insert(keyName(20000 + v), v);
        else d.insert(keyName(20000 + v), 20000 + v, v);
        own.push_back(v);
    }
    static void shrink(C& d, std::vector<int>& own)
    {
        if constexpr (KIND == VEC || KIND == DEQ) d.pop_back();
        else d.removeIndex(own.size() - 1);
        own.pop_back();
    }
    void run(const Op& op)
    {
        const char* w = rNames[op.k];
        opname(w);
        const C& k = *c;
        size_t n = m.size();
        {
            Quiet q;
            if (active++) probe(RP_OVERLAP);
        }
        switch (op.k) {
            case RSIZE:
                if (k.size() != n) bad(w, 0, i64(k.size()), i64(n));
                if constexpr (KIND == VEC || KIND == DEQ)
                    if (k.empty() != (n == 0)) bad("empty", 0, k.empty(), n == 0);
                break;
            case RINDEX:
                if (n) {
                    size_t i = size_t(op.a) % n;
                    int v = val(k[i]);
                    if (v != m[i]) bad(w, i, v, m[i]);
                }
                break;
            case RENDS:
                if constexpr (!Ptr)
                    if (n) {
                        if (val(k.back()) != m.back()) bad("back", n - 1, val(k.back()), m.back());
                        if constexpr (KIND == DEQ || KIND == VEC)
                            if (val(k.front()) != m.front()) bad("front", 0, val(k.front()), m.front());
                    }
                break;
            case RWALK: {
                size_t i = 0;
                for (auto it = k.begin(); it != k.end(); ++it, ++i) {
                    if (i >= n) bad(w, i, -1, -1);
                    int v = val(*it);
                    if (v != m[i]) bad(w, i, v, m[i]);
                }
                if (i != n) bad(w, i, i64(i), i64(n));
                break;
            }
            case RJUMP:
                if constexpr (KIND == VEC || KIND == DEQ) {
                    if (!n) break;
                    size_t i = size_t(op.a) % n;
                    size_t j = size_t(op.b) % n;
                    auto it = k.cbegin() + std::ptrdiff_t(i);
                    if (val(*it) != m[i]) bad(w, i, val(*it), m[i]);
                    auto back = k.cend() - std::ptrdiff_t(n - j);
                    if (val(*back) != m[j]) bad(w, j, val(*back), m[j]);
                    if ((it == back) != (i == j)) bad("iterator comparison", i, it == back, i == j);
                    if ((it != back) != (i != j)) bad("iterator comparison", i, it != back, i != j);
                    auto old = it++;
                    if (val(*old) != m[i]) bad("post-increment", i, val(*old), m[i]);
                    if (i + 1 < n) {
                        if (val(*it) != m[i + 1]) bad("post-increment", i + 1, val(*it), m[i + 1]);
                    } else if (!(it == k.end()))
                        bad("end", i + 1, 0, 1);
                    it--;
                    if (it->get() != m[i]) bad("post-decrement", i, it->get(), m[i]);
                }
                break;
            case RBACKWALK: {
                if (!n) break;
                auto it = k.end();
                for (size_t i = n; i-- > 0;) {
                    --it;
                    int v = val(*it);
                    if (v != m[i]) bad(w, i, v, m[i]);
                }
                if (!(it == k.begin())) bad("begin", 0, 0, 0);
                break;
            }
            case RFIND:
                if constexpr (Keyed) {
                    if (keys.empty()) break;
                    auto [key, i] = keys[size_t(op.a) % keys.size()];
                    std::string name = keyName(key);
                    std::string miss = keyName(key + 10000);
                    if constexpr (Ptr) {
                        auto* e = k.find(name);
                        if (!e) bad(w, size_t(key), -1, m[size_t(i)]);
                        if (val(e) != m[size_t(i)]) bad(w, size_t(key), val(e), m[size_t(i)]);
                        if (k.find(miss)) bad("find of an absent key", size_t(key), 1, 0);
                        if constexpr (Dual)
                            if (k.find(key + 10000)) bad("find of an absent second key", size_t(key), 1, 0);
                        if constexpr (Dual)
                            if (k.find(key) != e) bad("find by the second key", size_t(key), 0, 0);
                    } else {
                        auto it = k.find(name);
                        if (it == k.end()) bad(w, size_t(key), -1, m[size_t(i)]);
                        if (val(*it) != m[size_t(i)]) bad(w, size_t(key), val(*it), m[size_t(i)]);
                        if (!(k.find(miss) == k.end())) bad("find of an absent key", size_t(key), 1, 0);
                        if constexpr (Dual)
                            if (!(k.find(key + 10000) == k.end())) bad("find of an absent second key", size_t(key), 1, 0);
                        if constexpr (Dual)
                            if (!(k.find(key) == it)) bad("find by the second key", size_t(key), 0, 0);
                    }
                }
                break;
            case RAPPLY:
                if constexpr (KIND == ONE || KIND == STR || Ptr) {
                    size_t i = 0;
                    k.apply([&](const auto& e) {
                        if (i >= m.size() || val(e) != m[i]) bad("apply", i, val(e), i < m.size() ? m[i] : -1);
                        ++i;
                    });
                    if (i != n) bad("apply", i, i64(i), i64(n));
                }
                break;
            case RCOPY:
                if constexpr (!Ptr) copy(op, k);
                break;
            case RAT:
                if constexpr (!Ptr || (KIND == DPTR && SIM_EXTRAS)) {
                    size_t i = size_t(op.a) % (n + 2);
                    bool threw = false;
                    try {
                        int v = val(k.at(i));
                        if (i < n && v != m[i]) bad(w, i, v, m[i]);
                    }
                    catch (const std::out_of_range&) {
                        threw = true;
                    }
                    if (threw != (i >= n)) bad("at range check", i, threw, i >= n);
                }
                break;
            default: break;
        }
        {
            Quiet q;
            --active;
        }
        opname("");
        addEvals(1);
    }
    void destroy()
    {
        NoFault nf;
        Sut g;
        delete c;
    }
};

// the byte buffers: observers and copies
struct Bytes {
    CircularBuffer* cb{nullptr};
    StackBuffer* sb{nullptr};
    std::deque<std::vector<unsigned char>> m;
    int active{0};
    int cap{0};
    bool circ;
    Bytes(bool circular, int capacity): cap(capacity), circ(circular) {}
    void build(const std::vector<Op>& ops)
    {
        NoFault nf;
        Sut g;
        if (circ) cb = new CircularBuffer(cap);
        else sb = new StackBuffer(cap);
        for (auto& op : ops) {
            std::vector<unsigned char> d(size_t(op.b), (unsigned char)(1 + op.a % 255));
            if (op.k == 0) {
                bool ok = circ ? cb->push(d.data(), int(d.size())) : sb->push(d.data(), int(d.size()));
                if (ok) {
                    if (circ) m.push_back(d);
                    else m.push_front(d);
                }
            } else if (!m.empty()) {
                if (!circ && op.c) {
                    sb->reverse();
                    std::reverse(m.begin(), m.end());
                }
                unsigned char out[256];
                if (circ) cb->pop(out, 256);
                else sb->pop(out, 256);
                m.pop_front();
            }
        }
        if (m.empty()) probe(RP_EMPTY);
    }
    template<class B>
    void see(const B& k, const Op& op)
    {
        switch (op.k) {
            case RCOPY: {
                std::unique_ptr<B> d;
                try {
                    Sut g;
                    d.reset(new B(k));
                }
                catch (const std::bad_alloc&) {
                }
                if (!d) {
                    probe(RP_COPYFAIL);
                    break;
                }
                if (op.b & 2) {
                    // the reader's own copy may be changed before it is emptied
                    probe(RP_COPYCHANGED);
                    NoFault nf;
                    Sut g;
                    unsigned char block[5];
                    memset(block, 77, sizeof block);
                    int sz = 1 + op.a % 5;
                    bool room = k.isSpaceAvailable(sz);
                    bool ok = d->push(block, sz);
                    if (ok != room) fail("wrong-read", "isSpaceAvailable(%d) gives %d, push into a copy %d", sz, int(room), int(ok));
                    if (ok && op.b & 4) d->clear();
                    else if (ok) {
                        if constexpr (std::is_same_v<B, StackBuffer>) {
                            unsigned char o[8];
                            d->pop(o, 8);
                        }
                    }
                    if (op.b & 8) {
                        std::unique_ptr<B> e(new B(std::move(*d)));
                        d->clear();
                        *d = k;
                    } else if (op.b & 4) {
                        *d = k;
                    } else if (std::is_same_v<B, CircularBuffer> && ok) {
                        *d = k;
                    }
                }
                for (auto& x : m) {
                    unsigned char out[256] = {0};
                    int r = d->pop(out, 256);
                    if (r != int(x.size()) || out[0] != x[0] || out[r - 1] != x[0])
                        fail("wrong-read", "a copy returns %d bytes of %d instead of %zu of %d", r, out[0], x.size(), x[0]);
                }
                if (!d->empty()) fail("wrong-read", "a copy holds more than its source");
                break;
            }
            case RSIZE:
                if (k.empty() != m.empty()) fail("wrong-read", "empty() gives %d", int(k.empty()));
                if (k.capacity() != cap) fail("wrong-read", "capacity() gives %d instead of %d", k.capacity(), cap);
                if constexpr (std::is_same_v<B, StackBuffer>)
                    if (k.getCurrentCount() != int(m.size())) fail("wrong-read", "getCurrentCount() gives %d instead of %zu", k.getCurrentCount(), m.size());
                break;
            default: {
                int want = m.empty() ? 0 : int(m.front().size());
                if (k.nextDataSize() != want) fail("wrong-read", "nextDataSize() gives %d instead of %d", k.nextDataSize(), want);
                if (k.isSpaceAvailable(cap + 1)) fail("wrong-read", "isSpaceAvailable() promises more than the capacity");
                break;
            }
        }
    }
    void run(const Op& op)
    {
        opname(rNames[op.k]);
        {
            Quiet q;
            if (active++) probe(RP_OVERLAP);
        }
        if (circ) see<CircularBuffer>(*cb, op);
        else see<StackBuffer>(*sb, op);
        {
            Quiet q;
            --active;
        }
        opname("");
        addEvals(1);
    }
    void destroy()
    {
        NoFault nf;
        Sut g;
        delete cb;
        delete sb;
    }
};

template<class R>
void share(const Program& p, R&& r)
{
    r.build(p.th[0]);
    auto work = [&](size_t t) {
        for (auto& op : p.th[t]) r.run(op);
    };
    auto w1 = [&] { work(1); };
    auto w2 = [&] { work(2); };
    auto w3 = [&] { work(3); };
    int n = int(p.th.size()) - 1;
    int f[3];
    if (n > 0) f[0] = go(&w1);
    if (n > 1) f[1] = go(&w2);
    if (n > 2) f[2] = go(&w3);
    for (int i = 0; i < n; ++i) join(f[i]);
    r.destroy();
}
void body2(const Program& p)
{
    switch (p.p(0)) {
        case 0: share(p, Readers<StableBlockVector<Elem, 1>, VEC>()); break;
        case 1: share(p, Readers<StableBlockDeque<Elem, 1>, DEQ>()); break;
        case 2: share(p, Readers<StableBlockDeque<Elem, 3>, DEQ>()); break;
        case 3: share(p, Readers<MappedVector<Elem, US>, ONE>()); break;
        case 4: share(p, Readers<MappedVector<Elem, US, ST, 1>, ONE>()); break;
        case 5: share(p, Readers<StringMappedVector<Elem, ST, 1>, STR>()); break;
        case 6: share(p, Readers<MappedPointerVector<Elem, US>, PTR>()); break;
        case 7: share(p, Readers<DualMappedVector<Elem, US, int>, DUAL>()); break;
        case 8: share(p, Readers<DualMappedVector<Elem, US, int, ST, 1>, DUAL>()); break;
        case 9: share(p, Readers<DualStringMappedVector<Elem, int, ST, 1>, DSTR>()); break;
        case 10: share(p, Readers<DualMappedPointerVector<Elem, US, int>, DPTR>()); break;
        case 11: share(p, Bytes(true, p.p(1))); break;
        default: share(p, Bytes(false, p.p(1))); break;
    }
}
void gen2(Rng& r, int tier, Program& p, Config& c)
{
    p.par = {int(r.below(13)), 16 + int(r.below(100))};
    int readers = 2 + int(r.below(2));
    p.th.resize(size_t(1 + readers));
    int len = r.chance(1, 12) ? 0 : 1 + int(r.below(8));
    int val = 1;
    bool big = r.chance(1, 40);
    // the byte buffers get long histories: wraps, marks and gaps need them
    bool bytes = p.par[0] >= 11;
    if (bytes && len) len = 2 + int(r.below(r.chance(1, 2) ? 12 : 60));
    u32 drop = bytes ? 20 + u32(r.below(35)) : 25;
    for (int i = 0; i < len; ++i) {
        Op o{i && r.chance(drop, 100) ? 1 : 0, val, 1 + int(r.below(bytes ? 24 : 6)), int(r.below(2))};
        if (big && i == 0 && !bytes) o.b = 130 + int(r.below(60));
        val += o.b;
        p.th[0].push_back(o);
    }
    for (int t = 1; t <= readers; ++t) {
        int n = 2 + int(r.below(tier ? 14 : 9));
        for (int i = 0; i < n; ++i) p.th[size_t(t)].push_back({int(r.below(RKN)), int(r.below(64)), int(r.below(64)), int(r.below(5))});
    }
    c.race = true;
    static const u32 sw[] = {40, 150, 400};
    c.psw = sw[r.below(3)];
    static const u32 pl[] = {100, 1000, 6000};
    c.pplain = pl[r.below(3)];
    c.maxsteps = 400000;
    if (r.chance(1, 3)) {
        c.maxf = 1 + r.below(3);
        c.pf[F_ALLOC] = 5000;
        c.pf[F_COPY] = 3000;
    }
}

#endif

Scenario sc[] = {
#if SIM_HAS(23)
    {"C23", "stable_references", 10, gen, body, nullptr, kNames, probeNames},
#endif
#if SIM_HAS(24)
    {"C24", "concurrent_readers", 10, gen2, body2, nullptr, rNames, rProbes},
#endif
};
const char* const real[] = {"gmlc/containers/StableBlockVector.hpp",   "gmlc/containers/StableBlockDeque.hpp",
                            "gmlc/containers/BlockIterator.hpp",       "gmlc/containers/MappedVector.hpp",
                            "gmlc/containers/StringMappedVector.hpp",  "gmlc/containers/MappedPointerVector.hpp",
                            "gmlc/containers/DualMappedVector.hpp",    "gmlc/containers/DualStringMappedVector.hpp",
                            "gmlc/containers/DualMappedPointerVector.hpp", "gmlc/containers/CircularBuffer.hpp",
                            "gmlc/containers/StackBuffer.hpp",         nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
