// C17, C18: StableBlockVector and StableBlockDeque under failing growth
#include "sim.h"

#include <gmlc/containers/StableBlockDeque.hpp>
#include <gmlc/containers/StableBlockVector.hpp>

#include <algorithm>
#include <deque>
#include <iterator>
#include <new>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

using namespace sim;
using gmlc::containers::StableBlockDeque;
using gmlc::containers::StableBlockVector;

// blocks_gcc.cpp
const char* listElements(bool deque, std::uint64_t seed);

namespace {
enum K {
    NEWDEF, NEWSIZE, COPYC, MOVEC, COPYA, MOVEA, DROP, PUSHC, PUSHM, EMPL, FPUSHC, FPUSHM, FEMPL, BULKB, BULKF, POPB,
    POPF, BULKPB, BULKPF, CLEAR, SHRINK, ASSIGN, MASSIGN, SETAT, AT, LISTS, KN
};
const char* const kNames[] = {"default construct", "construct(size)", "copy construct", "move construct",
                              "copy assign", "move assign", "destroy", "push_back(copy)", "push_back(move)",
                              "emplace_back", "push_front(copy)", "push_front(move)", "emplace_front",
                              "many emplace_back", "many emplace_front", "pop_back", "pop_front", "many pop_back",
                              "many pop_front", "clear", "shrink_to_fit", "assign(range)", "move_assign(range)",
                              "assign element", "at", "elements made from lists", nullptr};
const char* const probeNames[] = {"append_failed", "construction_failed", "copy_failed", "assignment_failed",
                                  "over_64_blocks", "emptied_by_pops", "moved_from_reused",
                                  "failed_at_block_boundary", "over_64_free_blocks", "appended_own_element",
                                  "checked_allocator", "list_elements", "plain_elements", "move_only_elements", "single_pass_range", "aligned_elements", "blocks_of_512", "copy_only_elements", "over_65536_elements", nullptr};
enum P { P_APPFAIL, P_CTORFAIL, P_COPYFAIL, P_ASSIGNFAIL, P_BIG, P_EMPTIED, P_MOVEDREUSE, P_BOUNDARY, P_BIGFREE, P_OWN, P_ALLOC, P_LISTS, P_PLAIN, P_MOVEONLY, P_ONCE, P_WIDE, P_LARGE, P_COPYONLY, P_HUGE };

constexpr int NS = 3;

// an allocator that remembers how much each piece was asked for
template<class T>
struct Checked {
    using value_type = T;
    Checked() = default;
    template<class U>
    Checked(const Checked<U>&)
    {
    }
    static constexpr size_t HEAD = 64;
    T* allocate(size_t n)
    {
        char* p = static_cast<char*>(::operator new(HEAD + n * sizeof(T)));
        new (p) size_t(n);
        return reinterpret_cast<T*>(p + HEAD);
    }
    void deallocate(T* t, size_t n)
    {
        char* p = reinterpret_cast<char*>(t) - HEAD;
        size_t was = *reinterpret_cast<size_t*>(p);
        if (was != n) fail("wrong-deallocation", "memory for %zu objects is given back as memory for %zu", was, n);
        ::operator delete(p);
    }
    template<class U>
    bool operator==(const Checked<U>&) const
    {
        return true;
    }
    template<class U>
    bool operator!=(const Checked<U>&) const
    {
        return false;
    }
};

// a range that can be read only once
template<class E>
struct Once {
    using iterator_category = std::input_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using pointer = E*;
    using reference = E&;
    E** at{nullptr};
    E* end{nullptr};
    E& operator*() const { return **at; }
    Once& operator++()
    {
        ++*at;
        return *this;
    }
    void operator++(int) { ++*at; }
    E* place() const { return at ? *at : end; }
    bool operator==(const Once& o) const { return place() == o.place(); }
    bool operator!=(const Once& o) const { return place() != o.place(); }
};

template<class E, class C, bool Deque, unsigned BS>
struct Runner {
    static constexpr bool copies = std::is_copy_constructible<E>::value;
    static constexpr bool counted = !std::is_trivially_destructible<E>::value;
    struct Slot {
        C* c{nullptr};
        std::deque<std::pair<int, const E*>> m;
        bool moved{false};
    };
    Slot s[NS];

    template<class F>
    bool attempt(F&& f)
    {
        try {
            Sut g;
            f();
            return true;
        }
        catch (int) {
        }
        catch (const std::bad_alloc&) {
        }
        return false;
    }
    i64 total() const
    {
        i64 n = 0;
        for (auto& x : s) n += i64(x.m.size());
        return n;
    }
    // full comparison of one container with its model
    void verify(int i, const char* when)
    {
        Slot& x = s[i];
        if (!x.c) return;
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size();
        if (c.size() != n || c.empty() != (n == 0))
            fail("wrong-size", "after %s: size() is %zu, empty() is %d, expected %zu elements", when, c.size(),
                 int(c.empty()), n);
        for (size_t j = 0; j < n; ++j) {
            const E* e = &k[j];
            if (e != x.m[j].second)
                fail("element-moved", "after %s: element %zu of %zu changed its address", when, j, n);
            int v = e->get();
            if (v != x.m[j].first)
                fail("wrong-element", "after %s: element %zu of %zu is %d instead of %d", when, j, n, v, x.m[j].first);
        }
        size_t j = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++j) {
            if (j >= n) fail("wrong-iteration", "after %s: iteration does not stop after %zu elements", when, n);
            if (&*it != x.m[j].second) fail("wrong-iteration", "after %s: iterator step %zu of %zu is wrong", when, j, n);
        }
        if (j != n) fail("wrong-iteration", "after %s: iteration stops after %zu of %zu elements", when, j, n);
        j = n;
        if (n) {
            auto it = k.end();
            auto b = k.begin();
            do {
                --it;
                --j;
                if (&*it != x.m[j].second)
                    fail("wrong-iteration", "after %s: backward iterator at %zu of %zu is wrong", when, j, n);
            } while (j > 0);
            if (it != b) fail("wrong-iteration", "after %s: backward iteration does not end at begin()", when);
            if (&c.back() != x.m[n - 1].second || &k.back() != x.m[n - 1].second)
                fail("wrong-element", "after %s: back() is not the last of %zu elements", when, n);
            if (&c.front() != x.m[0].second || &k.front() != x.m[0].second)
                fail("wrong-element", "after %s: front() is not the first of %zu elements", when, n);
        }
        addEvals(n + 4);
    }
    void verifyAll(const char* when)
    {
        for (int i = 0; i < NS; ++i) verify(i, when);
        if (counted && ledger.live != total())
            fail("element-count", "after %s: %lld elements are alive, the containers hold %lld", when,
                 (long long)ledger.live, (long long)total());
    }
    // the model takes over the container's addresses (new elements only)
    void adopt(Slot& x, size_t keepFront)
    {
        for (size_t j = keepFront; j < x.m.size(); ++j) x.m[j].second = &(*x.c)[j];
    }
    void ensure(Slot& x)
    {
        if (!x.c) {
            NoFault nf;
            Sut g;
            x.c = new C();
        }
        if (x.moved) {
            probe(P_MOVEDREUSE);
            x.moved = false;
        }
    }
    void drop(Slot& x)
    {
        if (x.c) {
            Sut g;
            delete x.c;
            x.c = nullptr;
        }
        x.m.clear();
        x.moved = false;
    }
    // self > 0: append a copy of one of the container's own elements
    void pushOne(Slot& x, int kind, int v, int self = 0)
    {
        bool front = kind >= FPUSHC;
        const E* own = nullptr;
        if (copies && self && !x.m.empty()) {
            size_t j = size_t(self) % x.m.size();
            own = x.m[j].second;
            v = x.m[j].first;
            probe(P_OWN);
        }
        std::optional<E> e;
        {
            NoFault nf;
            e.emplace(v);
        }
        bool edge = !front && x.m.size() % BS == 0;
        bool ok = attempt([&] {
            if constexpr (copies) {
                if (own) {
                    if (kind == PUSHC) x.c->push_back(*own);
                    else if (kind == EMPL) x.c->emplace_back(*own);
                    else if constexpr (Deque) {
                        if (kind == FPUSHC) x.c->push_front(*own);
                        else x.c->emplace_front(*own);
                    }
                    return;
                }
                if (kind == PUSHC) {
                    x.c->push_back(static_cast<const E&>(*e));
                    return;
                }
                if constexpr (Deque)
                    if (kind == FPUSHC) {
                        x.c->push_front(static_cast<const E&>(*e));
                        return;
                    }
            }
            if (kind == EMPL) x.c->emplace_back(v);
            else if (!front) x.c->push_back(std::move(*e));
            else if constexpr (Deque) {
                if (kind == FEMPL) x.c->emplace_front(v);
                else x.c->push_front(std::move(*e));
            }
        });
        e.reset();
        if (ok) {
            if (front) x.m.emplace_front(v, &(*x.c)[0]);
            else x.m.emplace_back(v, &(*x.c)[x.m.size()]);
            if (x.m.size() > 64 * BS) probe(P_BIG);
            if (x.m.size() > 65536) probe(P_HUGE);
        } else {
            probe(P_APPFAIL);
            if (edge) probe(P_BOUNDARY);
        }
    }
    void popOne(Slot& x, bool front)
    {
        Sut g;
        if (front) {
            if constexpr (Deque) x.c->pop_front();
            if (!x.m.empty()) x.m.pop_front();
        } else {
            x.c->pop_back();
            if (!x.m.empty()) x.m.pop_back();
        }
        if (x.m.empty()) probe(P_EMPTIED);
    }
    // after an assignment that threw: a prefix was replaced
    void resync(Slot& x, const std::vector<int>& want, const char* when)
    {
        probe(P_ASSIGNFAIL);
        size_t o = x.m.size(), n = want.size(), z = x.c->size();
        if (z < (o < n ? o : n) || z > (o > n ? o : n))
            fail("wrong-size", "after a failed %s from %zu to %zu elements the container has %zu", when, o, n, z);
        std::deque<std::pair<int, const E*>> nm;
        for (size_t j = 0; j < z; ++j) {
            const E* e = &(*x.c)[j];
            int v = e->get();
            if (j < o && e != x.m[j].second) fail("element-moved", "a failed %s moved element %zu", when, j);
            if (!(j < o && v == x.m[j].first) && !(j < n && v == want[j]))
                fail("wrong-element", "after a failed %s element %zu is %d, neither the old nor the new value", when, j, v);
            nm.emplace_back(v, e);
        }
        x.m = std::move(nm);
    }
    void run(const Op& op)
    {
        opname(kNames[op.k]);
        mark(u64(op.k) | u64(op.a) << 8 | u64(u32(op.c)) << 16);
        Slot& x = s[op.a % NS];
        int next = op.b;
        switch (op.k) {
            case NEWDEF:
                drop(x);
                if (!attempt([&] { x.c = new C(); })) probe(P_CTORFAIL);
                break;
            case NEWSIZE: {
                drop(x);
                if (!copies) break;
                int v = next;
                size_t n = size_t(op.c);
                std::optional<E> init;
                {
                    NoFault nf;
                    init.emplace(v);
                }
                bool ok = attempt([&] {
                    if constexpr (copies) x.c = new C(n, *init);
                });
                init.reset();
                if (!ok) {
                    probe(P_CTORFAIL);
                    break;
                }
                for (size_t j = 0; j < n; ++j) x.m.emplace_back(v, nullptr);
                if (x.c->size() != n) fail("wrong-size", "constructed with %zu elements, size() is %zu", n, x.c->size());
                adopt(x, 0);
                break;
            }
            case COPYC: {
                Slot& y = s[(op.a + 1 + op.c) % NS];
                if (!copies || &x == &y || !y.c) break;
                drop(x);
                if (!attempt([&] {
                        if constexpr (copies) x.c = new C(static_cast<const C&>(*y.c));
                    })) {
                    probe(P_COPYFAIL);
                    break;
                }
                x.m = y.m;
                if (x.c->size() != x.m.size())
                    fail("wrong-size", "a copy of %zu elements has size %zu", x.m.size(), x.c->size());
                adopt(x, 0);
                for (size_t j = 0; j < x.m.size(); ++j)
                    if (x.m[j].second == y.m[j].second) fail("shared-element", "a copy shares element %zu with its source", j);
                break;
            }
            case MOVEC:
            case MOVEA: {
                if (op.c >= 2) {  // exchange, possibly with itself
                    Slot& y = s[(op.a + op.c - 2) % NS];
                    if (!x.c || !y.c) break;
                    bool ok = attempt([&] { std::swap(*x.c, *y.c); });
                    if (!ok) fail("move-failed", "an exchange of two containers threw");
                    if (&x != &y) std::swap(x.m, y.m), std::swap(x.moved, y.moved);
                    break;
                }
                Slot& y = s[(op.a + 1 + op.c) % NS];
                if (&x == &y || !y.c) break;
                if (op.k == MOVEC) {
                    drop(x);
                    if (!attempt([&] { x.c = new C(std::move(*y.c)); })) break;
                } else {
                    ensure(x);
                    Sut g;
                    *x.c = std::move(*y.c);
                }
                x.m = std::move(y.m);
                y.m.clear();
                y.moved = true;
                x.moved = false;
                break;
            }
            case COPYA: {
                Slot& y = s[(op.a + op.c) % NS];
                if (!copies || !y.c) break;
                ensure(x);
                std::vector<int> want;
                for (auto& e : y.m) want.push_back(e.first);
                size_t old = x.m.size();
                if (attempt([&] {
                        if constexpr (copies) *x.c = static_cast<const C&>(*y.c);
                    })) {
                    if (x.c->size() != want.size())
                        fail("wrong-size", "assigned %zu elements, size() is %zu", want.size(), x.c->size());
                    x.m.resize(want.size());
                    for (size_t j = 0; j < want.size(); ++j) x.m[j].first = want[j];
                    adopt(x, old < want.size() ? old : want.size());
                } else
                    resync(x, want, "copy assignment");
                break;
            }
            case DROP: drop(x); break;
            case PUSHC:
            case PUSHM:
            case EMPL:
            case FPUSHC:
            case FPUSHM:
            case FEMPL:
                ensure(x);
                pushOne(x, op.k, next, op.k == PUSHM || op.k == FPUSHM ? 0 : op.c);
                break;
            case BULKB:
            case BULKF:
                ensure(x);
                for (int j = 0; j < op.c; ++j) pushOne(x, op.k == BULKB ? EMPL : FEMPL, next + j);
                break;
            case POPB:
            case POPF:
                ensure(x);
                popOne(x, op.k == POPF);
                break;
            case BULKPB:
            case BULKPF:
                ensure(x);
                if (op.c > int(64 * BS)) probe(P_BIGFREE);
                for (int j = 0; j < op.c && !x.m.empty(); ++j) popOne(x, op.k == BULKPF);
                break;
            case CLEAR: {
                ensure(x);
                Sut g;
                x.c->clear();
                x.m.clear();
                break;
            }
            case SHRINK: {
                ensure(x);
                Sut g;
                x.c->shrink_to_fit();
                break;
            }
            case ASSIGN:
            case MASSIGN: {
                ensure(x);
                std::vector<E> src;
                std::vector<int> want;
                int n = op.c & 0xffff, kind = op.c >> 16;
                {
                    NoFault nf;
                    src.reserve(size_t(n));
                    for (int j = 0; j < n; ++j) {
                        src.emplace_back(next + j);
                        want.push_back(next + j);
                    }
                }
                size_t old = x.m.size();
                bool ok = attempt([&] {
                    auto give = [&](auto first, auto last) {
                        if constexpr (copies)
                            if (op.k == ASSIGN) {
                                x.c->assign(first, last);
                                return;
                            }
                        x.c->move_assign(first, last);
                    };
                    if (kind == 1) {
                        give(src.data(), src.data() + src.size());
                    } else if (kind == 2) {
                        probe(P_ONCE);
                        E* at = src.data();
                        give(Once<E>{&at}, Once<E>{nullptr, at + src.size()});
                    } else if (kind == 3) {
                        give(std::make_reverse_iterator(src.end()), std::make_reverse_iterator(src.begin()));
                    } else
                        give(src.begin(), src.end());
                });
                if (kind == 3) std::reverse(want.begin(), want.end());
                src.clear();
                if (ok) {
                    if (x.c->size() != want.size())
                        fail("wrong-size", "assigned %zu elements, size() is %zu", want.size(), x.c->size());
                    x.m.resize(want.size());
                    for (size_t j = 0; j < want.size(); ++j) x.m[j].first = want[j];
                    adopt(x, old < want.size() ? old : want.size());
                } else
                    resync(x, want, "range assignment");
                break;
            }
            case SETAT: {
                if (!x.c || x.m.empty()) break;
                size_t j = size_t(op.c) % x.m.size();
                NoFault nf;
                E e(next);
                (*x.c)[j] = std::move(e);
                x.m[j].first = next;
                break;
            }
            case AT: {
                if (!x.c) break;
                size_t j = size_t(op.c) % (x.m.size() + 2);
                if (j < x.m.size()) {
                    size_t back = x.m.size() - j;
                    auto it = x.c->begin() + std::ptrdiff_t(j);
                    auto jt = static_cast<const C&>(*x.c).end() - std::ptrdiff_t(back);
                    if (&*it != x.m[j].second || &*jt != x.m[j].second)
                        fail("wrong-iteration", "an iterator moved to element %zu of %zu is elsewhere", j, x.m.size());
                    auto kt = x.c->end() + -std::ptrdiff_t(back);
                    auto lt = static_cast<const C&>(*x.c).begin() - -std::ptrdiff_t(j);
                    if (&*kt != x.m[j].second || &*lt != x.m[j].second)
                        fail("wrong-iteration", "an iterator moved by a negative amount to element %zu of %zu is elsewhere", j,
                             x.m.size());
                    if constexpr (std::is_integral_v<typename std::iterator_traits<decltype(it)>::difference_type>) {
                        auto gap = std::distance(static_cast<const C&>(*x.c).begin(), x.c->cend());
                        auto count = std::count_if(x.c->begin(), x.c->end(), [](const E&) { return true; });
                        if (std::int64_t(gap) != std::int64_t(x.m.size()) || std::int64_t(count) != std::int64_t(x.m.size()))
                            fail("wrong-iteration", "the distance from begin to end is %lld, %lld elements are counted, there are %zu",
                                 (long long)gap, (long long)count, x.m.size());
                    } else
                        fail("wrong-iteration", "the distance between two iterators is not a number");
                    it += std::ptrdiff_t(back);
                    if (it != x.c->end())
                        fail("wrong-iteration", "an iterator moved %zu steps past element %zu is not at the end", back, j);
                }
                bool threw = false;
                try {
                    const E& e = (op.b & 1) ? x.c->at(j) : static_cast<const C&>(*x.c).at(j);
                    if (j < x.m.size() && &e != x.m[j].second)
                        fail("wrong-element", "at(%zu) is not element %zu of %zu", j, j, x.m.size());
                }
                catch (const std::out_of_range&) {
                    threw = true;
                }
                if (threw != (j >= x.m.size()))
                    fail("range-check", "at(%zu) with %zu elements %s", j, x.m.size(), threw ? "threw" : "did not throw");
                break;
            }
            case LISTS: {
                probe(P_LISTS);
                const char* bad = nullptr;
                {
                    NoFault nf;
                    Sut g;
                    bad = listElements(Deque, u64(op.c));
                }
                if (bad) fail("wrong-element", "%s of an element that can be made from a list stores a list", bad);
                break;
            }
            default: break;
        }
        verifyAll(kNames[op.k]);
        opname("");
    }
};

// par: 0 block exponent
// an element that has to lie at a multiple of 64
struct alignas(64) Wide: Elem {
    Wide() { where(); }
    explicit Wide(int v): Elem(v) { where(); }
    Wide(const Wide& o): Elem(o) { where(); }
    Wide(Wide&& o) noexcept: Elem(std::move(o)) { where(); }
    Wide& operator=(const Wide&) = default;
    Wide& operator=(Wide&&) noexcept = default;
    void where() const
    {
        if (reinterpret_cast<std::uintptr_t>(this) % 64)
            fail("misaligned-element", "an element with an alignment of 64 is created at %p", static_cast<const void*>(this));
    }
};

template<template<class, unsigned, class> class C, bool D>
void body(const Program& p)
{
    auto run = [&](auto& r) {
        for (auto& t : p.th)
            for (auto& o : t) r.run(o);
        opname("destroy all");
        for (auto& x : r.s) r.drop(x);
    };
    switch (p.p(0)) {
        case 0: { Runner<Elem, C<Elem, 0, std::allocator<Elem>>, D, 1> r; run(r); break; }
        case 1: { Runner<Elem, C<Elem, 1, std::allocator<Elem>>, D, 2> r; run(r); break; }
        case 2: { Runner<Elem, C<Elem, 2, std::allocator<Elem>>, D, 4> r; run(r); break; }
        case 3: { Runner<Elem, C<Elem, 3, std::allocator<Elem>>, D, 8> r; run(r); break; }
        case 4: { Runner<Elem, C<Elem, 1, Checked<Elem>>, D, 2> r; probe(P_ALLOC); run(r); break; }
        case 5: { Runner<Elem, C<Elem, 2, Checked<Elem>>, D, 4> r; probe(P_ALLOC); run(r); break; }
        case 10: { Runner<Elem, C<Elem, 9, std::allocator<Elem>>, D, 512> r; probe(P_LARGE); run(r); break; }
#if SIM_EXTRAS
        case 7: { Runner<Plain, C<Plain, 1, std::allocator<Plain>>, D, 2> r; probe(P_PLAIN); run(r); break; }
        case 8: { Runner<Plain, C<Plain, 2, Checked<Plain>>, D, 4> r; probe(P_PLAIN); run(r); break; }
        case 11: { Runner<Wide, C<Wide, 2, std::allocator<Wide>>, D, 4> r; probe(P_WIDE); run(r); break; }
        case 12: { Runner<CopyOnly, C<CopyOnly, 1, std::allocator<CopyOnly>>, D, 2> r; probe(P_COPYONLY); run(r); break; }
        case 9: { Runner<MoveOnly, C<MoveOnly, 1, std::allocator<MoveOnly>>, D, 2> r; probe(P_MOVEONLY); run(r); break; }
#endif
        default: { Runner<Elem, C<Elem, 5, std::allocator<Elem>>, D, 32> r; run(r); break; }
    }
}

void gen(Rng& r, int tier, Program& p, Config& c, bool deque)
{
    int n = int(r.below(3)) == 0 ? 4 + int(r.below(8)) : int(r.below(4));
    if (n >= 10) ++n;
    if (r.chance(1, 60)) n = 10;
    p.par = {n};
    static const int blockSizes[] = {1, 2, 4, 8, 2, 4, 32, 2, 4, 2, 512, 4, 2};
    int bs = blockSizes[n];
    p.th.resize(1);
    c.psw = 0;
    if (bs <= 4 && r.chance(1, 8000)) {  // more blocks and elements than 16 bits can count
        c.maxsteps = 4000000;  // (and accesses in proportion)
        bool other = r.chance(1, 2);
        int v = 1;
        auto fill = [&](int m) {
            p.th[0].push_back(Op{deque && r.chance(1, 2) ? BULKF : BULKB, 0, v, m});
            v += m;
        };
        fill(66000 * (bs < 2 ? 1 : r.chance(1, 3) ? bs : 1) + int(r.below(2000)));
        for (int i = 0, k = 2 + int(r.below(4)); i < k; ++i) {
            switch (r.below(other ? 8 : 6)) {
                case 0: p.th[0].push_back(Op{AT, 0, i, int(r.below(70000))}); break;
                case 1: fill(1 + int(r.below(500))); break;
                case 2:
                case 3: p.th[0].push_back(Op{deque && r.chance(1, 2) ? BULKPF : BULKPB, 0, 0, 1 + int(r.below(70000))}); break;
                case 4: p.th[0].push_back(Op{SHRINK, 0, 0, 0}); break;
                case 5: fill(30000 + int(r.below(40000))); break;
                case 6: p.th[0].push_back(Op{COPYC, 1, 0, NS - 2}); break;
                default: p.th[0].push_back(Op{COPYA, 0, 0, 1}); break;
            }
        }
        return;
    }
    int len = 3 + int(r.below(tier ? 40 : 26));
    int next = 1;
    // large fills make the tables of blocks and of free blocks grow
    bool big = bs <= 2 && r.chance(1, 6);
    bool copies = r.chance(1, 2), moves = r.chance(1, 2), assigns = r.chance(1, 2), sizes = r.chance(1, 2);
    int focus = r.chance(1, 2) ? 1 : NS;
    u32 popBias = 1 + r.below(4);
    for (int i = 0; i < len; ++i) {
        int slot = int(r.below(u32(focus)));
        if (focus == 1 && r.chance(1, 8)) slot = int(r.below(NS));
        Op o{0, slot, next, 0};
        u32 x = r.below(24);
        if (x < 7) {
            o.k = deque ? PUSHC + int(r.below(6)) : PUSHC + int(r.below(3));
            if (r.chance(1, 6)) o.c = 1 + int(r.below(60));
            ++next;
        } else if (x < 11) {
            o.k = deque && r.chance(1, 2) ? BULKF : BULKB;
            o.c = 1 + int(r.below(u32(2 * bs + 2)));
            if (o.c > 40 && bs <= 32) o.c = 40;
            if (big && r.chance(1, 2)) o.c = 60 + int(r.below(100));
            next += o.c;
        } else if (x < 15) {
            if (r.below(4) < popBias) {
                o.k = deque && r.chance(1, 2) ? POPF : POPB;
                if (r.chance(1, 2)) {
                    o.k = o.k == POPF ? BULKPF : BULKPB;
                    o.c = 1 + int(r.below(u32(3 * bs + 3)));
                    if (big) o.c += int(r.below(100));
                }
            } else
                o.k = r.chance(1, 2) ? AT : SETAT, o.c = int(r.below(50)), ++next;
        } else if (x < 16)
            o.k = CLEAR;
        else if (x < 17)
            o.k = SHRINK;
        else if (x < 19 && assigns) {
            o.k = r.chance(1, 2) ? ASSIGN : MASSIGN;
            o.c = int(r.below(u32(2 * bs + 3)));
            next += o.c;
            o.c |= int(r.below(4)) << 16;
        } else if (x < 20 && copies)
            o.k = r.chance(1, 2) ? COPYC : COPYA, o.c = int(r.below(3)) % 2;
        else if (x < 21 && moves)
            o.k = r.chance(1, 2) ? MOVEC : MOVEA, o.c = int(r.below(r.chance(1, 4) ? 5 : 2));
        else if (x < 22 && sizes) {
            o.k = NEWSIZE;
            o.c = int(r.below(u32(3 * bs + 2)));
            ++next;
        } else if (x < 23)
            o.k = r.chance(1, 2) ? DROP : NEWDEF;
        else if (r.chance(1, 6)) {
            o.k = LISTS;
            o.c = int(r.below(1u << 30));
        } else {
            o.k = copies ? COPYA : PUSHM;
            o.c = copies ? int(r.below(3)) : 0;
            ++next;
        }
        p.th[0].push_back(o);
    }
    c.psw = 0;
    if (r.chance(4, 5)) {
        c.maxf = 1 + r.below(6);
        static const u32 rates[] = {150, 700, 3000, 9000};
        u32 rate = rates[r.below(4)];
        if (r.chance(3, 4)) c.pf[F_ALLOC] = rate * 3;
        if (r.chance(1, 2)) c.pf[F_COPY] = rate;
        if (r.chance(1, 2)) c.pf[F_CTOR] = rate;
        if (r.chance(1, 2)) c.pf[F_ASSIGN] = rate;
    }
}
[[maybe_unused]] void genV(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, false); }
[[maybe_unused]] void genD(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, true); }

Scenario sc[] = {
#if SIM_HAS(17)
    {"C17", "block_vector", 10, genV, body<StableBlockVector, false>, nullptr, kNames, probeNames},
#endif
#if SIM_HAS(18)
    {"C18", "block_deque", 10, genD, body<StableBlockDeque, true>, nullptr, kNames, probeNames},
#endif
};
const char* const real[] = {"gmlc/containers/StableBlockVector.hpp", "gmlc/containers/StableBlockDeque.hpp",
                            "gmlc/containers/BlockIterator.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
