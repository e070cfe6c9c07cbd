// C21, C22: mapped containers with one and two keys under failing insertions
#include "sim.h"

#include <gmlc/containers/DualMappedPointerVector.hpp>
#include <gmlc/containers/DualMappedVector.hpp>
#include <gmlc/containers/DualStringMappedVector.hpp>
#include <gmlc/containers/MappedPointerVector.hpp>
#include <gmlc/containers/MappedVector.hpp>
#include <gmlc/containers/StringMappedVector.hpp>

#include <climits>
#include <cstdint>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

using namespace sim;
using namespace gmlc::containers;

namespace {
enum K { INS, INSPTR, IOA, IOAPTR, ADDI, ADDT, RMI, RM, CLEAR, COPYC, COPYA, MOVEC, MOVEA, VISIT, DROP, MANY, KN };
const char* const kNames[] = {"insert", "insert(pointer)", "insert_or_assign", "insert_or_assign(pointer)",
                              "addSearchTermForIndex", "addSearchTerm", "removeIndex", "remove", "clear", "copy construct",
                              "copy assign", "move construct", "move assign", "apply/modify/transform", "destroy", "many inserts", nullptr};
const char* const probeNames[] = {"insert_failed", "assign_failed", "add_key_failed", "duplicate_key", "removed_last",
                                  "removed_inner", "removed_element_with_many_keys", "removed_element_without_key",
                                  "copy_failed", "mixed_dual_insert", "copied_then_source_destroyed", "empty_key_used", "own_element_inserted", "over_100_elements", "over_65536_elements",
                                  nullptr};
enum P { P_INSFAIL, P_ASSFAIL, P_ADDFAIL, P_DUP, P_RMLAST, P_RMINNER, P_MANY, P_NOKEY, P_COPYFAIL, P_MIXED, P_SRCGONE, P_EMPTYKEY, P_OWN, P_HUNDRED, P_HUGE };

constexpr int NK = 8, NS = 2;

// a key whose copies can fail
struct Key {
    Elem e;
    Key() = default;
    explicit Key(int v) : e(v) {}
    bool operator<(const Key& o) const { return e.get() < o.e.get(); }
};

template<class T>
struct Keys;
template<>
struct Keys<std::string> {
    std::vector<std::string> v;
    Keys()
    {
        // empty, parts of each other, equal up to a zero character, long with a long common start
        v.push_back("");
        v.push_back("a key that does not fit a small string");
        v.push_back("a");
        v.push_back(v[1] + "!");
        v.push_back(std::string("a\0b", 3));
        v.push_back(std::string(300, 'x') + "1");
        v.push_back(std::string("a\0c", 3));
        v.push_back(std::string(300, 'x') + "2");
    }
    const std::string& operator[](int i) const { return v[size_t(i)]; }
};
template<>
struct Keys<int> {
    std::vector<int> v;
    Keys()
    {
        v = {0, 5, -1, INT_MAX, INT_MIN, 1, -5, 65536};
    }
    const int& operator[](int i) const { return v[size_t(i)]; }
};
// keys that differ in their upper halves only
template<>
struct Keys<std::uint64_t> {
    std::vector<std::uint64_t> v;
    Keys()
    {
        for (int i = 0; i < NK; ++i) v.push_back((std::uint64_t(i) << (i & 1 ? 32 : 61)) | 7);
    }
    const std::uint64_t& operator[](int i) const { return v[size_t(i)]; }
};
template<>
struct Keys<Key> {
    std::vector<Key> v;
    Keys()
    {
        v.reserve(NK);
        for (int i = 0; i < NK; ++i) v.emplace_back(i);
    }
    const Key& operator[](int i) const { return v[size_t(i)]; }
};

// a key of one call only: nothing may keep using it afterwards
template<class T, bool View>
struct Tmp {
    std::unique_ptr<T> v;
    explicit Tmp(const T& x)
    {
        NoFault nf;
        v = std::make_unique<T>(x);
    }
    ~Tmp()
    {
        NoFault nf;
        v.reset();
    }
    const T& get() const { return *v; }
};
// a string view into the middle of other characters
template<>
struct Tmp<std::string, true> {
    std::unique_ptr<std::string> v;
    explicit Tmp(const std::string& x)
    {
        NoFault nf;
        v = std::make_unique<std::string>("<" + x + "> and what follows");
        n = x.size();
    }
    ~Tmp()
    {
        NoFault nf;
        v->assign(v->size(), '#');
        v.reset();
    }
    std::string_view get() const { return std::string_view(*v).substr(1, n); }
    size_t n;
};

enum Kind { ONE, STR, PTR, DUAL, DSTR, DPTR };

template<class C, Kind KIND, bool Stable, class K1, class K2, class E = Elem>
struct Runner {
    static constexpr bool copies = std::is_copy_constructible<E>::value;
    static constexpr bool Dual = KIND >= DUAL;
    static constexpr bool Ptr = KIND == PTR || KIND == DPTR;
    static constexpr bool CanRemove = SIM_EXTRAS || Stable || KIND == ONE || KIND == DUAL || Ptr;
    static constexpr bool CanAdd = KIND != STR && KIND != DPTR;
    static constexpr bool CanTerm = KIND == DUAL || KIND == DSTR;

    // removals may have to move elements
    struct Nothing {
        Nothing() {}
    };
    using RemovalGuard = std::conditional_t<std::is_nothrow_move_constructible_v<E>, Nothing, NoFault>;

    struct El {
        int v;
        const E* p;
    };
    struct Slot {
        C* c{nullptr};
        std::vector<El> m;
        std::map<int, size_t> k[2];
        bool copied{false};
    };
    Slot s[NS];
    Keys<K1> key1;
    Keys<K2> key2;
    Tmp<K1, KIND == STR || KIND == DSTR> t1(int k) const { return Tmp<K1, KIND == STR || KIND == DSTR>(key1[k]); }
    Tmp<K2, false> t2(int k) const { return Tmp<K2, false>(key2[k]); }

    template<class F>
    bool attempt(F&& f)
    {
        try {
            Sut g;
            f();
            return true;
        }
        catch (int) {
        }
        catch (const std::bad_alloc&) {
        }
        return false;
    }
    static const E* ptr(const E* p) { return p; }
    static const E* ptr(const std::unique_ptr<E>& p) { return p.get(); }
    static const E* ptr(const E& p) { return &p; }
    template<class CC, class KK>
    static const E* lookup(CC& c, const KK& key)
    {
        if constexpr (Ptr) return c.find(key);
        else {
            auto it = c.find(key);
            if (it == c.end()) return nullptr;
            return &*it;
        }
    }
    const E* at(Slot& x, size_t i)
    {
        const C& c = *x.c;
        return ptr(c[i]);
    }
    void check(Slot& x, const char* when)
    {
        if (!x.c) return;
        C& c = *x.c;
        const C& kc = c;
        size_t n = x.m.size();
        if (c.size() != n) fail("wrong-size", "after %s: size() is %zu instead of %zu", when, size_t(c.size()), n);
        for (size_t i = 0; i < n; ++i) {
            const E* e = at(x, i);
            if ((Stable || Ptr) && x.m[i].p && e != x.m[i].p)
                fail("element-moved", "after %s: element %zu changed its address", when, i);
            x.m[i].p = e;
            if (!e) fail("wrong-element", "after %s: element %zu is missing", when, i);
            if (e->get() != x.m[i].v)
                fail("wrong-element", "after %s: element %zu is %d instead of %d", when, i, e->get(), x.m[i].v);
        }
        if (n) {
            const E* last = x.m[n - 1].p;
            if (ptr(c.back()) != last) fail("wrong-element", "after %s: back() is not the last of %zu elements", when, n);
            if constexpr (!Ptr) {
                if (&kc.back() != last) fail("wrong-element", "after %s: back() const is not the last of %zu elements", when, n);
                for (size_t i = 0; i < n; ++i)
                    if (&c[i] != x.m[i].p || &c.at(i) != x.m[i].p || &kc.at(i) != x.m[i].p)
                        fail("wrong-element", "after %s: operator[] and at(%zu) disagree", when, i);
            }
        }
        for (int j = 0; j < (Dual ? 2 : 1); ++j)
            for (int k = 0; k < NK; ++k) {
                const E *e, *e2;
                if (j == 0) {
                    e = lookup(c, key1[k]);
                    e2 = lookup(kc, key1[k]);
                } else {
                    if constexpr (Dual) {
                        e = lookup(c, key2[k]);
                        e2 = lookup(kc, key2[k]);
                    } else
                        e = e2 = nullptr;
                }
                auto it = x.k[j].find(k);
                const E* want = it == x.k[j].end() ? nullptr : x.m[it->second].p;
                if (e != want || e2 != want) {
                    long at = -1;
                    for (size_t i = 0; i < n; ++i)
                        if (x.m[i].p == e) at = long(i);
                    fail("wrong-lookup", "after %s: key %d of map %d finds %s (element %ld), expected %s (element %ld) of %zu",
                         when, k, j + 1, e ? "an element" : "nothing", at, want ? "an element" : "nothing",
                         want ? long(it->second) : -1L, n);
                }
            }
        size_t i = 0;
        for (auto it = kc.begin(); it != kc.end(); ++it, ++i)
            if (i >= n || ptr(*it) != x.m[i].p) fail("wrong-iteration", "after %s: iteration step %zu of %zu is wrong", when, i, n);
        if (i != n) fail("wrong-iteration", "after %s: iteration stops after %zu of %zu", when, i, n);
        if constexpr (KIND == DPTR && SIM_EXTRAS) {
            bool threw = false;
            for (size_t k = 0; k < n; ++k)
                if (kc.at(k) != x.m[k].p) fail("wrong-element", "after %s: at(%zu) is another element", when, k);
            try {
                NoFault nf;
                threw = (n & 7) != 1 || kc.at(n) == nullptr;
            }
            catch (const std::out_of_range&) {
                threw = true;
            }
            if (!threw) fail("wrong-element", "after %s: at(%zu) finds something", when, n);
        }
        if constexpr (Ptr)
            if (kc[n] || kc[n + 7]) fail("wrong-element", "after %s: operator[](%zu) finds something", when, n);
        addEvals(n + NK);
    }
    void drop(Slot& x)
    {
        if (x.c) {
            Sut g;
            delete x.c;
            x.c = nullptr;
        }
        x.m.clear();
        x.k[0].clear();
        x.k[1].clear();
        for (auto& y : s)
            if (&y != &x && y.copied && y.c) probe(P_SRCGONE);
        x.copied = false;
    }
    void ensure(Slot& x)
    {
        if (!x.c) {
            NoFault nf;
            Sut g;
            x.c = new C();
        }
    }
    // calls F with the key arguments of the mode: 0 both, 1 first, 2 second, 3 none
    template<class V>
    std::optional<size_t> insert(C& c, int mode, int k1, int k2, V&& v)
    {
        if constexpr (!Dual) {
            if (mode == 3) return c.insert(no_search, std::forward<V>(v));
            return c.insert(t1(k1).get(), std::forward<V>(v));
        } else if constexpr (KIND == DPTR) {
            if (mode == 1) return c.insert(t1(k1).get(), nullptr, std::forward<V>(v));
            if (mode == 2) return c.insert(no_search, t2(k2).get(), std::forward<V>(v));
            return c.insert(t1(k1).get(), t2(k2).get(), std::forward<V>(v));
        } else {
            if (mode == 1) return c.insert(t1(k1).get(), no_search, std::forward<V>(v));
            if (mode == 2) return c.insert(no_search, t2(k2).get(), std::forward<V>(v));
            if (mode == 3) return c.insert(no_search, no_search, std::forward<V>(v));
            return c.insert(t1(k1).get(), t2(k2).get(), std::forward<V>(v));
        }
    }
    template<class V>
    size_t assign(C& c, int mode, int k1, int k2, V&& v)
    {
        if constexpr (!Dual) return c.insert_or_assign(t1(k1).get(), std::forward<V>(v));
        else if constexpr (KIND == DPTR) {
            if (mode == 1) return c.insert_or_assign(t1(k1).get(), nullptr, std::forward<V>(v));
            if (mode == 2) return c.insert_or_assign(nullptr, t2(k2).get(), std::forward<V>(v));
            return c.insert_or_assign(t1(k1).get(), t2(k2).get(), std::forward<V>(v));
        } else {
            if (mode == 1) return c.insert_or_assign(t1(k1).get(), no_search, std::forward<V>(v));
            if (mode == 2) return c.insert_or_assign(no_search, t2(k2).get(), std::forward<V>(v));
            return c.insert_or_assign(t1(k1).get(), t2(k2).get(), std::forward<V>(v));
        }
    }
    // a key that was already there may keep its element or move to the new one
    void mixed(Slot& x, int j, int k, size_t index)
    {
        probe(P_MIXED);
        const E* e = nullptr;
        if (j == 0) e = lookup(*x.c, key1[k]);
        else if constexpr (Dual) e = lookup(*x.c, key2[k]);
        if (e && e == at(x, index)) x.k[j][k] = index;
    }
    void erase(Slot& x, size_t i)
    {
        int keys = 0;
        bool phys = !Stable || i + 1 == x.m.size();
        for (auto& mp : x.k)
            for (auto it = mp.begin(); it != mp.end();) {
                if (it->second == i) {
                    ++keys;
                    it = mp.erase(it);
                } else {
                    if (phys && it->second > i) --it->second;
                    ++it;
                }
            }
        if (keys > (Dual ? 2 : 1)) probe(P_MANY);
        if (!keys) probe(P_NOKEY);
        probe(i + 1 == x.m.size() ? P_RMLAST : P_RMINNER);
        if (phys) {
            x.m.erase(x.m.begin() + std::ptrdiff_t(i));
            if (!Ptr && !Stable)
                for (auto& e : x.m) e.p = nullptr;
        }
    }
    void append(Slot& x, int v)
    {
        if (!Ptr && !Stable)
            for (auto& e : x.m) e.p = nullptr;
        x.m.push_back({v, nullptr});
    }
    void run(const Op& op)
    {
        opname(kNames[op.k]);
        mark(u64(op.k) | u64(op.a) << 8 | u64(u32(op.c)) << 16 | (op.k == RMI || op.k == ADDI ? u64(u32(op.b)) << 32 : 0));
        Slot& x = s[op.a % NS];
        Slot& y = s[(op.a + 1) % NS];
        int k1 = op.c & 7, k2 = (op.c >> 3) & 7, mode = (op.c >> 6) & 3;
        if (!Dual && mode != 3) mode = 1;
        bool use1 = mode == 0 || mode == 1, use2 = mode == 0 || mode == 2;
        const char* when = kNames[op.k];
        // the value may be one of the container's own elements
        const E* own = nullptr;
        int v = op.b;
        if (copies && (op.k == INS || op.k == IOA) && (op.c & 512) && x.c && !x.m.empty()) {
            size_t i = size_t(op.b) % x.m.size();
            own = x.m[i].p;
            v = x.m[i].v;
            probe(P_OWN);
        }
        switch (op.k) {
            case INS:
            case INSPTR: {
                if (KIND == DPTR && mode == 3) break;
                ensure(x);
                if ((use1 && !k1) || (use2 && !k2)) probe(P_EMPTYKEY);
                bool has1 = use1 && x.k[0].count(k1), has2 = use2 && x.k[1].count(k2);
                bool refuse = mode == 0 ? has1 && has2 : has1 || has2;
                std::optional<size_t> r;
                bool ok = false;
                if (op.k == INSPTR && Ptr && (!Dual ? mode == 1 : mode == 0)) {
                    if constexpr (Ptr) {
                        std::unique_ptr<E> own;
                        {
                            NoFault nf;
                            own = std::make_unique<E>(op.b);
                        }
                        if constexpr (Dual) ok = attempt([&] { r = x.c->insert(t1(k1).get(), t2(k2).get(), std::move(own)); });
                        else ok = attempt([&] { r = x.c->insert(t1(k1).get(), std::move(own)); });
                    }
                } else if (own) {
                    ok = attempt([&] {
                        if constexpr (copies) r = insert(*x.c, mode, k1, k2, *own);
                    });
                } else
                    ok = attempt([&] { r = insert(*x.c, mode, k1, k2, v); });
                if (!ok) {
                    probe(P_INSFAIL);
                    break;
                }
                if (refuse) {
                    probe(P_DUP);
                    if (r) fail("duplicate-accepted", "an insert with existing keys returned index %zu", *r);
                    break;
                }
                if (!r) fail("insert-refused", "an insert with a free key was refused");
                if (*r != x.m.size()) fail("wrong-index", "insert returned %zu with %zu elements before", *r, x.m.size());
                if (x.c->size() != *r + 1) fail("wrong-size", "after insert: size() is %zu, returned index %zu", size_t(x.c->size()), *r);
                append(x, v);
                if (use1) {
                    if (has1) mixed(x, 0, k1, *r);
                    else x.k[0][k1] = *r;
                }
                if (use2) {
                    if (has2) mixed(x, 1, k2, *r);
                    else x.k[1][k2] = *r;
                }
                break;
            }
            case IOA:
            case IOAPTR: {
                if (mode == 3) mode = Dual ? 0 : 1, use1 = true, use2 = Dual;
                ensure(x);
                bool has1 = use1 && x.k[0].count(k1), has2 = use2 && x.k[1].count(k2);
                size_t r = 0;
                bool ok = false;
                if (op.k == IOAPTR && Ptr && (!Dual ? mode == 1 : mode == 0)) {
                    if constexpr (Ptr) {
                        std::unique_ptr<E> own;
                        {
                            NoFault nf;
                            own = std::make_unique<E>(op.b);
                        }
                        if constexpr (Dual) ok = attempt([&] { r = x.c->insert_or_assign(t1(k1).get(), t2(k2).get(), std::move(own)); });
                        else ok = attempt([&] { r = x.c->insert_or_assign(t1(k1).get(), std::move(own)); });
                    }
                } else if (own) {
                    ok = attempt([&] {
                        if constexpr (copies) r = assign(*x.c, mode, k1, k2, *own);
                    });
                } else
                    ok = attempt([&] { r = assign(*x.c, mode, k1, k2, v); });
                // the element that gets assigned, if any
                bool assigns = false;
                size_t target = 0;
                if (mode == 1 && has1) assigns = true, target = x.k[0][k1];
                if (mode == 2 && has2) assigns = true, target = x.k[1][k2];
                if (mode == 0 && has1) {
                    target = x.k[0][k1];
                    assigns = KIND == DPTR ? has2 && x.k[1][k2] == target : true;
                }
                if (!ok) {
                    if (!assigns) probe(P_INSFAIL);
                    else {
                        probe(P_ASSFAIL);
                        // the assignment may have happened, the second key may be set
                        const E* e = target < x.c->size() ? at(x, target) : nullptr;
                        if (e && e->get() == v) x.m[target].v = v, x.m[target].p = e;
                        if constexpr (Dual)
                            if (mode == 0 && e && lookup(*x.c, key2[k2]) == e) x.k[1][k2] = target;
                    }
                    break;
                }
                size_t want = assigns ? target : x.m.size();
                if (r != want) fail("wrong-index", "insert_or_assign returned %zu instead of %zu", r, want);
                if (assigns) {
                    x.m[target].v = v;
                    if (Ptr) x.m[target].p = nullptr;
                } else
                    append(x, v);
                if (use1) x.k[0][k1] = r;
                if (use2) x.k[1][k2] = r;
                break;
            }
            case ADDI:
                if constexpr (CanAdd) {
                    ensure(x);
                    size_t i = size_t(op.b) % (x.m.size() + 2);
                    bool second = Dual && use2;
                    int k = second ? k2 : k1;
                    bool r = false;
                    bool ok = attempt([&] {
                        if (!second) r = x.c->addSearchTermForIndex(t1(k).get(), i);
                        else if constexpr (Dual) r = x.c->addSearchTermForIndex(t2(k).get(), i);
                    });
                    if (!ok) {
                        probe(P_ADDFAIL);
                        break;
                    }
                    auto& mp = x.k[second ? 1 : 0];
                    bool want = i < x.m.size() && !mp.count(k);
                    if (r != want) fail("wrong-result", "addSearchTermForIndex(%d, %zu) returned %d with %zu elements", k, i, int(r), x.m.size());
                    if (want) mp[k] = i;
                }
                break;
            case ADDT:
                if constexpr (CanTerm) {
                    ensure(x);
                    bool n2 = op.b & 1, e2 = op.b & 2;  // new key in map 2, existing key in map 2
                    bool r = false;
                    bool ok = attempt([&] {
                        if (!n2 && !e2) r = x.c->addSearchTerm(t1(k1).get(), t1(k2).get());
                        else if (n2 && !e2) r = x.c->addSearchTerm(t2(k1).get(), t1(k2).get());
                        else if (!n2) r = x.c->addSearchTerm(t1(k1).get(), t2(k2).get());
                        else r = x.c->addSearchTerm(t2(k1).get(), t2(k2).get());
                    });
                    if (!ok) {
                        probe(P_ADDFAIL);
                        break;
                    }
                    auto& from = x.k[e2 ? 1 : 0];
                    auto& to = x.k[n2 ? 1 : 0];
                    bool want = from.count(k2) && !to.count(k1);
                    if (r != want) fail("wrong-result", "addSearchTerm returned %d", int(r));
                    if (want) to[k1] = from[k2];
                }
                break;
            case RMI:
                if constexpr (CanRemove) {
                    ensure(x);
                    size_t i = size_t(op.b) % (x.m.size() + 1);
                    bool ok = attempt([&] {
                        RemovalGuard g;
                        x.c->removeIndex(i);
                    });
                    if (!ok) fail("removal-failed", "removeIndex threw");
                    if (i < x.m.size()) erase(x, i);
                }
                break;
            case RM:
                if constexpr (CanRemove) {
                    ensure(x);
                    bool second = Dual && use2;
                    int k = second ? k2 : k1;
                    bool ok = attempt([&] {
                        RemovalGuard g;
                        if (!second) x.c->remove(t1(k).get());
                        else if constexpr (Dual) x.c->remove(t2(k).get());
                    });
                    if (!ok) fail("removal-failed", "remove threw");
                    auto& mp = x.k[second ? 1 : 0];
                    auto it = mp.find(k);
                    if (it != mp.end()) erase(x, it->second);
                }
                break;
            case CLEAR: {
                ensure(x);
                {
                    Sut g;
                    x.c->clear();
                }
                x.m.clear();
                x.k[0].clear();
                x.k[1].clear();
                break;
            }
            case COPYC:
            case COPYA:
                if constexpr (!Ptr && copies) {
                    if (!y.c) break;
                    bool ok;
                    if (op.k == COPYC) {
                        drop(x);
                        ok = attempt([&] { x.c = new C(static_cast<const C&>(*y.c)); });
                    } else {
                        ensure(x);
                        ok = attempt([&] { *x.c = static_cast<const C&>(*y.c); });
                    }
                    if (!ok) {
                        probe(P_COPYFAIL);
                        break;
                    }
                    C* c = x.c;
                    x = y;
                    x.c = c;
                    x.copied = true;
                    for (auto& e : x.m) e.p = nullptr;
                }
                break;
            case MOVEC:
            case MOVEA: {
                if (op.c & 1024) {  // exchange, possibly with itself
                    Slot& z = (op.c & 2048) ? x : y;
                    if (!x.c || !z.c) break;
                    if (!attempt([&] {
                            NoFault nf;
                            std::swap(*x.c, *z.c);
                        }))
                        fail("move-failed", "an exchange of two containers threw");
                    if (&x != &z) {
                        std::swap(x, z);
                        std::swap(x.c, z.c);
                    }
                    break;
                }
                if (!y.c) break;
                if (op.k == MOVEC) {
                    drop(x);
                    if (!attempt([&] { x.c = new C(std::move(*y.c)); })) break;
                } else {
                    ensure(x);
                    if (!attempt([&] { *x.c = std::move(*y.c); })) fail("move-failed", "a move assignment threw");
                }
                C* c = x.c;
                x = y;
                x.c = c;
                y.m.clear();
                y.k[0].clear();
                y.k[1].clear();
                {
                    NoFault nf;
                    Sut g;
                    y.c->clear();
                }
                break;
            }
            case VISIT: {
                if (!x.c) break;
                size_t i = 0;
                auto see = [&](const E* e) {
                    if (i >= x.m.size() || e->get() != x.m[i].v) fail("wrong-visit", "apply visits something else at step %zu", i);
                    ++i;
                };
                if constexpr (Ptr) {
                    if (op.c & 1) x.c->apply([&](const E* e) { see(e); });
                    else static_cast<const C&>(*x.c).apply([&](const E* e) { see(e); });
                } else {
                    const C& kc = *x.c;
                    if constexpr (!Dual) kc.apply([&](const E& e) { see(&e); });
                    else x.c->apply([&](const E& e) { see(&e); });
                    if (i != x.m.size()) fail("wrong-visit", "apply visits %zu of %zu elements", i, x.m.size());
                    int add = op.b;
                    NoFault nf;
                    if (op.c & 1) x.c->modify([&](E& e) { e = E(e.get() + add); });
                    else x.c->transform([&](const E& e) { return E(e.get() + add); });
                    for (auto& e : x.m) e.v += add;
                    break;
                }
                if (i != x.m.size()) fail("wrong-visit", "apply visits %zu of %zu elements", i, x.m.size());
                break;
            }
            case DROP: drop(x); break;
            case MANY:
                if constexpr (KIND != DPTR) {
                    ensure(x);
                    for (int i = 0; i < op.b % 90 + (op.c & 4096 ? 65500 : 0); ++i) {
                        if (!attempt([&] { insert(*x.c, 3, 0, 0, op.b + i); })) probe(P_INSFAIL);
                        else x.m.push_back({op.b + i, nullptr});
                    }
                    if (!Ptr && !Stable)
                        for (auto& e : x.m) e.p = nullptr;
                    if (x.m.size() > 100) probe(P_HUNDRED);
                    if (x.m.size() > 65536) probe(P_HUGE);
                }
                break;
            default: break;
        }
        for (auto& z : s) check(z, when);
        opname("");
    }
};

template<class R>
void drive(const Program& p)
{
    R r;
    for (auto& t : p.th)
        for (auto& o : t) r.run(o);
    opname("destroy all");
    for (auto& x : r.s) r.drop(x);
}
using US = std::string;
constexpr auto ST = reference_stability::stable;
constexpr auto UN = reference_stability::unstable;

#if SIM_HAS(21)
void body1(const Program& p)
{
    switch (p.p(0)) {
        case 0: drive<Runner<MappedVector<Elem, US, UN>, ONE, false, US, int>>(p); break;
        case 1: drive<Runner<MappedVector<Elem, US, ST, 1>, ONE, true, US, int>>(p); break;
        case 2: drive<Runner<MappedVector<Elem, int, ST, 0>, ONE, true, int, int>>(p); break;
        case 3: drive<Runner<MappedVector<Elem, Key, UN>, ONE, false, Key, int>>(p); break;
        case 4: drive<Runner<StringMappedVector<Elem, ST, 1>, STR, true, US, int>>(p); break;
        case 5: drive<Runner<StringMappedVector<Elem, UN, 1>, STR, false, US, int>>(p); break;
        case 6: drive<Runner<MappedPointerVector<Elem, US>, PTR, false, US, int>>(p); break;
#if SIM_EXTRAS
        case 8: drive<Runner<MappedVector<Plain, int, UN>, ONE, false, int, int, Plain>>(p); break;
        case 9: drive<Runner<MappedVector<Plain, US, ST, 1>, ONE, true, US, int, Plain>>(p); break;
        case 10: drive<Runner<StringMappedVector<Plain, UN>, STR, false, US, int, Plain>>(p); break;
        case 11: drive<Runner<MappedVector<MoveOnly, US, UN>, ONE, false, US, int, MoveOnly>>(p); break;
        case 13: drive<Runner<MappedVector<Elem, std::uint64_t, UN>, ONE, false, std::uint64_t, int>>(p); break;
        case 14: drive<Runner<MappedVector<Plain, std::uint64_t, ST, 7>, ONE, true, std::uint64_t, int, Plain>>(p); break;
        case 15: drive<Runner<MappedVector<CopyOnly, US, UN>, ONE, false, US, int, CopyOnly>>(p); break;
        case 16: drive<Runner<MappedVector<CopyOnly, int, ST, 1>, ONE, true, int, int, CopyOnly>>(p); break;
        case 12: drive<Runner<MappedVector<MoveOnly, int, ST, 1>, ONE, true, int, int, MoveOnly>>(p); break;
#endif
        default: drive<Runner<MappedPointerVector<Elem, Key>, PTR, false, Key, int>>(p); break;
    }
}
#endif
#if SIM_HAS(22)
void body2(const Program& p)
{
    switch (p.p(0)) {
        case 0: drive<Runner<DualMappedVector<Elem, US, int, UN>, DUAL, false, US, int>>(p); break;
        case 1: drive<Runner<DualMappedVector<Elem, US, int, ST, 1>, DUAL, true, US, int>>(p); break;
        case 2: drive<Runner<DualMappedVector<Elem, int, Key, ST, 2>, DUAL, true, int, Key>>(p); break;
        case 3: drive<Runner<DualStringMappedVector<Elem, int, ST, 1>, DSTR, true, US, int>>(p); break;
        case 4: drive<Runner<DualStringMappedVector<Elem, Key, ST, 0>, DSTR, true, US, Key>>(p); break;
        case 5: drive<Runner<DualMappedPointerVector<Elem, US, int>, DPTR, false, US, int>>(p); break;
#if SIM_EXTRAS
        case 7: drive<Runner<DualMappedVector<Plain, US, int, UN>, DUAL, false, US, int, Plain>>(p); break;
        case 8: drive<Runner<DualMappedVector<Plain, int, US, ST, 1>, DUAL, true, int, US, Plain>>(p); break;
        case 9: drive<Runner<DualStringMappedVector<Plain, int, ST, 1>, DSTR, true, US, int, Plain>>(p); break;
        case 11: drive<Runner<DualMappedVector<Elem, std::uint64_t, int, ST, 2>, DUAL, true, std::uint64_t, int>>(p); break;
        case 12: drive<Runner<DualMappedPointerVector<Elem, std::uint64_t, US>, DPTR, false, std::uint64_t, US>>(p); break;
        case 15: drive<Runner<DualStringMappedVector<Elem, int, UN>, DSTR, false, US, int>>(p); break;
        case 13: drive<Runner<DualMappedVector<CopyOnly, US, int, UN>, DUAL, false, US, int, CopyOnly>>(p); break;
        case 14: drive<Runner<DualStringMappedVector<CopyOnly, int, ST, 1>, DSTR, true, US, int, CopyOnly>>(p); break;
        case 10: drive<Runner<DualMappedVector<MoveOnly, US, int, UN>, DUAL, false, US, int, MoveOnly>>(p); break;
#endif
        default: drive<Runner<DualMappedPointerVector<Elem, Key, US>, DPTR, false, Key, US>>(p); break;
    }
}

#endif
void gen(Rng& r, int tier, Program& p, Config& c, int kinds, int extras)
{
    // mostly the counted elements, sometimes plain or move-only ones
    p.par = {int(r.chance(5, 6) ? r.below(u32(kinds)) : r.below(u32(kinds + extras)))};
    p.th.resize(1);
    int len = 3 + int(r.below(tier ? 50 : 30));
    bool huge = r.chance(1, 8000);  // more elements than 16 bits can count
    if (huge) len = 6, c.maxsteps = 4000000;  // (and accesses in proportion)
    int focus = r.chance(2, 3) ? 1 : NS;
    u32 keys = 2 + r.below(NK - 1);
    u32 rm = r.below(5), add = r.below(5);
    bool copies = r.chance(1, 2), visits = r.chance(1, 3), many = r.chance(1, 16);
    int next = 1;
    for (int i = 0; i < len; ++i) {
        Op o{0, focus == 1 && !r.chance(1, 10) ? 0 : int(r.below(NS)), next++, 0};
        o.c = int(r.below(keys)) | int(r.below(keys)) << 3 | int(r.below(4)) << 6;
        if (r.chance(1, 2)) o.c &= 63;
        if (r.chance(1, 5)) o.c |= 512;
        u32 x = r.below(24);
        if (x < 9) o.k = INS + int(r.below(2));
        else if (x < 12) o.k = IOA + int(r.below(2));
        else if (x < 16 && r.below(4) < add) o.k = r.chance(1, 2) ? ADDI : ADDT;
        else if (x < 20 && r.below(4) < rm) o.k = r.chance(1, 2) ? RMI : RM;
        else if (x < 21) o.k = r.chance(1, 3) ? CLEAR : r.chance(1, 2) ? DROP : INS;
        else if (x < 23 && copies) o.k = COPYC + int(r.below(4));
        else if (visits) o.k = VISIT;
        else o.k = INS;
        if ((o.k == MOVEC || o.k == MOVEA) && r.chance(1, 4)) o.c |= 1024 | (r.chance(1, 2) ? 2048 : 0);
        if (many && r.chance(1, 5)) o.k = MANY, o.b += 89 - int(r.below(40));
        if (o.k == RMI || o.k == ADDI || o.k == ADDT) o.b = int(r.below(many ? 400 : 40));
        if (huge && i == 0) o = Op{MANY, 0, 89, 4096};
        if (huge && i == 1) o.k = INS;
        if (huge && o.k >= RMI && o.k <= RM && r.chance(1, 2)) o.b = 65530 + int(r.below(60));
        p.th[0].push_back(o);
    }
    c.psw = 0;
    if (r.chance(4, 5)) {
        c.maxf = 1 + r.below(5);
        static const u32 rates[] = {1000, 4000, 12000, 30000};
        u32 rate = rates[r.below(4)];
        if (r.chance(3, 4)) c.pf[F_ALLOC] = rate;
        if (r.chance(1, 2)) c.pf[F_COPY] = rate / 2;
        if (r.chance(1, 2)) c.pf[F_CTOR] = rate;
    }
}
[[maybe_unused]] void gen1(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, 8, 9); }
[[maybe_unused]] void gen2(Rng& r, int t, Program& p, Config& c) { gen(r, t, p, c, 7, 9); }

Scenario sc[] = {
#if SIM_HAS(21)
    {"C21", "mapped_single", 10, gen1, body1, nullptr, kNames, probeNames},
#endif
#if SIM_HAS(22)
    {"C22", "mapped_dual", 10, gen2, body2, nullptr, kNames, probeNames},
#endif
};
const char* const real[] = {"gmlc/containers/MappedVector.hpp", "gmlc/containers/StringMappedVector.hpp",
                            "gmlc/containers/MappedPointerVector.hpp", "gmlc/containers/DualMappedVector.hpp",
                            "gmlc/containers/DualStringMappedVector.hpp", "gmlc/containers/DualMappedPointerVector.hpp",
                            "gmlc/containers/StableBlockVector.hpp", "gmlc/containers/BlockIterator.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace
