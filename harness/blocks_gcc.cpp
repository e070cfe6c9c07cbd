// C17, C18: elements that can also be made from a list of their own kind.
// Compiled with g++: storing "X{value}" keeps a list that holds the value there, clang 18 keeps the value.
#include <gmlc/containers/StableBlockDeque.hpp>
#include <gmlc/containers/StableBlockVector.hpp>

#include <cstdint>
#include <deque>
#include <initializer_list>
#include <utility>
#include <vector>

namespace {
struct ListElem {
    int v{0};
    ListElem() = default;
    explicit ListElem(int n): v(n) {}
    ListElem(std::initializer_list<ListElem> l): v(-1000 - int(l.size())) {}
};
template<class C>
struct Front {
    static constexpr bool has = false;
};
template<unsigned N>
struct Front<gmlc::containers::StableBlockDeque<ListElem, N>> {
    static constexpr bool has = true;
};

// a short seeded history; the name of the first operation that stored something else, or null
template<class C>
const char* history(std::uint64_t seed)
{
    C c;
    std::deque<int> m;
    std::uint64_t s = seed | 1;
    auto rnd = [&s](unsigned n) {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return unsigned((s >> 20) % n);
    };
    const char* did = "";
    int len = 4 + int(rnd(12));
    for (int i = 0; i < len; ++i) {
        ListElem e(i + 1);
        switch (rnd(Front<C>::has ? 8 : 6)) {
            case 0: did = "push_back(copy)"; c.push_back(static_cast<const ListElem&>(e)); m.push_back(i + 1); break;
            case 1: did = "push_back(move)"; c.push_back(std::move(e)); m.push_back(i + 1); break;
            case 2: did = "emplace_back"; c.emplace_back(i + 1); m.push_back(i + 1); break;
            case 3: {
                did = "copy construct";
                C d(static_cast<const C&>(c));
                c = std::move(d);
                break;
            }
            case 4: {
                did = "construct(size)";
                unsigned n = rnd(5);
                C d(n, e);
                did = "copy assign";
                c = static_cast<const C&>(d);
                m.assign(n, i + 1);
                break;
            }
            case 5: {
                did = "assign(range)";
                std::vector<ListElem> src(rnd(5));
                for (auto& x : src) x.v = i + 1;
                m.assign(src.size(), i + 1);
                if (i & 1) c.assign(src.begin(), src.end());
                else c.move_assign(src.begin(), src.end());
                break;
            }
            default:
                if constexpr (Front<C>::has) {
                    if (i & 1) {
                        did = "push_front(copy)";
                        c.push_front(static_cast<const ListElem&>(e));
                    } else {
                        did = "push_front(move)";
                        c.push_front(std::move(e));
                    }
                }
                m.push_front(i + 1);
        }
        if (c.size() != m.size()) return did;
        for (std::size_t j = 0; j < m.size(); ++j)
            if (c[j].v != m[j]) return did;
    }
    return nullptr;
}
}  // namespace

const char* listElements(bool deque, std::uint64_t seed)
{
    using namespace gmlc::containers;
    if (deque) return (seed & 2) ? history<StableBlockDeque<ListElem, 1>>(seed) : history<StableBlockDeque<ListElem, 2>>(seed);
    return (seed & 2) ? history<StableBlockVector<ListElem, 1>>(seed) : history<StableBlockVector<ListElem, 2>>(seed);
}
