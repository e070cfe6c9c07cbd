// Recorded histories and a Wing-Gong style linearizability checker with
// memoisation, against small executable reference models.
#include "internal.h"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>
#include <unordered_map>
#include <unordered_set>

namespace sim {
namespace {
struct H {
    LOp op;
    i64 a, b, ret;
    u64 inv, res;
    bool done, cancelled;
    int fid;
    std::vector<i64> ext;
};
std::vector<H> hist;
const char* const lnames[] = {"push", "pushVector", "pushPriority", "pop", "peek", "peek?", "size",
                              "empty", "clear", "size~", "assign-in", "take-all", "load",
                              "try_load=false", "unload", "isLoaded", "push(threw)"};
}  // namespace

void histReset() { hist.clear(); }
size_t histSize() { return hist.size(); }
int histBegin(LOp op, i64 a, i64 b)
{
    u64 s = seq();
    Quiet q;
    hist.push_back({op, a, b, 0, s, ~0ULL, false, false, self(), {}});
    note(lnames[op], a, b);
    return static_cast<int>(hist.size()) - 1;
}
void histEnd(int h, i64 ret)
{
    u64 s = seq();
    Quiet q;
    hist[h].ret = ret;
    hist[h].res = s;
    hist[h].done = true;
    note("returns", ret);
}
void histCancel(int h)
{
    Quiet q;
    hist[h].cancelled = true;
    note("threw", h);
}
void histRetype(int h, LOp op, i64 a)
{
    Quiet q;
    hist[h].op = op;
    hist[h].a = a;
}
void histExt(int h, const i64* v, size_t n)
{
    Quiet q;
    hist[h].ext.assign(v, v + n);
}

namespace {
struct State {
    std::deque<i64> q, p;
};
struct Checker {
    LModel m;
    std::vector<const H*> ops;  // ordered by invocation
    std::unordered_set<u64> seen;
    u64 explored{0};
    size_t need{0};
    bool giveUp{false};

    // which operations have been ordered: all before lo, and some after it
    struct Done {
        size_t lo{0};
        std::vector<size_t> past;  // sorted
        bool has(size_t i) const
        {
            return i < lo || std::binary_search(past.begin(), past.end(), i);
        }
        void add(size_t i)
        {
            past.insert(std::lower_bound(past.begin(), past.end(), i), i);
            size_t n = 0;
            while (n < past.size() && past[n] == lo) ++lo, ++n;
            past.erase(past.begin(), past.begin() + long(n));
        }
    };
    static u64 hashOf(const Done& d, const State& s)
    {
        u64 h = d.lo * 0x9E3779B97F4A7C15ULL + 7;
        auto mixv = [&](u64 v) {
            h = (h ^ v) * 0xff51afd7ed558ccdULL;
            h ^= h >> 32;
        };
        for (size_t v : d.past) mixv(v + 11);
        mixv(0xDCBA);
        for (i64 v : s.q) mixv(u64(v) + 3);
        mixv(0xABCDEF);
        for (i64 v : s.p) mixv(u64(v) + 5);
        return h;
    }
    // elements come out in the order they went in: v cannot go in behind one
    // that was taken only after v had been (both were taken, so not cleared)
    std::unordered_map<i64, const H*> taken;
    bool in(std::deque<i64>& q, i64 v) const
    {
        if (m != M_SLOT && !q.empty()) {
            auto a = taken.find(q.back()), b = taken.find(v);
            if (a != taken.end() && b != taken.end() && b->second->res < a->second->inv) return false;
        }
        q.push_back(v);
        return true;
    }
    bool apply(const H& o, State& s) const
    {
        switch (o.op) {
            case L_PUSH: return in(s.q, o.a);
            case L_PUSHP: return in(m == M_PRIO ? s.p : s.q, o.a);
            case L_PUSHV:
                for (i64 i = 0; i < o.b; ++i)
                    if (!in(s.q, o.a + i)) return false;
                return true;
            case L_POP:
                if (o.ret < 0) return s.q.empty() && s.p.empty();
                if (!s.p.empty()) {
                    if (s.p.front() != o.ret) return false;
                    s.p.pop_front();
                    return true;
                }
                if (s.q.empty() || s.q.front() != o.ret) return false;
                s.q.pop_front();
                return true;
            case L_PEEKW:
            case L_PEEK:
                if (o.ret < 0) return o.op == L_PEEKW || (s.q.empty() && s.p.empty());
                if (!s.p.empty()) return s.p.front() == o.ret;
                return !s.q.empty() && s.q.front() == o.ret;
            case L_SIZE: return i64(s.q.size() + s.p.size()) == o.ret;
            case L_SIZEWEAK: return i64(s.q.size()) == o.ret;
            case L_EMPTY: return (s.q.empty() && s.p.empty()) == (o.ret != 0);
            case L_CLEAR:
                s.q.clear();
                s.p.clear();
                return true;
            case L_SWAPIN:
                s.q.assign(o.ext.begin(), o.ext.end());
                s.p.clear();
                return true;
            case L_TAKE: {
                std::vector<i64> all(s.p.begin(), s.p.end());
                all.insert(all.end(), s.q.begin(), s.q.end());
                if (all != o.ext) return false;
                s.q.clear();
                s.p.clear();
                return true;
            }
            case L_LOAD:
                if (!s.q.empty()) return false;
                s.q.push_back(o.a);
                return true;
            case L_TRYLOADFAIL: return !s.q.empty();
            case L_UNLOAD:
                if (o.ret < 0) return s.q.empty();
                if (s.q.empty() || s.q.front() != o.ret) return false;
                s.q.clear();
                return true;
            case L_LOADED: return (!s.q.empty()) == (o.ret != 0);
            case L_MAYBE_PUSH: s.q.push_back(o.a); return true;
        }
        return false;
    }
    // may op i take effect next?  (it began before any unordered one ended)
    static bool maybe(const H& o)
    {
        return o.done || o.op == L_PUSH || o.op == L_PUSHP || o.op == L_PUSHV || o.op == L_CLEAR || o.op == L_LOAD;
    }
    bool dfs(Done d, size_t doneReq, State s)
    {
        std::vector<size_t> next;
        while (true) {
            if (doneReq == need) return true;
            if (++explored > 1000000) {
                giveUp = true;
                return true;
            }
            u64 minRes = ~0ULL;
            next.clear();
            for (size_t i = d.lo; i < ops.size() && ops[i]->inv < minRes; ++i) {
                if (d.has(i)) continue;
                next.push_back(i);
                if (ops[i]->res < minRes) minRes = ops[i]->res;
            }
            if (next.size() != 1) break;
            // nothing overlaps: no choice
            if (!apply(*ops[next[0]], s)) return false;
            doneReq += ops[next[0]]->done;
            d.add(next[0]);
        }
        if (!seen.insert(hashOf(d, s)).second) return false;
        for (size_t i : next) {
            State t = s;
            if (!apply(*ops[i], t)) continue;
            Done e = d;
            e.add(i);
            if (dfs(std::move(e), doneReq + ops[i]->done, std::move(t))) return true;
        }
        return false;
    }
};
}  // namespace

std::string histDump()
{
    std::vector<const H*> v;
    for (auto& h : hist)
        if (!h.cancelled) v.push_back(&h);
    std::sort(v.begin(), v.end(), [](const H* a, const H* b) { return a->inv < b->inv; });
    std::string out;
    char b[160];
    size_t skip = v.size() > 150 ? v.size() - 100 : 0;
    for (auto*& h : v) {
        if (skip && &h - v.data() >= 50 && &h - v.data() < long(skip)) {
            if (&h - v.data() == 50) {
                snprintf(b, sizeof b, "... %zu more ... ", skip - 50);
                out += b;
            }
            continue;
        }
        if (h->done)
            snprintf(b, sizeof b, "[t%d %llu-%llu %s", h->fid, (unsigned long long)h->inv,
                     (unsigned long long)h->res, lnames[h->op]);
        else
            snprintf(b, sizeof b, "[t%d %llu-... %s", h->fid, (unsigned long long)h->inv,
                     lnames[h->op]);
        out += b;
        switch (h->op) {
            case L_PUSH: case L_PUSHP: case L_LOAD: case L_MAYBE_PUSH:
                snprintf(b, sizeof b, "(%lld)]", (long long)h->a);
                break;
            case L_PUSHV:
                snprintf(b, sizeof b, "(%lld..%lld)]", (long long)h->a, (long long)(h->a + h->b - 1));
                break;
            case L_CLEAR: case L_TRYLOADFAIL:
                snprintf(b, sizeof b, "]");
                break;
            case L_TAKE: case L_SWAPIN: {
                out += "{";
                for (i64 x : h->ext) {
                    snprintf(b, sizeof b, "%lld ", (long long)x);
                    out += b;
                }
                snprintf(b, sizeof b, "}]");
                break;
            }
            default:
                if (h->done)
                    snprintf(b, sizeof b, "->%lld]", (long long)h->ret);
                else
                    snprintf(b, sizeof b, "]");
        }
        out += b;
        out += " ";
    }
    return out;
}

std::string linCheck(LModel m, const std::vector<i64>& initial)
{
    Checker c;
    c.m = m;
    for (auto& h : hist)
        if (!h.cancelled && Checker::maybe(h)) c.ops.push_back(&h);
    std::sort(c.ops.begin(), c.ops.end(), [](const H* a, const H* b) { return a->inv < b->inv; });
    for (auto* o : c.ops) {
        c.need += o->done;
        if (o->op == L_POP && o->done && o->ret >= 0) c.taken.emplace(o->ret, o);
    }
    addEvals(c.ops.size());
    State s;
    s.q.assign(initial.begin(), initial.end());
    if (c.dfs({}, 0, std::move(s))) {
        if (c.giveUp) addGiveUp();
        return "";
    }
    return "no sequential order of the operations explains the results: " + histDump();
}
}  // namespace sim
