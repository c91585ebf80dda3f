// Reference definitions of the measures of presortedness, over dense ranks (equivalent elements
// have equal ranks), straight from the definitions and in quadratic time.
#ifndef PROBES_H_
#define PROBES_H_

#include "gen.h"
#include "types.h"
#include <algorithm>
#include <vector>

namespace pr
{
using pbt::i64;
using R = std::vector<int>;

struct Range { i64 lo, hi; };
inline Range exact(i64 v) { return {v, v}; }

template<typename Less>
R ranks(std::size_t n, Less less)   // less on indices
{
    std::vector<int> idx(n);
    for (std::size_t i = 0; i < n; ++i) idx[i] = (int)i;
    std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return less(a, b); });
    R r(n);
    int k = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (i && less(idx[i - 1], idx[i])) ++k;
        r[idx[i]] = k;
    }
    return r;
}
inline R sorted(R r) { std::sort(r.begin(), r.end()); return r; }
inline bool distinct(const R& r) { R s = sorted(r); return std::adjacent_find(s.begin(), s.end()) == s.end(); }

// elements not followed by the element that follows them in the sorted sequence; which copy of a
// value comes last in the sorted sequence is not specified
inline Range block(const R& r)
{
    const int n = (int)r.size();
    if (n < 2) return exact(0);
    const int top = *std::max_element(r.begin(), r.end());
    Range res = {0, 0};
    for (int v = 0; v <= top; ++v) {
        i64 d = 0, lo = 1 << 30, hi = -1;
        for (int i = 0; i < n; ++i) if (r[i] == v) d += (i + 1 == n ? v != top : r[i + 1] != v);
        for (int i = 0; i < n; ++i) {
            if (r[i] != v) continue;
            i64 other = i + 1 == n ? v != top : r[i + 1] != v;
            i64 as_last = v == top ? 0 : (i + 1 == n || r[i + 1] != v + 1);
            i64 t = d - other + as_last;
            lo = std::min(lo, t); hi = std::max(hi, t);
        }
        res.lo += lo; res.hi += hi;
    }
    return res;
}
inline Range dis(const R& r)
{
    i64 m = 0;
    for (int i = 0; i < (int)r.size(); ++i) for (int j = i + 1; j < (int)r.size(); ++j) if (r[j] < r[i]) m = std::max<i64>(m, j - i);
    return exact(m);
}
inline Range enc(const R& r)
{
    std::vector<std::pair<int, int>> lists;
    for (int x: r) {
        bool done = false;
        for (auto& l: lists) {
            if (x >= l.second) { l.second = x; done = true; break; }
            if (x <= l.first) { l.first = x; done = true; break; }
        }
        if (!done) lists.emplace_back(x, x);
    }
    return exact(lists.empty() ? 0 : (i64)lists.size() - 1);
}
inline Range ham(const R& r)
{
    R s = sorted(r);
    i64 c = 0;
    for (std::size_t i = 0; i < r.size(); ++i) c += r[i] != s[i];
    return exact(c);
}
// best number of exchanges over all ways to pair copies of equal values with positions
inline i64 min_exchanges(const R& r)
{
    R s = sorted(r);
    const int n = (int)r.size();
    // every well placed element may stay: remaining positions are matched by depth-first search
    std::vector<int> pos;
    for (int i = 0; i < n; ++i) if (r[i] != s[i]) pos.push_back(i);
    std::vector<int> src(n, -1);
    std::vector<char> used(n, 0);
    i64 best = n;
    auto rec = [&](auto& self, std::size_t k) -> void {
        if (k == pos.size()) {
            std::vector<char> seen(n, 0);
            i64 cycles = 0;
            for (int i: pos) if (!seen[i]) { ++cycles; for (int j = i; !seen[j]; j = src[j]) seen[j] = 1; }
            best = std::min<i64>(best, (i64)pos.size() - cycles);
            return;
        }
        for (int j: pos) if (!used[j] && r[j] == s[pos[k]]) { used[j] = 1; src[pos[k]] = j; self(self, k + 1); used[j] = 0; }
    };
    rec(rec, 0);
    return best;
}
inline Range inv(const R& r)
{
    i64 c = 0;
    for (std::size_t i = 0; i < r.size(); ++i) for (std::size_t j = i + 1; j < r.size(); ++j) c += r[j] < r[i];
    return exact(c);
}
// with equivalent elements the minimum is hard to compute and only bounds are checked: every well
// placed element is left alone, and every exchange puts at least one element in place
inline Range exc(const R& r)
{
    R s = sorted(r);
    const int n = (int)r.size();
    if (distinct(r)) {
        std::vector<char> seen(n, 0);
        i64 c = 0;
        for (int i = 0; i < n; ++i) if (!seen[i]) { ++c; for (int j = i; !seen[j]; j = r[j]) seen[j] = 1; }
        return exact(n - c);
    }
    i64 h = ham(r).lo;
    if (h == 0) return exact(0);
    return {h <= 7 ? min_exchanges(r) : (h + 1) / 2, std::min(h - 1, inv(r).lo)};
}
inline Range max(const R& r)
{
    R s = sorted(r);
    i64 m = 0;
    for (int i = 0; i < (int)r.size(); ++i) {
        i64 d = 1 << 30;
        for (int j = 0; j < (int)r.size(); ++j) if (s[j] == r[i]) d = std::min<i64>(d, std::abs(i - j));
        m = std::max(m, d);
    }
    return exact(m);
}
inline Range mono(const R& r)
{
    const int n = (int)r.size();
    i64 runs = 0;
    for (int i = 0; i < n; ) {
        bool up = true, down = true;
        int j = i;
        while (j + 1 < n) {
            bool u = up && r[j + 1] >= r[j], d = down && r[j + 1] <= r[j];
            if (!u && !d) break;
            up = u; down = d; ++j;
        }
        ++runs;
        i = j + 1;
    }
    return exact(runs ? runs - 1 : 0);
}
inline Range osc(const R& r)
{
    i64 c = 0;
    for (int x: r) for (std::size_t i = 1; i < r.size(); ++i) c += std::min(r[i - 1], r[i]) < x && x < std::max(r[i - 1], r[i]);
    return exact(c);
}
inline Range rem(const R& r)
{
    const int n = (int)r.size();
    std::vector<int> len(n, 1);
    int best = 0;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < i; ++j) if (r[j] <= r[i]) len[i] = std::max(len[i], len[j] + 1);
        best = std::max(best, len[i]);
    }
    return exact(n - best);
}
inline Range runs(const R& r)
{
    i64 c = 0;
    for (std::size_t i = 1; i < r.size(); ++i) c += r[i] < r[i - 1];
    return exact(c);
}
inline Range sus(const R& r)
{
    const int n = (int)r.size();
    std::vector<int> len(n, 1);
    int best = 1;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < i; ++j) if (r[j] > r[i]) len[i] = std::max(len[i], len[j] + 1);
        best = std::max(best, len[i]);
    }
    return exact(best - 1);
}

// the same definitions in less than quadratic time, for sequences of any length
namespace fast
{
struct Fenwick
{
    std::vector<i64> t;
    explicit Fenwick(std::size_t n): t(n + 1) {}
    void add(std::size_t i) { for (++i; i < t.size(); i += i & -i) ++t[i]; }
    i64 before(std::size_t i) const { i64 s = 0; for (; i; i -= i & -i) s += t[i]; return s; }   // of ranks below i
};
inline int top(const R& r) { return r.empty() ? -1 : *std::max_element(r.begin(), r.end()); }
inline Range block(const R& r)
{
    const int n = (int)r.size();
    if (n < 2) return exact(0);
    const int t = top(r);
    std::vector<i64> d(t + 1), lo(t + 1, 2), hi(t + 1, -2);
    Range res = {0, 0};
    for (int i = 0; i < n; ++i) {
        i64 other = i + 1 == n ? r[i] != t : r[i + 1] != r[i];
        i64 as_last = r[i] == t ? 0 : (i + 1 == n || r[i + 1] != r[i] + 1);
        d[r[i]] += other;
        lo[r[i]] = std::min(lo[r[i]], as_last - other); hi[r[i]] = std::max(hi[r[i]], as_last - other);
    }
    for (int v = 0; v <= t; ++v) { res.lo += d[v] + lo[v]; res.hi += d[v] + hi[v]; }
    return res;
}
inline Range dis(const R& r)    // last smaller element, from the lowest suffix
{
    const int n = (int)r.size();
    R low(r);
    for (int i = n - 2; i >= 0; --i) low[i] = std::min(low[i], low[i + 1]);
    i64 m = 0;
    int hi = -1;
    for (int i = 0, j = 0; i < n; ++i) {
        if (i && r[i] <= hi) continue;      // a greater element comes before
        hi = r[i];
        j = std::max(j, i);
        while (j + 1 < n && low[j + 1] < hi) ++j;
        m = std::max<i64>(m, j - i);
    }
    return exact(m);
}
inline Range enc(const R& r)    // both ends of the lists are monotonic
{
    std::vector<int> heads, tails;
    for (int x: r) {
        auto a = std::partition_point(tails.begin(), tails.end(), [&](int t) { return t > x; }) - tails.begin();
        auto b = std::partition_point(heads.begin(), heads.end(), [&](int h) { return h < x; }) - heads.begin();
        if (a == (std::ptrdiff_t)tails.size() && b == a) { heads.push_back(x); tails.push_back(x); }
        else if (a <= b) tails[a] = x;
        else heads[b] = x;
    }
    return exact(heads.empty() ? 0 : (i64)heads.size() - 1);
}
inline Range inv(const R& r)
{
    Fenwick f(top(r) + 1);
    i64 c = 0, k = 0;
    for (int x: r) { c += k++ - f.before(x + 1); f.add(x); }
    return exact(c);
}
inline Range exc(const R& r)
{
    if (distinct(r)) return pr::exc(r);
    i64 h = ham(r).lo;
    if (h == 0) return exact(0);
    return {(h + 1) / 2, std::min(h - 1, inv(r).lo)};
}
inline Range max(const R& r)
{
    const int n = (int)r.size();
    R s = sorted(r), first(top(r) + 1), last(top(r) + 1);
    for (int i = n - 1; i >= 0; --i) first[s[i]] = i;
    for (int i = 0; i < n; ++i) last[s[i]] = i;
    i64 m = 0;
    for (int i = 0; i < n; ++i) m = std::max<i64>(m, i < first[r[i]] ? first[r[i]] - i : i > last[r[i]] ? i - last[r[i]] : 0);
    return exact(m);
}
inline Range osc(const R& r)
{
    std::vector<i64> diff(top(r) + 2), cnt(top(r) + 2);
    for (int x: r) ++cnt[x];
    for (std::size_t i = 1; i < r.size(); ++i)
        if (r[i - 1] != r[i]) { ++diff[std::min(r[i - 1], r[i]) + 1]; --diff[std::max(r[i - 1], r[i])]; }
    i64 c = 0, open = 0;
    for (std::size_t x = 0; x + 1 < cnt.size(); ++x) { open += diff[x]; c += open * cnt[x]; }
    return exact(c);
}
inline Range rem(const R& r)
{
    R tails;
    for (int x: r) {
        auto it = std::upper_bound(tails.begin(), tails.end(), x);
        if (it == tails.end()) tails.push_back(x); else *it = x;
    }
    return exact((i64)r.size() - (i64)tails.size());
}
inline Range sus(const R& r)
{
    R tails;        // negated: strictly decreasing subsequences
    for (int x: r) {
        auto it = std::lower_bound(tails.begin(), tails.end(), -x);
        if (it == tails.end()) tails.push_back(-x); else *it = -x;
    }
    return exact(tails.empty() ? 0 : (i64)tails.size() - 1);
}
inline Range ham(const R& r) { return pr::ham(r); }
inline Range mono(const R& r) { return pr::mono(r); }
inline Range runs(const R& r) { return pr::runs(r); }
}

#define PROBES(X) X(block) X(dis) X(enc) X(exc) X(ham) X(inv) X(max) X(mono) X(osc) X(rem) X(runs) X(sus)
}
#endif
