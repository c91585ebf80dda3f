// Input generators: sizes around algorithmic thresholds, structured key distributions,
// strict weak orders and projections.
#ifndef GEN_H_
#define GEN_H_

#include "pbt.h"
#include <cstdint>
#include <numeric>
#include <vector>

namespace gen
{
using pbt::Src;
using pbt::u64;
using pbt::i64;

struct Rng      // private generator seeded by one recorded choice
{
    u64 x;
    explicit Rng(u64 seed): x(seed) {}
    u64 next() { return pbt::splitmix(x); }
    u64 below(u64 n) { return n <= 1 ? 0 : static_cast<u64>((static_cast<unsigned __int128>(next()) * n) >> 64); }
};

// n in [lo, hi], weighted towards small sizes and towards the size thresholds used by
// the algorithms
inline std::size_t pick_size(Src& src, std::size_t lo, std::size_t hi)
{
    static const int marks[] = {
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 24, 25, 31, 32, 33, 36, 40, 41, 42, 43, 63, 64, 65, 66,
        72, 80, 96, 100, 127, 128, 129, 130, 160, 192, 200, 255, 256, 257, 258, 288, 320, 384, 400, 511, 512, 513,
        576, 600, 640, 700, 768, 800, 900, 1000, 1023, 1024, 1025, 1026, 1152, 1200, 1280, 1500, 1536, 1600, 1800,
        2000, 2047, 2048, 2049, 2200, 2304, 2500, 2600, 2800, 3000, 3200, 3500, 4000, 4095, 4096, 4097, 4100, 4200,
        4500, 5000, 6000, 7000, 8191, 8192, 8193, 9000, 10000, 12000, 14000, 16000, 16383, 16384, 16385, 18000, 20000
    };
    u64 n = 0;
    if (!src.replaying()) {
        Rng r(src.entropy());
        u64 span = hi - lo + 1;
        u64 k = r.below(100);
        u64 v;
        if (k < 22) v = r.below(22);
        else if (k < 42) v = r.below(72);
        else if (k < 64) v = r.below(300);
        else if (k < 90) {
            std::size_t cnt = sizeof marks / sizeof *marks;
            std::size_t m = 0;
            while (m < cnt && marks[m] <= (int)hi) ++m;
            v = m ? marks[r.below(m)] + r.below(5) - 2 : r.below(span);
            if ((i64)v < 0) v = 0;
        }
        else if (k < 97) v = r.below(std::max<u64>(1, hi / 3));
        else v = r.below(hi + 1);
        if (v < lo) v = lo + r.below(std::min<u64>(span, 8));
        if (v > hi) v = lo + r.below(span);
        n = v - lo;
    }
    return lo + src.choice_with(hi - lo + 1, n);
}

constexpr int n_patterns = 26;

inline void fill_pattern(int pattern, std::size_t n, Rng& r, std::vector<i64>& v, int depth = 0)
{
    v.assign(n, 0);
    auto shuffle = [&](std::size_t a, std::size_t b) {
        for (std::size_t i = b; i > a + 1; --i) std::swap(v[i - 1], v[a + r.below(i - a)]);
    };
    auto base_range = [&]() -> u64 {
        switch (r.below(8)) {
            case 0: return 2;
            case 1: return 3;
            case 2: return 5 + r.below(12);
            case 3: return 1 + (u64)(n / 8);
            case 4: return 1 + n / 2;
            case 5: return n + 1;
            case 6: return 4 * n + 2;
            default: return u64(1) << 30;
        }
    };
    auto uniform = [&](u64 range) { for (auto& x: v) x = (i64)r.below(range) - (i64)(range / 2); };
    if (n == 0) return;
    switch (pattern) {
        default:
        case 1: uniform(base_range()); break;
        case 2: uniform(base_range()); std::sort(v.begin(), v.end()); break;
        case 3: uniform(base_range()); std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); break;
        case 4: {   // almost sorted: a few random swaps
            uniform(base_range()); std::sort(v.begin(), v.end());
            u64 k = 1 + r.below(1 + n / 8);
            while (k--) std::swap(v[r.below(n)], v[r.below(n)]);
            break;
        }
        case 5: {   // sorted then random tail
            uniform(base_range());
            std::sort(v.begin(), v.begin() + (n - r.below(1 + n / 3)));
            break;
        }
        case 6: {   // random head then sorted
            uniform(base_range());
            std::sort(v.begin() + r.below(1 + n / 3), v.end());
            break;
        }
        case 7: {   // ascending and descending runs of random lengths
            uniform(base_range());
            std::size_t at = 0;
            u64 maxrun = 2 + r.below(1 + n / (1 + r.below(8)));
            u64 desc = r.below(3);
            while (at < n) {
                std::size_t len = std::min<std::size_t>(n - at, 1 + r.below(maxrun));
                std::sort(v.begin() + at, v.begin() + at + len);
                if (desc && r.below(desc + 1)) std::reverse(v.begin() + at, v.begin() + at + len);
                at += len;
            }
            break;
        }
        case 8: // pipe organ
            for (std::size_t i = 0; i < n; ++i) v[i] = (i64)std::min(i, n - 1 - i);
            if (r.below(2)) for (auto& x: v) x = -x;
            break;
        case 9: {   // sawtooth
            u64 p = 1 + r.below(1 + n / 2);
            bool down = r.below(2);
            for (std::size_t i = 0; i < n; ++i) v[i] = down ? (i64)(p - i % p) : (i64)(i % p);
            break;
        }
        case 10: {  // one value with a few outliers
            u64 k = r.below(1 + n / 10 + 2);
            while (k--) v[r.below(n)] = (i64)r.below(5) - 2;
            break;
        }
        case 11: std::iota(v.begin(), v.end(), 0); shuffle(0, n); break;
        case 12: {  // push front / push middle / push back of one element
            std::iota(v.begin(), v.end(), 1);
            std::size_t p = r.below(3) == 0 ? 0 : r.below(n);
            std::rotate(v.begin() + p, v.end() - 1, v.end());
            if (r.below(2)) { std::reverse(v.begin(), v.end()); }
            break;
        }
        case 13: {  // median of 3 killer
            std::size_t k = n / 2;
            for (std::size_t i = 0; i < n; ++i) v[i] = (i64)i + 1;
            for (std::size_t i = 1; i <= k; ++i) {
                if (i % 2) { v[i - 1] = (i64)i; if (k + i - 1 < n) v[k + i - 1] = (i64)(2 * i); }
                else { v[i - 1] = (i64)(k + i - 1); if (k + i - 1 < n) v[k + i - 1] = (i64)(2 * i); }
            }
            break;
        }
        case 14: {  // interleaved sorted sequences
            u64 k = 2 + r.below(6);
            for (std::size_t i = 0; i < n; ++i) v[i] = (i64)((i % k) * n + i / k);
            if (r.below(2)) for (std::size_t i = 0; i < n; i += k) v[i] = -v[i];
            break;
        }
        case 15: {  // local disorder
            std::iota(v.begin(), v.end(), 0);
            std::size_t w = 2 + r.below(9);
            for (std::size_t i = 0; i < n; i += w) shuffle(i, std::min(n, i + w));
            break;
        }
        case 16: {  // rotated or block-swapped sorted
            uniform(base_range()); std::sort(v.begin(), v.end());
            std::rotate(v.begin(), v.begin() + r.below(n), v.end());
            if (r.below(2)) {
                std::size_t a = r.below(n), b = r.below(n);
                if (a > b) std::swap(a, b);
                std::reverse(v.begin() + a, v.begin() + b);
            }
            break;
        }
        case 17: {  // descending plateaus
            u64 w = 2 + r.below(6);
            for (std::size_t i = 0; i < n; ++i) v[i] = -(i64)(i / w);
            if (r.below(2)) for (std::size_t i = 0; i < n; ++i) if (r.below(20) == 0) v[i] = -(i64)r.below(n);
            break;
        }
        case 18: {  // few distinct keys followed/preceded by many distinct keys
            u64 few = 1 + r.below(40);
            std::size_t cut = r.below(n + 1);
            for (std::size_t i = 0; i < n; ++i) v[i] = i < cut ? (i64)r.below(few) : (i64)r.below(1u << 20);
            if (r.below(2)) shuffle(0, n);
            break;
        }
        case 19: {  // exactly k distinct values, k around sqrt(n) and friends
            u64 sq = 1; while (sq * sq < n) ++sq;
            u64 k = std::max<u64>(1, sq / 2 + r.below(2 * sq + 1));
            for (std::size_t i = 0; i < n; ++i) v[i] = (i64)(i < k ? i : r.below(k));
            if (r.below(3)) shuffle(0, n);
            break;
        }
        case 20: {  // alternating low/high zigzag
            for (std::size_t i = 0; i < n; ++i) v[i] = i % 2 ? (i64)(n + i) : (i64)i * (r.below(2) ? 1 : -1);
            break;
        }
        case 21: {  // sorted except every k-th element is random (drop-merge friendly)
            u64 k = 2 + r.below(20);
            for (std::size_t i = 0; i < n; ++i) v[i] = i % k == 0 ? (i64)r.below(n) : (i64)i;
            break;
        }
        case 22: {  // long runs separated by random parts
            uniform(base_range());
            std::size_t at = 0;
            while (at < n) {
                std::size_t len = std::min<std::size_t>(n - at, 1 + r.below(1 + n / 3));
                switch (r.below(4)) {
                    case 0: break;
                    case 1: std::sort(v.begin() + at, v.begin() + at + len); break;
                    case 2: std::sort(v.begin() + at, v.begin() + at + len);
                            std::reverse(v.begin() + at, v.begin() + at + len); break;
                    case 3: std::fill(v.begin() + at, v.begin() + at + len, v[at]); break;
                }
                at += len;
            }
            break;
        }
        case 23: {  // two sorted halves with overlapping / disjoint ranges (merges, galloping)
            std::size_t cut = r.below(n + 1);
            i64 off = (i64)r.below(2 * n + 1) - (i64)n;
            u64 step = 1 + r.below(4);
            for (std::size_t i = 0; i < n; ++i)
                v[i] = i < cut ? (i64)(i * step) : (i64)(i - cut) + off;
            if (r.below(2)) {   // clustered duplicates
                u64 d = 1 + r.below(30);
                for (auto& x: v) x /= (i64)d;
            }
            break;
        }
        case 24: {  // powers-of-two structured runs (bottom-up merges)
            uniform(base_range());
            std::size_t w = std::size_t(1) << r.below(9);
            for (std::size_t i = 0; i < n; i += w) std::sort(v.begin() + i, v.begin() + std::min(n, i + w));
            if (r.below(3) == 0 && n > 2) v[r.below(n)] = (i64)r.below(n);
            break;
        }
        case 25: {  // concatenation of two other patterns
            if (depth > 1) { uniform(base_range()); break; }
            std::size_t cut = r.below(n + 1);
            std::vector<i64> a, b;
            fill_pattern(1 + (int)r.below(n_patterns - 1), cut, r, a, depth + 1);
            fill_pattern(1 + (int)r.below(n_patterns - 1), n - cut, r, b, depth + 1);
            std::copy(a.begin(), a.end(), v.begin());
            std::copy(b.begin(), b.end(), v.begin() + cut);
            break;
        }
    }
}

// Pattern 0 is "literal": one choice per element (what shrinking converts to)
inline std::vector<i64> keys_n(Src& src, std::size_t lo, std::size_t hi)
{
    std::size_t first = src.mark();
    int pattern = (int)src.choice_with(n_patterns, src.replaying() ? 0 : 1 + Rng(src.entropy()).below(n_patterns - 1));
    std::size_t len_idx = src.mark();
    std::size_t n;
    if (pattern == 0) n = src.choice_with(hi + 1, 0);   // literal form stores n itself
    else n = pick_size(src, lo, hi);
    std::vector<i64> v(n);
    std::size_t elems = src.mark();
    if (pattern == 0) {
        for (auto& x: v) {
            i64 t = pbt::unzigzag(src.bits());
            if (t > (i64(1) << 40) || t < -(i64(1) << 40)) t = 0;
            x = t;
        }
        if (n < lo) v.resize(lo, 0);
        if (v.size() == n) src.add_list(first, len_idx, elems, n, v.data());
    } else {
        Rng r(src.bits());
        fill_pattern(pattern, n, r, v);
        // registered as a list for the shrinker to turn it into a literal one
        src.add_list(first, len_idx, elems, n, v.data());
    }
    return v;
}
// Sequences too long for recorded elements: only their parameters are drawn. Values below 2^31.
inline std::vector<int> bulk(Src& src, std::size_t lo, std::size_t hi)
{
    std::size_t n;
    switch (src.below(4)) {
        case 0: {       // around a power of two
            std::size_t p = 1;
            while (p < lo) p *= 2;
            for (int k = (int)src.below(12); k > 0 && p * 2 <= hi; --k) p *= 2;
            n = p - 8 + src.below(17);
            break;
        }
        case 1: n = hi - src.below((hi - lo) / 8 + 1); break;
        default: n = lo + src.below(hi - lo + 1); break;
    }
    if (n > hi) n = hi;
    u64 state = src.below(1 << 20) * 0x9E3779B97F4A7C15ull + 12345;
    auto rnd = [&](u64 m) {
        state ^= state >> 12; state ^= state << 25; state ^= state >> 27;
        return (state * 0x2545F4914F6CDD1Dull >> 11) % (m ? m : 1);
    };
    rnd(1);
    static const u64 kinds[] = {2000000000, 1 << 16, 1000, 256, 16, 3};
    u64 d = kinds[src.below(6)];
    int shape = (int)src.below(12);
    std::size_t m = 1 + src.below(shape == 3 ? 2000 : 64);
    std::vector<int> v(n);
    auto ramp = [&](std::size_t i, std::size_t len) { return (int)(d <= len ? i * d / (len ? len : 1) : i * (d / (len ? len : 1))); };
    switch (shape) {
        default: for (auto& x: v) x = (int)rnd(d); break;
        case 1: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i, n); break;                                // sorted
        case 2: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(n - 1 - i, n); break;                        // reversed
        case 3: for (auto& x: v) x = (int)rnd(d);                                                           // m runs, up or down
                for (std::size_t i = 0; i < n;) {
                    std::size_t len = 1 + rnd(2 * n / m + 1);
                    auto b = v.begin() + i, e = v.begin() + (i + len < n ? i + len : n);
                    std::sort(b, e);
                    if (rnd(3) == 0) std::reverse(b, e);
                    i += len;
                }
                break;
        case 4: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i, n);                                       // m displaced elements
                for (std::size_t k = 0; k < m; ++k) v[rnd(n)] = (int)rnd(d);
                break;
        case 5: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i < n / 2 ? i : n - i, n); break;            // organ pipe
        case 6: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i % (n / m + 1), n / m + 1); break;          // sawtooth
        case 7: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i, n);                                       // rotated
                std::rotate(v.begin(), v.begin() + rnd(n), v.end());
                break;
        case 8: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i, n);                                       // disordered end
                for (std::size_t i = n - n / (m + 1); i < n; ++i) v[i] = (int)rnd(d);
                break;
        case 9: for (std::size_t i = 0; i < n; ++i) v[i] = ramp(i, n) + (int)rnd(m);  break;                 // nearly sorted
        case 10: for (std::size_t i = 0; i < n; ++i) v[i] = i % 2 ? ramp(i, n) : ramp(n - i, n); break;      // interleaved
    }
    src.note("bulk n=%zu distinct=%d shape=%d m=%zu ", n, (int)d, shape, m);
    src.classify("bulk");
    return v;
}
inline std::vector<i64> keys(Src& src, std::size_t hi) { return keys_n(src, 0, hi); }

inline bool is_sorted_keys(const std::vector<i64>& v) { return std::is_sorted(v.begin(), v.end()); }

////////////////////////////////////////////////////////////
// Runtime-selected strict weak orders and projections over int

constexpr int n_orders = 8;
inline bool order_less(int mode, int param, int a, int b)
{
    auto fdiv = [](int x, int d) { return x >= 0 ? x / d : -((-x + d - 1) / d); };
    switch (mode) {
        default:
        case 0: return a < b;
        case 1: return b < a;
        case 2: return fdiv(a, 1 + param) < fdiv(b, 1 + param);
        case 3: return fdiv(b, 1 + param) < fdiv(a, 1 + param);
        case 4: { auto m = [&](int x) { int k = 2 + param; int r = x % k; return r < 0 ? r + k : r; }; return m(a) < m(b); }
        case 5: { auto ab = [](int x) { return x < 0 ? -(long long)x : (long long)x; }; return ab(a) < ab(b); }
        case 6: return false;
        case 7: {   // odd values first, then decreasing even values
            int oa = a & 1, ob = b & 1;
            if (oa != ob) return oa > ob;
            return oa ? a < b : b < a;
        }
    }
}

struct Order
{
    int mode = 0, param = 0;
    bool operator()(int a, int b) const { return order_less(mode, param, a, b); }
};
inline Order order(Src& src)
{
    static const int weights[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7};
    Order o;
    o.mode = (int)src.choice_with(n_orders, src.replaying() ? 0 : weights[Rng(src.entropy()).below(11)]);
    if (o.mode >= 2 && o.mode <= 4) o.param = (int)src.below(40);
    return o;
}

constexpr int n_projs = 5;
inline int proj_apply(int mode, int k)
{
    switch (mode) {
        default:
        case 0: return k;
        case 1: return -k;
        case 2: return k >> 2;
        case 3: return k ^ 0x2a;
        case 4: return (k & 1) ? k : -k;
    }
}
}

#endif
