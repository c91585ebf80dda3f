// Operation counting: comparisons, projections, moves, auxiliary memory and stack depth of one call.
#ifndef OPS_H_
#define OPS_H_

#include "alloc.h"
#include "sortcheck.h"
#include <cmath>

namespace ops
{
using pbt::Src; using pbt::u64; using pbt::i64;

inline u64 cmps, projs, moves, limit = ~u64(0);
inline bool calibrating() { static bool b = std::getenv("VERIF_CAL") != nullptr; return b; }
inline const char* stack_base = nullptr;
inline std::ptrdiff_t stack_used = 0;

inline void tick()
{
    if (cmps + projs + moves > limit && !calibrating()) pbt::fail("more than %llu operations", (unsigned long long)limit);
}
inline void probe_stack()
{
    char c;
    auto d = stack_base - (const char*)&c;
    if (d < 0) d = -d;
    if (d > stack_used) stack_used = d;
    asm volatile("" : : "r"(&c) : "memory");
}

struct M    // move-only, counts its moves
{
    int key = 0, id = -1;
    M() = default;
    M(int k, int i): key(k), id(i) {}
    M(M&& o) noexcept: key(o.key), id(o.id) { ++moves; tick(); }
    M& operator=(M&& o) noexcept { key = o.key; id = o.id; ++moves; tick(); return *this; }
};
static_assert(sizeof(M) == 8, "");

// Lazily decided order (McIlroy, "A killer adversary for quicksort"): consistent with some
// permutation, chosen against the algorithm
struct Adversary
{
    std::vector<int> val;
    int gas, nsolid = 0, candidate = 0;
    void reset(std::size_t n) { gas = (int)n + 1; val.assign(n, gas); nsolid = 0; candidate = 0; }
    bool less(int x, int y)
    {
        if (x == y) return false;
        if (val[x] == gas && val[y] == gas) {
            if (x == candidate) val[x] = nsolid++; else val[y] = nsolid++;
        }
        if (val[x] == gas) candidate = x; else if (val[y] == gas) candidate = y;
        return val[x] < val[y];
    }
};
inline Adversary adv;

struct Cmp
{
    int mode = 0;   // 0: less, 1: greater, 2: adversary (on ids)
    bool operator()(int a, int b) const
    {
        ++cmps; tick(); probe_stack();
        return mode == 0 ? a < b : mode == 1 ? b < a : adv.less(a, b);
    }
};
struct Proj
{
    bool id = false;
    int operator()(const M& m) const { ++projs; return id ? m.id : m.key; }
};

struct Result
{
    double cmps, projs, moves;
    i64 bytes; u64 allocs; std::ptrdiff_t stack;
};

template<typename S, typename C>
Result measure(const std::vector<int>& keys, int mode, const char* name, u64 lim, bool no_memory = false)
{
    C v;
    sc::fill<M>(v, keys);
    if (mode == 2) adv.reset(keys.size());
    S s{};
    char here;
    stack_base = &here; stack_used = 0;
    limit = ~u64(0);
    cmps = projs = moves = 0;
    limit = lim;
    i64 before = al::live_bytes;
    al::start_peak();
    if (no_memory) al::arm(al::above_size, 200, 1);
    s(v, Cmp{mode}, Proj{mode == 2});
    al::disarm();
    Result r{(double)cmps, (double)projs, (double)moves, al::peak_bytes - before, al::total_allocs, stack_used};
    limit = ~u64(0);
    // the result is sorted
    const M* prev = nullptr;
    for (auto& x: v) {
        if (prev) {
            bool bad = mode == 0 ? x.key < prev->key : mode == 1 ? prev->key < x.key : adv.val[x.id] < adv.val[prev->id];
            PBT_CHECK(!bad, "%s: not sorted", name);
        }
        prev = &x;
    }
    return r;
}

// calibration: appends new maxima of a quantity to $VERIF_CAL
inline void calibrate(const char* test, const char* what, double value, std::size_t n)
{
    if (!calibrating()) return;
    struct E { char t[96]; double v; };
    static std::vector<E> best;
    std::string k = std::string(test) + "|" + what;
    for (auto& e: best) if (k == e.t) { if (value <= e.v) return; e.v = value; goto out; }
    best.push_back({}); std::snprintf(best.back().t, 96, "%s", k.c_str()); best.back().v = value;
out:
    if (FILE* f = std::fopen(std::getenv("VERIF_CAL"), "a")) { std::fprintf(f, "%s|%.4f|%zu\n", k.c_str(), value, n); std::fclose(f); }
}
inline double lg(double x) { return x < 2 ? 1 : std::log2(x); }
}

#ifdef BRANCHLESS
#include <cpp-sort/utility/branchless_traits.h>
namespace cppsort { namespace utility
{
    template<typename T> struct is_probably_branchless_comparison<ops::Cmp, T>: std::true_type {};
    template<typename T> struct is_probably_branchless_projection<ops::Proj, T>: std::true_type {};
}}
#endif

#endif
