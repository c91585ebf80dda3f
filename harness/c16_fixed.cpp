// C16: fixed-size sorters sort every input of their size, within the documented number of comparisons or moves,
// networks with a number of comparisons that does not depend on the input; advertised stability holds.
#include "sortcheck.h"
#include "netcheck.h"
#include <cmath>
#include <cstring>
#if __cplusplus >= 202002L
#include <functional>
#endif

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

static const int network_size[65] = {0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60, 71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155,
    164, 172, 180, 185, 199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346, 365, 376, 387, 395, 411, 421, 432, 438,
    454, 465, 476, 483, 497, 506, 515, 521};
// sums over all permutations, from the documentation
static const u64 comparison_weight[14] = {0, 0, 2, 16, 112, 832, 6912, 62784, 623232, 6759936, 79937280, 1020833280, 15167554560ull, 223436206080ull};
// (2 elements: 3, one swap, where the documentation says 2)
static const u64 move_weight[14] = {0, 0, 3, 17, 122, 898, 7188, 63276, 612048, 6476112, 74558880, 929011680, 12465394560ull, 179294186880ull};

// number of comparators of Batcher's networks, from their recursive definitions
static int batcher_merge(int a, int b)
{
    if (a == 0 || b == 0) return 0;
    if (a == 1 && b == 1) return 1;
    int odd = batcher_merge((a + 1) / 2, (b + 1) / 2), even = batcher_merge(a / 2, b / 2);
    return odd + even + (a + b - 1) / 2;
}
static int odd_even_size(int n) { return n < 2 ? 0 : odd_even_size(n / 2) + odd_even_size(n - n / 2) + batcher_merge(n / 2, n - n / 2); }
static int merge_exchange_size(int n)   // Knuth 5.2.2M: interleaved halves
{
    return n < 2 ? 0 : merge_exchange_size((n + 1) / 2) + merge_exchange_size(n / 2) + batcher_merge((n + 1) / 2, n / 2);
}

enum Kind { LOW_COMPARISONS, LOW_MOVES, NETWORK, MERGE_EXCHANGE, ODD_EVEN };
static int exact_comparisons(Kind k, int n)
{
    switch (k) {
        case NETWORK: return network_size[n];
        case MERGE_EXCHANGE: return merge_exchange_size(n);
        case ODD_EVEN: return odd_even_size(n);
        default: return -1;
    }
}
static int max_comparisons(Kind k, int n)
{
    // low_comparisons: insertions into sorted sequences or better; low_moves: minmax of every remaining subsequence
    static const int low[14] = {0, 0, 1, 3, 5, 7, 10, 13, 16, 19, 23, 29, 40, 47};
    if (k == LOW_COMPARISONS) return low[n];
    if (k == LOW_MOVES) { int s = 0; for (int m = n; m > 1; m -= 2) s += m < 5 ? (m == 4 ? 6 : m == 3 ? 3 : 1) : 3 * m / 2; return s; }
    return exact_comparisons(k, n);
}
static int max_moves(Kind k, int n)
{
    return k == LOW_MOVES ? (n < 2 ? 0 : n == 2 ? 3 : 3 * (n - 1)) : 1 << 30;
}

static u64 n_cmp, n_move;
struct Obj  // key, identity, counted moves
{
    int key = -1, id = -1;
    Obj() = default;
    Obj(int k, int i): key(k), id(i) {}
    Obj(Obj&& o) noexcept: key(o.key), id(o.id) { ++n_move; o.id = -2; o.key = -777; }
    Obj& operator=(Obj&& o) noexcept { int k = o.key, i = o.id; o.id = -2; o.key = -777; key = k; id = i; ++n_move; return *this; }
    int get() const { return key; }
};
struct ObjCmp { gen::Order order; bool operator()(int a, int b) const { ++n_cmp; return order(a, b); } };
struct ObjProj { int mode; int operator()(const Obj& o) const { if (o.id < 0) pbt::fail("moved-from element read"); return gen::proj_apply(mode, o.key); } };

template<typename S, std::size_t N, Kind K>
struct T
{
    static constexpr bool stable = cs::is_always_stable<S>::value || (K == NETWORK && N < 4);

    static void costs(const char* what)
    {
        int e = exact_comparisons(K, (int)N);
        if (e >= 0) PBT_CHECK(n_cmp == (u64)e, "%s: %llu comparisons instead of %d", what, (unsigned long long)n_cmp, e);
        PBT_CHECK(n_cmp <= (u64)max_comparisons(K, (int)N), "%s: %llu comparisons, at most %d expected", what, (unsigned long long)n_cmp, max_comparisons(K, (int)N));
        PBT_CHECK(n_move <= (u64)max_moves(K, (int)N), "%s: %llu moves, at most %d expected", what, (unsigned long long)n_move, max_moves(K, (int)N));
    }

    // generated order, projection, keys
    static void general(Src& src, const char* name)
    {
        int form = (int)src.below(4);
        sc::Case c;
        c.order = gen::order(src);
        c.mode = (int)src.below(gen::n_projs);
        for (auto k: gen::keys_n(src, (i64)N, (i64)N)) c.keys.push_back((int)k);
        c.keys.resize(N);
        if (src.below(2)) sc::coarsen(src, c);
        src.note("%s form %d order %d/%d proj %d ", name, form, c.order.mode, c.order.param, c.mode);
        src.note_seq("keys", c.keys);
        src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
        n_cmp = n_move = 0;
        S s{};
        if (form == 0) {
            std::vector<Obj> v; sc::fill<Obj>(v, c.keys);
            n_move = 0;
            s(v.begin(), v.end(), ObjCmp{c.order}, ObjProj{c.mode});
            costs(name);
            sc::verify(v.begin(), v.end(), c, name, stable);
        } else if (form == 1) {
            std::deque<Obj> v; sc::fill<Obj>(v, c.keys);
            n_move = 0;
            s(v, ObjCmp{c.order}, ObjProj{c.mode});
            costs(name);
            sc::verify(v.begin(), v.end(), c, name, stable);
        } else if (form == 2) {
            // in the middle of a longer range: neighbours stay as they are
            std::array<Obj, N + 4> v;
            for (std::size_t i = 0; i < N + 4; ++i) v[i] = Obj(1000 + (int)i, 100000 + (int)i);
            for (std::size_t i = 0; i < N; ++i) v[i + 2] = Obj(c.keys[i], (int)i);
            n_move = 0;
            s(v.begin() + 2, v.begin() + 2 + N, ObjCmp{c.order}, ObjProj{c.mode});
            costs(name);
            for (std::size_t i: {std::size_t(0), std::size_t(1), N + 2, N + 3})
                PBT_CHECK(v[i].key == 1000 + (int)i && v[i].id == 100000 + (int)i, "%s: element out of the range modified", name);
            sc::verify(v.begin() + 2, v.begin() + 2 + N, c, name, stable);
        } else {
            c.order = gen::Order{}; c.mode = 0;
            std::array<Obj, N> v;
            for (std::size_t i = 0; i < N; ++i) v[i] = Obj(c.keys[i], (int)i);
            if (src.below(2)) s(v.begin(), v.end(), &Obj::get); else s(v, &Obj::key);
            sc::verify(v.begin(), v.end(), c, name, stable);
        }
    }

    template<typename V, typename Cmp, typename... Proj>
    static void scalar(Src& src, const char* name, Cmp cmp, Proj... proj)
    {
        std::array<V, N> v{};
        u64 kind = src.below(4);
        for (auto& x: v) {
            u64 r = kind == 0 ? src.below(3) : kind == 1 ? src.below(N + 1) : src.bits();
            if (std::is_floating_point<V>::value) {
                static const double special[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, 1e-310, -1e-310, 1e300, 0.5};
                x = kind == 3 ? (V)special[r % 10] : kind == 0 ? (r == 0 ? V(-0.0) : r == 1 ? V(0.0) : V(1)) : (V)(i64)(r >> (r % 60)) * V(r & 1 ? -1.5 : 1.5);
            } else x = kind == 3 ? (r % 3 == 0 ? std::numeric_limits<V>::min() : r % 3 == 1 ? std::numeric_limits<V>::max() : (V)(r >> 8)) : (V)r;
        }
        auto bits = [](std::array<V, N> a) {
            std::vector<std::string> out;
            for (auto& x: a) out.push_back(std::string((const char*)&x, sizeof(V) > 10 ? 10 : sizeof(V)));
            std::sort(out.begin(), out.end());
            return out;
        };
        auto before = v;
        src.note("%s %zu-byte %s kind %d", name, sizeof(V), std::is_floating_point<V>::value ? "floats" : "integers", (int)kind);
        for (auto x: v) src.note(" %Lg", (long double)x);
        src.nontrivial_if(N >= 2 && !std::is_sorted(v.begin(), v.end(), cmp));
        S{}(v.begin(), v.end(), cmp, proj...);
        PBT_CHECK(std::is_sorted(v.begin(), v.end(), cmp), "%s: scalars not sorted", name);
        PBT_CHECK(bits(v) == bits(before), "%s: other values than before", name);
        if (stable) {
            auto e = before;
            std::stable_sort(e.begin(), e.end(), cmp);
            for (std::size_t i = 0; i < N; ++i) PBT_CHECK(std::signbit((long double)e[i]) == std::signbit((long double)v[i]), "%s: equivalent elements reordered", name);
        }
    }
    static void scalars(Src& src, const char* name)
    {
        switch (src.below(8)) {
            case 0: scalar<int>(src, name, std::less<>{}); break;
            case 1: scalar<int>(src, name, std::greater<>{}); break;
            case 2: scalar<double>(src, name, std::less<>{}); break;
            case 3: scalar<double>(src, name, std::greater<>{}, cs::utility::identity{}); break;
#if __cplusplus >= 202002L
            case 4: scalar<float>(src, name, std::ranges::less{}, std::identity{}); break;
            case 5: scalar<double>(src, name, std::ranges::greater{}); break;
            case 6: scalar<unsigned char>(src, name, std::ranges::greater{}, std::identity{}); break;
            case 7: scalar<long long>(src, name, std::less<>{}, std::identity{}); break;
#else
            case 4: scalar<long double>(src, name, std::less<>{}); break;
            case 5: scalar<long double>(src, name, std::greater<>{}); break;
            case 6: scalar<unsigned char>(src, name, std::greater<>{}); break;
            case 7: scalar<unsigned long long>(src, name, std::greater<unsigned long long>{}); break;
#endif
        }
    }

    // every 0-1 sequence
    static void zero_one(Src& src, const char* name, u64 total)
    {
        u64 x = src.index(total);
        if (total < (u64(1) << N)) x = x * 0x9e3779b97f4a7c15ull >> (64 - N);
        std::array<int, N> v{};
        std::size_t ones = 0;
        for (std::size_t i = 0; i < N; ++i) { v[i] = (int)(x >> i & 1); ones += v[i]; }
        src.note("%s 0-1 sequence %llx", name, (unsigned long long)x);
        src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
        S{}(v.begin(), v.end());
        for (std::size_t i = 0; i < N; ++i) PBT_CHECK(v[i] == (i >= N - ones), "%s: 0-1 sequence %llx not sorted", name, (unsigned long long)x);
    }

    // the comparator network the sorter is, recorded from its comparisons
    static void network(Src& src, const char* name)
    {
        src.nontrivial();
        net::Pairs ces;
        std::vector<int> v(N);
        std::iota(v.begin(), v.end(), 0);
        S{}(v.begin(), v.end(), [&](int a, int b) { ces.push_back({b, a}); return false; });    // nothing is ever exchanged
        PBT_CHECK((int)ces.size() == exact_comparisons(K, (int)N), "%s: %zu comparisons", name, ces.size());
        net::Mask in = 0;
        u64 states = 0;
        bool complete = true;
        bool ok = net::sorts_all((int)N, ces, in, states, complete);
        src.note("%s: %llu states evaluated%s", name, (unsigned long long)states, complete ? " (all)" : " (sample)");
        src.classify(complete ? "all 0-1 inputs" : "sample of the 0-1 inputs");
        if (ok) return;
        for (std::size_t i = 0; i < N; ++i) v[i] = (int)(in >> i & 1);
        S{}(v.begin(), v.end(), [](int a, int b) { return a < b; });
        PBT_CHECK(std::is_sorted(v.begin(), v.end()), "%s does not sort %s", name, net::show(in, (int)N).c_str());
    }

    // every permutation: results and documented sums
    static void permutations(Src& src, const char* name)
    {
        src.nontrivial();
        std::vector<int> p(N);
        std::iota(p.begin(), p.end(), 0);
        u64 cmps = 0, moves = 0;
        S s{};
        Obj v[N ? N : 1];
        do {
            for (std::size_t i = 0; i < N; ++i) { v[i].key = p[i]; v[i].id = (int)i; }
            n_cmp = n_move = 0;
            s(v, v + N, [](const Obj& a, const Obj& b) { ++n_cmp; return a.key < b.key; });
            for (std::size_t i = 0; i < N; ++i)
                if (v[i].key != (int)i) { src.note_seq("permutation", p); pbt::fail("%s: a permutation is not sorted", name); }
            costs(name);
            cmps += n_cmp; moves += n_move;
        } while (std::next_permutation(p.begin(), p.end()));
        if (K == LOW_COMPARISONS && N < 14)
            PBT_CHECK(cmps <= comparison_weight[N], "%s: %llu comparisons to sort all permutations, %llu documented", name, (unsigned long long)cmps, (unsigned long long)comparison_weight[N]);
        if (K == LOW_MOVES && N < 14)
            PBT_CHECK(moves <= move_weight[N], "%s: %llu moves to sort all permutations, %llu documented", name, (unsigned long long)moves, (unsigned long long)move_weight[N]);
    }
    // mean over random permutations, six standard deviations away from the documented one
    static void mean_cost(Src& src, const char* name)
    {
        src.nontrivial();
        gen::Rng r(src.entropy() | 1);
        u64 seed = src.choice_with(u64(1) << 32, r.below(u64(1) << 32));
        gen::Rng g(seed);
        const int samples = 40000;
        double sum = 0, sq = 0;
        Obj v[N];
        int p[N];
        for (int k = 0; k < samples; ++k) {
            for (std::size_t i = 0; i < N; ++i) { std::size_t j = g.below(i + 1); p[i] = p[j]; p[j] = (int)i; }
            for (std::size_t i = 0; i < N; ++i) { v[i].key = p[i]; v[i].id = (int)i; }
            n_cmp = n_move = 0;
            S{}(v, v + N, [](const Obj& a, const Obj& b) { ++n_cmp; return a.key < b.key; });
            double x = K == LOW_MOVES ? (double)n_move : (double)n_cmp;
            sum += x; sq += x * x;
        }
        double mean = sum / samples, var = sq / samples - mean * mean, fact = 1;
        for (std::size_t i = 2; i <= N; ++i) fact *= (double)i;
        double documented = (K == LOW_MOVES ? (double)move_weight[N] : (double)comparison_weight[N]) / fact;
        PBT_CHECK(mean <= documented + 6.5 * std::sqrt(var / samples) + 1e-9, "%s: %.4f %s on average, %.4f documented", name, mean, K == LOW_MOVES ? "moves" : "comparisons", documented);
    }
};

template<int I, typename S, std::size_t N, Kind K>
void add(const char* family)
{
    if constexpr ((I % NPARTS == PART)) {
        char name[80];
        std::snprintf(name, sizeof name, "%s<%zu>", family, N);
        std::string* n = new std::string(name);
        using X = T<S, N, K>;
        pbt::add_test(*n, 2500, 60000, [n](Src& s) { X::general(s, n->c_str()); });
        pbt::add_test(*n + " scalars", 2000, 40000, [n](Src& s) { X::scalars(s, n->c_str()); });
        constexpr u64 all = N <= 12 ? u64(1) << N : 4096;
        constexpr u64 all_t = N <= 18 ? u64(1) << N : u64(1) << 18;
        if (N <= 18) {
            u64 total = pbt::g_thorough ? all_t : all;
            (void)total;
            pbt::add_test(*n + " 0-1 sequences", all, all_t, [n](Src& s) { X::zero_one(s, n->c_str(), pbt::g_thorough ? all_t : all); });
        }
        if (K != LOW_COMPARISONS && K != LOW_MOVES) pbt::add_test(*n + " network", 1, 1, [n](Src& s) { X::network(s, n->c_str()); });
        if (N <= 9) pbt::add_test(*n + " permutations", 1, 1, [n](Src& s) { X::permutations(s, n->c_str()); });
        if ((K == LOW_COMPARISONS || K == LOW_MOVES) && N >= 9 && N <= 13) {
            if constexpr (N >= 9 && N <= 13) pbt::add_test(*n + " mean", 6, 60, [n](Src& s) { X::mean_cost(s, n->c_str()); });
        }
    }
}

// Arrays of every documented size are accepted by the adapter calling fixed-size sorters
template<template<std::size_t> class S, std::size_t N>
constexpr bool accepted() { return std::is_invocable<cs::small_array_adapter<S>, std::array<int, N>&>::value && std::is_invocable<cs::small_array_adapter<S>, int (&)[N + 1]>::value == std::is_invocable<cs::small_array_adapter<S>, std::array<int, N + 1>&>::value; }
static void domains(Src& src)
{
    src.nontrivial();
    auto check = [](bool ok, bool expected, const char* name, std::size_t n) { PBT_CHECK(ok == expected, "small_array_adapter<%s> %s arrays of %zu elements", name, ok ? "accepts" : "rejects", n); };
#define D(S, N, E) check(accepted<cs::S, N>(), E, #S, N);
    D(low_comparisons_sorter, 0, true) D(low_comparisons_sorter, 1, true) D(low_comparisons_sorter, 6, true) D(low_comparisons_sorter, 13, true) D(low_comparisons_sorter, 14, false) D(low_comparisons_sorter, 20, false)
    D(sorting_network_sorter, 0, true) D(sorting_network_sorter, 1, true) D(sorting_network_sorter, 31, true) D(sorting_network_sorter, 32, true) D(sorting_network_sorter, 33, true)
    D(sorting_network_sorter, 48, true) D(sorting_network_sorter, 63, true) D(sorting_network_sorter, 64, true) D(sorting_network_sorter, 65, false) D(sorting_network_sorter, 100, false)
    D(low_moves_sorter, 0, true) D(low_moves_sorter, 30, true) D(merge_exchange_network_sorter, 30, true)
#undef D
}

template<Kind K, template<std::size_t> class S, std::size_t... N>
void add_all(const char* family, std::index_sequence<N...>)
{
    // heavy sizes spread over the parts
    int x[] = {0, (add<(int)N, S<N>, N, K>(family), 0)...};
    (void)x;
}

void register_tests()
{
    if (PART == 0) pbt::add_test("domains", 1, 1, [](Src& s) { domains(s); });
    add_all<LOW_COMPARISONS, cs::low_comparisons_sorter>("low_comparisons_sorter", std::make_index_sequence<14>{});
    add_all<LOW_MOVES, cs::low_moves_sorter>("low_moves_sorter", std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 31, 32, 46>{});
    add_all<NETWORK, cs::sorting_network_sorter>("sorting_network_sorter", std::make_index_sequence<65>{});
    add_all<MERGE_EXCHANGE, cs::merge_exchange_network_sorter>("merge_exchange_network_sorter",
        std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 25, 31, 32, 33, 47, 63, 64, 65, 93>{});
    add_all<ODD_EVEN, cs::odd_even_merge_network_sorter>("odd_even_merge_network_sorter", std::index_sequence<0, 1, 2, 4, 8, 16, 32, 64, 128>{});
}
