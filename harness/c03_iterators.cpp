// C03: sorters, adapters, fixed-size sorters and measures on checked iterators of the weakest
// documented category, with narrow difference types, over move-only elements.
#include "sortcheck.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/utility/iter_move.h>

using namespace sc;

// Elements without default constructor nor copy; PlainD where a buffer needs default construction
template<typename T> T make_elem(int k, int i) { return T(k, i); }

template<typename S, typename Cat, typename Diff, typename T>
void t_iter(Src& src, const char* name, std::size_t limit)
{
    std::size_t n_max = limit;
    if (sizeof(Diff) == 1) n_max = std::min<std::size_t>(limit, 127);
    bool iterable = src.below(2);
    Case c = draw(src, n_max);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    std::size_t n = c.keys.size();
    td::Buffer<T> buf(n, 2, [&](T* p, i64 i) {
        if (i < 0 || (std::size_t)i >= n) new (p) T(i < 0 ? 1 << 30 : -(1 << 30), -7);
        else new (p) T(c.keys[i], (int)i);
    });
    auto first = buf.template first<Cat, Diff>();
    auto last = buf.template last<Cat, Diff>();
    S sorter{};
    if (iterable) {
        struct Range {
            td::It<T, Cat, Diff> b, e;
            auto begin() const { return b; }
            auto end() const { return e; }
        } r{first, last};
        sorter(r, c.cmp(), c.proj());
    } else {
        sorter(first, last, c.cmp(), c.proj());
    }
    verify(buf.begin(), buf.end(), c, name);
    for (int i = 1; i <= 2; ++i) {
        PBT_CHECK(buf.begin()[-i].id == -7 && buf.begin()[-i].key == 1 << 30, "%s: element before the range modified", name);
        PBT_CHECK(buf.end()[i - 1].id == -7 && buf.end()[i - 1].key == -(1 << 30), "%s: element after the range modified", name);
    }
}

template<typename S, typename Cat, typename T, bool Quad>
void add_s(const std::string& name, u_int64_t q)
{
    char* nm = strdup(name.c_str());
    pbt::add_test(name + "/checked", q, q * 20, [nm](Src& s) { t_iter<S, Cat, std::ptrdiff_t, T>(s, nm, Quad ? 300 : pbt::g_thorough ? 9000 : 2600); });
    pbt::add_test(name + "/int8", q / 2, q * 10, [nm](Src& s) { t_iter<S, Cat, signed char, T>(s, nm, 127); });
}

// Type-specific sorters: integers, doubles and strings behind checked iterators
template<typename S, typename V, typename Cat, typename Diff>
void t_typed(Src& src, const char* name, bool counting)
{
    auto keys = gen::keys(src, sizeof(Diff) == 1 ? 127 : 2500);
    src.note("%s ", name);
    src.note_seq("keys", keys);
    src.nontrivial_if(keys.size() >= 2 && !gen::is_sorted_keys(keys));
    if (counting) for (auto& k: keys) k %= 5000;
    std::vector<V> vals;
    for (auto k: keys) {
        if constexpr (std::is_same<V, std::string>::value) vals.push_back((k % 2 ? "prefix" : "pre") + std::to_string(k));
        else vals.push_back((V)k);
    }
    std::size_t n = vals.size();
    td::Buffer<V> buf(n, 2, [&](V* p, i64 i) {
        if (i < 0 || (std::size_t)i >= n) new (p) V(vals.empty() ? V{} : vals[0]);
        else new (p) V(vals[i]);
    });
    S{}(buf.template first<Cat, Diff>(), buf.template last<Cat, Diff>());
    std::sort(vals.begin(), vals.end());
    for (std::size_t i = 0; i < n; ++i) PBT_CHECK(buf[i] == vals[i], "%s: wrong element at position %zu", name, i);
}

template<typename S, typename V, typename Cat>
void add_t(const std::string& name, bool counting = false)
{
    char* nm = strdup(name.c_str());
    pbt::add_test(name + "/checked", 1500, 30000, [=](Src& s) { t_typed<S, V, Cat, std::ptrdiff_t>(s, nm, counting); });
    pbt::add_test(name + "/int8", 1000, 20000, [=](Src& s) { t_typed<S, V, Cat, signed char>(s, nm, counting); });
}

// Fixed-size sorters: random-access iterators
template<template<std::size_t> class F, std::size_t N>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note("%s<%zu> ", name, N); src.note_seq("keys", c.keys);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    td::Buffer<Elem> buf(N, 2, [&](Elem* p, i64 i) {
        new (p) Elem(i < 0 || i >= (i64)N ? 77777 : c.keys[i], (int)i);
    });
    F<N>{}(buf.template first<ra_tag, signed char>(), buf.template last<ra_tag, signed char>(), c.cmp(), c.proj());
    verify(buf.begin(), buf.end(), c, name);
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns), 300, 6000, [name](Src& s) { t_fixed<F, Ns>(s, name); }), 0)...};
    (void)d;
}

// Measures: forward iterators, read-only
template<typename P, typename Diff>
void t_probe(Src& src, const char* name)
{
    Case c = draw(src, 110);
    src.note("%s ", name);
    std::size_t n = c.keys.size();
    src.nontrivial_if(n >= 3);
    td::Buffer<Plain> buf(n, 2, [&](Plain* p, i64 i) {
        if (i < 0 || (std::size_t)i >= n) new (p) Plain{(i < 0 ? 1 << 30 : -(1 << 30)), -7};
        else new (p) Plain{c.keys[i], (int)i};
    });
    auto a = P{}(buf.template first<fwd_tag, Diff>(), buf.template last<fwd_tag, Diff>(), c.cmp(), c.proj());
    td::Buffer<Plain> buf2(n, 0, [&](Plain* p, i64 i) { new (p) Plain{c.keys[i], (int)i}; });
    auto b = P{}(buf2.template first<ra_tag, Diff>(), buf2.template last<ra_tag, Diff>(), c.cmp(), c.proj());
    auto b3 = P{}(buf2.template first<bi_tag, Diff>(), buf2.template last<bi_tag, Diff>(), c.cmp(), c.proj());
    verify_untouched(buf.begin(), buf.end(), c, name);
    PBT_CHECK((long long)a == (long long)b && (long long)a == (long long)b3, "%s: %lld with forward iterators, %lld with bidirectional ones, %lld with random-access ones",
              name, (long long)a, (long long)b3, (long long)b);
}
template<typename P>
void add_p(const char* name)
{
    pbt::add_test(std::string("probe ") + name, 1500, 30000, [name](Src& s) { t_probe<P, std::ptrdiff_t>(s, name); });
}

template<int I, typename S, typename Cat, bool Quad>
void maybe(const char* name) { if constexpr (I % NPARTS == PART) add_s<S, Cat, Elem, Quad>(name, 4000); }
template<int I, typename S, typename Cat, bool Quad>
void maybe_p(const char* name) { if constexpr (I % NPARTS == PART) add_s<S, Cat, PlainD, Quad>(name, 4000); }

namespace cs = cppsort;
void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe_p<__COUNTER__ - base - 1, TYPE, CAT, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_t<cs::ska_sorter, int, ra_tag>("ska int")));
    A((add_t<cs::ska_sorter, std::string, ra_tag>("ska string")));
    A((add_t<cs::spread_sorter, int, ra_tag>("spread int")));
    A((add_t<cs::spread_sorter, double, ra_tag>("spread double")));
    A((add_t<cs::spread_sorter, std::string, ra_tag>("spread string")));
    A((add_t<cs::counting_sorter, int, fwd_tag>("counting int", true)));
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 24>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<0, 1, 2, 3, 4, 5, 7, 11, 16>{})));
    A((add_fixed<cs::odd_even_merge_network_sorter>("odd_even_merge", std::index_sequence<1, 2, 4, 8, 16>{})));
#define P(NAME) A((add_p<std::decay_t<decltype(cs::probe::NAME)>>(#NAME)));
    P(block) P(dis) P(enc) P(exc) P(ham) P(inv) P(max) P(mono) P(osc) P(par) P(rem) P(runs) P(sus)
}
