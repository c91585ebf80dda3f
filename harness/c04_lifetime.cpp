// C04: element lifetimes. Tracked elements detect reads of moved-from or dead elements, losses by
// overwriting and double destructions; allocation counters detect leaks, overruns and bad sizes.
#include "alloc.h"
#include "elemd.h"
#include "sortcheck.h"

using namespace sc;
using td::ElemD;

// Overwriting a live element that was not moved elsewhere loses it: the permutation oracle sees it.

template<typename C, typename S, typename T, typename Call>
void run(Src& src, const char* name, const Case& c, Call call)
{
    C v;
    fill<T>(v, c.keys);
    S sorter{};
    i64 elems = td::live_elems, blocks = al::live_blocks, bytes = al::live_bytes;
    td::elem_moves = 0;
    call(sorter, v);
    i64 e2 = td::live_elems, b2 = al::live_blocks, y2 = al::live_bytes;
    PBT_CHECK(e2 == elems, "%s: %lld live elements instead of %lld after the call", name, (long long)e2, (long long)elems);
    PBT_CHECK(b2 == blocks && y2 == bytes, "%s: %lld memory blocks (%lld bytes) allocated during the call still live after it", name,
              (long long)(b2 - blocks), (long long)(y2 - bytes));
    for (auto& x: v) PBT_CHECK(x.readable(), "%s: an element of the range is moved-from or not alive after the call", name);
    verify(v.begin(), v.end(), c, name);
    src.classify(td::elem_moves ? "elements moved" : "no element moved");
}

template<typename S, typename Cat, typename T, bool Quad>
void t_life(Src& src, const char* name)
{
    int where = (int)src.below(3);
    bool ecmp = src.below(2);
    Case c = draw(src, Quad ? 300 : pbt::g_thorough ? 9000 : 2200);
    if (src.chance(1, 3)) coarsen(src, c);
    src.note("%s where=%d ecmp=%d ", name, where, ecmp);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    auto call = [&](S& s, auto& v) {
        if (ecmp) s(v, c.ecmp());
        else s(v.begin(), v.end(), c.cmp(), c.proj());
    };
    if (where == 0) return run<std::vector<T>, S, T>(src, name, c, call);
    if (where == 1) return run<std::deque<T>, S, T>(src, name, c, call);
    if constexpr (std::is_same<Cat, fwd_tag>::value) run<std::forward_list<T>, S, T>(src, name, c, call);
    else if constexpr (std::is_same<Cat, bi_tag>::value) run<std::list<T>, S, T>(src, name, c, call);
    else run<std::vector<T>, S, T>(src, name, c, call);
}

// Type-specific sorters over records, through projections
struct ToInt { int operator()(const Elem& e) const { return e.get(); } };
struct ToU8 { unsigned char operator()(const Elem& e) const { return (unsigned char)e.get(); } };
struct ToDouble { double operator()(const Elem& e) const { return e.get() / 4.0; } };
struct ToString { std::string operator()(const Elem& e) const { return std::to_string(e.get()); } };
struct ToPair { std::pair<int, bool> operator()(const Elem& e) const { return {e.get() >> 1, e.get() & 1}; } };

template<typename S, typename P>
void t_typed(Src& src, const char* name)
{
    Case c = draw(src, pbt::g_thorough ? 9000 : 2600, true);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    std::vector<Elem> v;
    fill<Elem>(v, c.keys);
    i64 elems = td::live_elems, blocks = al::live_blocks, bytes = al::live_bytes;
    S{}(v, P{});
    i64 e2 = td::live_elems, b2 = al::live_blocks, y2 = al::live_bytes;
    PBT_CHECK(e2 == elems, "%s: %lld live elements instead of %lld after the call", name, (long long)e2, (long long)elems);
    PBT_CHECK(b2 == blocks && y2 == bytes, "%s: %lld memory blocks (%lld bytes) leaked", name, (long long)(b2 - blocks), (long long)(y2 - bytes));
    std::vector<char> seen(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        PBT_CHECK(v[i].readable(), "%s: an element is moved-from or not alive after the call", name);
        PBT_CHECK(!seen[v[i].id] && c.keys[v[i].id] == v[i].key, "%s: not a permutation", name);
        seen[v[i].id] = 1;
        if (i) PBT_CHECK(!(P{}(v[i]) < P{}(v[i - 1])), "%s: not sorted at position %zu", name, i);
    }
}
template<typename S, typename P>
void add_t(const char* name)
{
    pbt::add_test(name, 2500, 50000, [name](Src& s) { t_typed<S, P>(s, name); });
}

template<template<std::size_t> class F, std::size_t N>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note("%s<%zu> ", name, N); src.note_seq("keys", c.keys);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    run<std::vector<Elem>, F<N>, Elem>(src, name, c, [&](auto& s, auto& v) { s(v, c.cmp(), c.proj()); });
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns), 500, 10000, [name](Src& s) { t_fixed<F, Ns>(s, name); }), 0)...};
    (void)d;
}

template<int I, typename S, typename Cat, typename T, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, Quad ? 5000 : 7000, Quad ? 100000 : 140000, [name](Src& s) { t_life<S, Cat, T, Quad>(s, name); });
}

namespace cs = cppsort;
void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, Elem, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, ElemD, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, Elem, false>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#ifndef BRANCHLESS
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_t<cs::ska_sorter, ToInt>("ska int")));
    A((add_t<cs::ska_sorter, ToU8>("ska u8")));
    A((add_t<cs::ska_sorter, ToDouble>("ska double")));
    A((add_t<cs::ska_sorter, ToPair>("ska pair")));
    A((add_t<cs::ska_sorter, ToString>("ska string")));
    A((add_t<cs::spread_sorter, ToInt>("spread int")));
    A((add_t<cs::spread_sorter, ToDouble>("spread double")));
    A((add_t<cs::spread_sorter, ToString>("spread string")));
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 4, 5, 8, 13, 17, 21, 32>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<2, 3, 6, 11>{})));
#endif
}
