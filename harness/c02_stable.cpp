// C02: stable sorters, stable wrappers and everything advertising stability.
#include "sortcheck.h"
#include <cpp-sort/metrics.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <array>

using namespace sc;

static std::size_t max_n(bool quad) { return quad ? (pbt::g_thorough ? 900 : 300) : (pbt::g_thorough ? 12000 : 3000); }

static Case draw_eq(Src& src, bool quad, bool plain = false)
{
    Case c = draw(src, max_n(quad), plain);
    coarsen(src, c);
    src.nontrivial_if(has_equivalents(c) && !std::is_sorted(c.keys.begin(), c.keys.end()));
    return c;
}

template<bool Must, typename S, typename... Args>
constexpr bool claims() { return Must || cppsort::is_stable_v<S(Args...)>; }

// One call; the form is chosen at run time, stability required when documented (Must) or advertised.
// Few forms on purpose (compile time): C23 shows that the others are equivalent.
template<bool Must, typename T, typename S, typename C>
void call(const S& sorter, C& col, const Case& c, int form, const char* name, const char* key)
{
    using It = decltype(col.begin());
    bool st = false;
    switch (form) {
        case 0: sorter(col.begin(), col.end(), c.cmp(), c.proj()); st = claims<Must, S, It, It, td::Cmp, AnyProj>(); break;
        case 1: sorter(col, c.cmp(), c.proj()); st = claims<Must, S, C&, td::Cmp, AnyProj>(); break;
        case 2: sorter(col); st = claims<Must, S, C&>(); break;
    }
    verify(col.begin(), col.end(), c, name, st, key);
}

template<bool Must, typename S, typename Cat, typename T, bool Wide>
void t_call(Src& src, const char* name, bool quad)
{
    bool other = src.below(2);
    int form = (int)src.below(Wide ? 3 : 2);
    Case c = draw_eq(src, quad, form == 2);
    src.note("%s other=%d form=%d ", name, other, form);
    const S sorter{};
    auto go = [&](auto col) {
        using C_ = decltype(col);
        fill<T>(col, c.keys);
        // a wrong trait is identified by the adapter and the kind of container
        std::string key = Must ? "" : std::string("trait:") + name + (std::is_same<C_, std::forward_list<T>>::value ? "/forward_list" : std::is_same<C_, std::list<T>>::value ? "/list" : "");
        for (auto& ch: key) if (ch == ' ') ch = '_';
        if constexpr (Wide) call<Must, T>(sorter, col, c, form, name, key.c_str());
        else {
            sorter(col, c.cmp(), c.proj());
            verify(col.begin(), col.end(), c, name, claims<Must, S, C_&, td::Cmp, AnyProj>(), key.c_str());
        }
    };
    if constexpr (std::is_same<Cat, ra_tag>::value) {
        if constexpr (Wide) { if (other) { go(std::deque<T>{}); return; } }
        go(std::vector<T>{});
    } else if constexpr (std::is_same<Cat, bi_tag>::value) {
        if (other) go(std::vector<T>{});
        else go(std::list<T>{});
    } else {
        if (other) go(std::vector<T>{});
        else go(std::forward_list<T>{});
    }
}

template<bool Must, typename S, typename Cat, bool Quad, typename T = Plain, bool Wide = false>
void add(const std::string& name, u_int64_t q)
{
    char* nm = strdup(name.c_str());
    pbt::add_test(name, q, q * 20, [nm](Src& s) { t_call<Must, S, Cat, T, Wide>(s, nm, Quad); });
}

// Fixed-size arrays: networks of 0 to 3 documented as stable, small_array_adapter
template<typename S, std::size_t N, bool Must>
void t_array(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src);
    c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(3));
    src.nontrivial_if(N >= 2 && has_equivalents(c));
    src.note("%s order=%d/%d ", name, c.order.mode, c.order.param);
    src.note_seq("keys", c.keys);
    int form = (int)src.below(3);
    S sorter{};
    bool st = false;
    std::array<PlainD, N> a;
    for (std::size_t i = 0; i < N; ++i) a[i] = PlainD{c.keys[i], (int)i};
    switch (form) {
        case 0: sorter(a, c.cmp(), c.proj()); st = claims<Must, S, std::array<PlainD, N>&, td::Cmp, AnyProj>(); break;
        case 1: sorter(a, c.ecmp()); st = claims<Must, S, std::array<PlainD, N>&, AnyCmp>(); break;
        case 2: c.order = {}; c.mode = 0; sorter(a, AnyProj{}); st = claims<Must, S, std::array<PlainD, N>&, AnyProj>(); break;
    }
    verify(a.begin(), a.end(), c, name, st);
}
template<typename S, std::size_t N, bool Must>
void add_arr(const std::string& name)
{
    char* nm = strdup(name.c_str());
    pbt::add_test(name, 400, 8000, [nm](Src& s) { t_array<S, N, Must>(s, nm); });
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int dummy[] = {(add_arr<F<Ns>, Ns, false>(std::string(name) + "<" + std::to_string(Ns) + ">"), 0)...};
    int dummy2[] = {(add_arr<cppsort::small_array_adapter<F>, Ns, false>(std::string("small_array ") + name + std::to_string(Ns)), 0)...};
    (void)dummy; (void)dummy2;
}

// Return values of the indirect utilities
static void t_indices(Src& src)
{
    Case c = draw_eq(src, false);
    std::vector<Plain> v; fill<Plain>(v, c.keys);
    int which = (int)src.below(3);
    std::vector<int> order;
    auto get = [&](auto idx) { for (auto i: idx) order.push_back((int)i); };
    auto getit = [&](auto its) { for (auto i: its) order.push_back((int)(i - v.begin())); };
    switch (which) {
        case 0: get(su::sorted_indices<cppsort::merge_sorter>{}(v, c.cmp(), c.proj())); break;
        case 1: get(su::sorted_indices<cppsort::stable_t<cppsort::heap_sorter>>{}(v, c.cmp(), c.proj())); break;
        case 2: getit(su::sorted_iterators<cppsort::merge_sorter>{}(v, c.cmp(), c.proj())); break;
    }
    PBT_CHECK(order.size() == c.keys.size(), "sorted_indices/iterators: wrong size");
    std::vector<Plain> w;
    for (int i: order) w.push_back(v.at(i));
    verify(w.begin(), w.end(), c, "sorted_indices/iterators of a stable sorter", true);
}

static void t_stable_sort_fn(Src& src)
{
    Case c = draw_eq(src, false);
    int form = (int)src.below(6);
    std::vector<Plain> v; fill<Plain>(v, c.keys);
    std::list<Plain> l; fill<Plain>(l, c.keys);
    switch (form) {
        case 0: cppsort::stable_sort(v, c.cmp(), c.proj()); verify(v.begin(), v.end(), c, "stable_sort(it,cmp,proj)", true); break;
        case 1: cppsort::stable_sort(v.begin(), v.end(), c.cmp(), c.proj()); verify(v.begin(), v.end(), c, "stable_sort(f,l,cmp,proj)", true); break;
        case 2: cppsort::stable_sort(cppsort::heap_sorter{}, v, c.cmp(), c.proj()); verify(v.begin(), v.end(), c, "stable_sort(heap)", true); break;
        case 3: cppsort::stable_sort(cppsort::std_sorter{}, v.begin(), v.end(), c.ecmp()); verify(v.begin(), v.end(), c, "stable_sort(std)", true); break;
        case 4: cppsort::stable_sort(l, c.ecmp()); verify(l.begin(), l.end(), c, "stable_sort(list)", true); break;
        case 5: cppsort::stable_sort(cppsort::quick_sorter{}, l, c.ecmp()); verify(l.begin(), l.end(), c, "stable_sort(quick,list)", true); break;
    }
}

// Containers sorting themselves
struct SelfStable: std::vector<Plain>
{
    int* calls = nullptr;
    template<typename... A> void stable_sort(A... a) { ++*calls; cppsort::merge_sorter{}(begin(), end(), a...); }
};
static void t_self_stable(Src& src)
{
    Case c = draw_eq(src, false);
    int calls = 0;
    SelfStable v; v.calls = &calls;
    for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back(Plain{c.keys[i], (int)i});
    using S = cppsort::self_sort_adapter<cppsort::heap_sorter>;
    using SS = cppsort::stable_adapter<S>;
    if (src.below(2)) {
        S{}(v, c.cmp(), c.proj());
        verify(v.begin(), v.end(), c, "self_sort(stable_sort member)", cppsort::is_stable_v<S(SelfStable&, td::Cmp, AnyProj)>);
    } else {
        SS{}(v, c.cmp(), c.proj());
        verify(v.begin(), v.end(), c, "stable_adapter<self_sort>(stable_sort member)", true);
    }
    PBT_CHECK(calls == 1, "stable_sort member function not called");
}


template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        std::string n = name;
        if constexpr (Stable) add<Stable, S, Cat, Quad, Plain, true>(n, 3000);
        else {
            add<false, S, Cat, Quad, Plain, true>(n + "/advertised", 150);
            add<true, cppsort::stable_adapter<S>, Cat, Quad>("stable_adapter " + n, 800);
        }
        // std::sort does not support the proxies make_stable relies on
        if constexpr (!std::is_same<S, cppsort::std_sorter>::value)
            add<true, cppsort::make_stable<S>, Cat, Quad>("make_stable " + n, 500);
        add<true, cppsort::stable_t<S>, Cat, Quad, Elem>("stable_t " + n + "/move_only", 1000);
    }
}
template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe_p(const char* name)
{
    if constexpr (I % NPARTS == PART) add<Stable, S, Cat, Quad, PlainD, true>(name, 3000);
}

template<typename S, bool Must = true, typename Cat = ra_tag, typename T = Plain, bool Wide = false>
void adapters(const char* name)
{
    add<Must, S, Cat, false, T, Wide>(std::string("adapter ") + name, 1500);
}

namespace cs = cppsort;

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe_p<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
    // documented to be stable
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((adapters<cs::stable_adapter<cs::verge_adapter<cs::heap_sorter>>>("stable verge<heap>")));
    A((adapters<cs::stable_adapter<cs::verge_adapter<cs::quick_sorter>>, true, bi_tag>("stable verge<quick>")));
    A((adapters<cs::stable_adapter<cs::verge_adapter<cs::tim_sorter>>>("stable verge<tim>")));
    A((adapters<cs::stable_adapter<cs::drop_merge_adapter<cs::pdq_sorter>>, true, bi_tag>("stable drop_merge<pdq>")));
    A((adapters<cs::stable_adapter<cs::split_adapter<cs::merge_sorter>>, true, bi_tag>("stable split<merge>")));
    A((adapters<cs::indirect_adapter<cs::merge_sorter>, true, fwd_tag>("indirect<merge>")));
    A((adapters<cs::indirect_adapter<cs::tim_sorter>, true, fwd_tag>("indirect<tim>")));
    A((adapters<cs::stable_t<cs::indirect_adapter<cs::heap_sorter>>, true, fwd_tag>("stable indirect<heap>")));
    A((adapters<cs::out_of_place_adapter<cs::merge_sorter>, true, fwd_tag>("out_of_place<merge>")));
    A((adapters<cs::out_of_place_adapter<cs::grail_sorter<>>, true, fwd_tag>("out_of_place<grail>")));
    A((adapters<cs::stable_t<cs::out_of_place_adapter<cs::smooth_sorter>>, true, fwd_tag>("stable out_of_place<smooth>")));
    A((adapters<cs::schwartz_adapter<cs::merge_sorter>, true, fwd_tag>("schwartz<merge>")));
    A((adapters<cs::schwartz_adapter<cs::tim_sorter>, true>("schwartz<tim>")));
    A((adapters<cs::stable_t<cs::schwartz_adapter<cs::poplar_sorter>>, true>("stable schwartz<poplar>")));
    A((adapters<cs::counting_adapter<cs::merge_sorter>, true, fwd_tag>("counting<merge>")));
    A((adapters<cs::stable_t<cs::counting_adapter<cs::heap_sorter>>, true>("stable counting<heap>")));
    A((adapters<cs::hybrid_adapter<cs::merge_sorter, cs::tim_sorter>, true, fwd_tag>("hybrid<merge,tim>")));
    A((adapters<cs::stable_adapter<cs::hybrid_adapter<cs::selection_sorter, cs::quick_sorter, cs::heap_sorter>>, true, fwd_tag>("stable hybrid<selection,quick,heap>")));
    A((adapters<cs::stable_t<cs::hybrid_adapter<cs::verge_adapter<cs::heap_sorter>, cs::mel_sorter>>, true, fwd_tag>("stable hybrid<verge,mel>")));
    A((adapters<cs::stable_adapter<cs::self_sort_adapter<cs::cartesian_tree_sorter>>, true, fwd_tag>("stable self_sort<cartesian>")));
    A((adapters<cs::stable_t<cs::self_sort_adapter<cs::quick_sorter>>, true, fwd_tag>("stable_t self_sort<quick>")));
    A((adapters<cs::stable_adapter<cs::stable_adapter<cs::pdq_sorter>>>("stable stable<pdq>")));
    A((adapters<cs::stable_adapter<cs::default_sorter>, true, fwd_tag>("stable default")));
    A((adapters<cs::stable_adapter<cs::std_sorter>>("stable std")));
    A((adapters<cs::stable_adapter<cs::verge_sorter>, true, bi_tag>("stable verge")));
    A((adapters<cs::metrics::comparisons<cs::merge_sorter>, true, fwd_tag>("comparisons<merge>")));
    A((adapters<cs::metrics::projections<cs::merge_sorter>, true, fwd_tag>("projections<merge>")));
    A((adapters<cs::metrics::running_time<cs::merge_sorter>, true, fwd_tag>("running_time<merge>")));
    A((adapters<cs::rebind_iterator_category<cs::merge_sorter, bi_tag>, true, bi_tag>("rebind<merge>")));
    // only stable when advertised
    A((adapters<cs::self_sort_adapter<cs::merge_sorter>, false, fwd_tag>("self_sort<merge>")));
    A((adapters<cs::self_sort_adapter<cs::heap_sorter>, false, ra_tag>("self_sort<heap>")));
    A((adapters<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>, false, fwd_tag>("hybrid<merge,heap>")));
    A((adapters<cs::hybrid_adapter<cs::selection_sorter, cs::insertion_sorter, cs::heap_sorter>, false, fwd_tag>("hybrid<selection,insertion,heap>")));
    A((adapters<cs::hybrid_adapter<cs::self_sort_adapter<cs::heap_sorter>, cs::selection_sorter>, false, fwd_tag>("hybrid<self_sort,selection>")));
    A((adapters<cs::container_aware_adapter<cs::insertion_sorter>, true, bi_tag>("container_aware<insertion>")));
    A((adapters<cs::container_aware_adapter<cs::merge_sorter>, true, fwd_tag>("container_aware<merge>")));
    A((adapters<cs::container_aware_adapter<cs::mel_sorter>, false, fwd_tag>("container_aware<mel>")));
    A((adapters<cs::container_aware_adapter<cs::selection_sorter>, false, fwd_tag>("container_aware<selection>")));
    A((adapters<cs::drop_merge_adapter<cs::merge_sorter>, false, bi_tag>("drop_merge<merge>")));
    A((adapters<cs::split_adapter<cs::merge_sorter>, false, bi_tag>("split<merge>")));
    A((adapters<cs::verge_adapter<cs::merge_sorter>, false, bi_tag>("verge<merge>")));
    A((adapters<cs::indirect_adapter<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>>, false, fwd_tag>("indirect<hybrid>")));
    A((adapters<cs::schwartz_adapter<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>>, false, fwd_tag>("schwartz<hybrid>")));
    A((adapters<cs::out_of_place_adapter<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>>, false, fwd_tag>("out_of_place<hybrid>")));
    A((adapters<cs::counting_adapter<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>>, false, fwd_tag>("counting<hybrid>")));
    A((adapters<cs::metrics::moves<cs::merge_sorter>, false, fwd_tag>("moves<merge>")));
    A((adapters<cs::counting_adapter<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("counting<self_sort<quick>>")));
    A((adapters<cs::metrics::comparisons<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("comparisons<self_sort<quick>>")));
    A((adapters<cs::metrics::projections<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("projections<self_sort<quick>>")));
    A((adapters<cs::metrics::running_time<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("running_time<self_sort<quick>>")));
    A((adapters<cs::indirect_adapter<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("indirect<self_sort<quick>>")));
    A((adapters<cs::out_of_place_adapter<cs::self_sort_adapter<cs::quick_sorter>>, false, fwd_tag, Plain, true>("out_of_place<self_sort<quick>>")));
    A((adapters<cs::hybrid_adapter<cs::self_sort_adapter<cs::quick_sorter>, cs::heap_sorter>, false, fwd_tag, Plain, true>("hybrid<self_sort<quick>,heap>")));
    // fixed-size sorters
    A((add_arr<cs::sorting_network_sorter<0>, 0, true>("network0"), add_arr<cs::sorting_network_sorter<1>, 1, true>("network1"),
       add_arr<cs::sorting_network_sorter<2>, 2, true>("network2"), add_arr<cs::sorting_network_sorter<3>, 3, true>("network3")));
    A((add_arr<cs::small_array_adapter<cs::sorting_network_sorter>, 2, true>("small_array network2"),
       add_arr<cs::small_array_adapter<cs::sorting_network_sorter>, 3, true>("small_array network3")));
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::make_index_sequence<13>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::make_index_sequence<9>{})));
    A((add_fixed<cs::odd_even_merge_network_sorter>("odd_even_merge", std::index_sequence<1, 2, 4, 8>{})));
    A((pbt::add_test("sorted_indices", 3000, 60000, t_indices)));
    A((pbt::add_test("stable_sort", 4000, 80000, t_stable_sort_fn)));
    A((pbt::add_test("self_stable", 2000, 40000, t_self_stable)));
}
