// C05: exceptions thrown by comparisons, projections and element moves at any point.
#include "alloc.h"
#include "elemd.h"
#include "sortcheck.h"

using namespace sc;
using td::ElemD;

enum What { in_call, in_move };

template<typename T>
void refill(std::vector<T>& v, const std::vector<int>& k) { v.clear(); fill<T>(v, k); }

// assigns a fresh value to every element in place (valid whatever the state it was left in)
template<typename C>
void reassign(C& c, const std::vector<int>& keys)
{
    std::size_t i = 0;
    for (auto& x: c) { x = std::decay_t<decltype(x)>(keys[i], (int)i); ++i; }
}

template<typename C, typename S, typename T, typename Call>
void run(Src& src, const char* name, const Case& c, What what, bool untouched, Call call)
{
    // counting run
    {
        C v; fill<T>(v, c.keys);
        S s{};
        td::call_count = 0; td::elem_moves = 0;
        call(s, v);
    }
    u64 calls = td::call_count, moves = td::elem_moves;
    u64 total = what == in_call ? calls : moves;
    // where the exception is thrown: anywhere, or close to an end
    u64 at = 0;
    switch (src.below(3)) {
        case 0: at = src.below(total + 1); break;
        case 1: at = std::min<u64>(src.below(12), total); break;
        case 2: at = total - std::min<u64>(src.below(12), total); break;
    }
    src.note("%s throws at %s %llu of %llu ", name, what == in_call ? "call" : "move", (unsigned long long)at, (unsigned long long)total);
    src.mix_hash(at);
    bool expect = at < total;
    src.nontrivial_if(expect && c.keys.size() >= 2);
    src.classify(!expect ? "no throw" : what == in_call ? "throw in comparison or projection" : "throw in move");

    C v; fill<T>(v, c.keys);
    i64 elems = td::live_elems, blocks = al::live_blocks, bytes = al::live_bytes;
    {
        S s{};
        bool caught = false;
        if (what == in_call) td::throw_at_call = (i64)at; else td::throw_at_move = (i64)at;
        int where = -1;
        try { call(s, v); }
        catch (const td::Boom& b) { caught = true; where = b.where; }
        catch (const std::exception& e) { pbt::fail("%s: another exception reaches the caller: %s", name, e.what()); }
        catch (...) { pbt::fail("%s: another exception reaches the caller", name); }
        bool threw = td::threw;
        td::throw_at_call = td::throw_at_move = -1; td::threw = false;
        PBT_CHECK(threw == expect, "%s: the second run does not perform the same operations", name);
        PBT_CHECK(caught == expect, "%s: the exception thrown did not reach the caller", name);
        if (caught) PBT_CHECK(where == (what == in_call ? 1 : 0), "%s: another exception object", name);
    }
    i64 e2 = td::live_elems, b2 = al::live_blocks, y2 = al::live_bytes;
    PBT_CHECK(e2 == elems, "%s: %lld live elements instead of %lld after the exception", name, (long long)e2, (long long)elems);
    PBT_CHECK(b2 == blocks && y2 == bytes, "%s: %lld memory blocks (%lld bytes) leaked by the exception", name, (long long)(b2 - blocks), (long long)(y2 - bytes));
    std::size_t n = 0;
    for (auto& x: v) { ++n; PBT_CHECK(x.alive(), "%s: an element of the range is not alive after the exception", name); }
    PBT_CHECK(n == c.keys.size(), "%s: %zu elements instead of %zu after the exception", name, n, c.keys.size());
    if (!expect) verify(v.begin(), v.end(), c, name);
    else if (untouched && what == in_call) {
        for (auto& x: v) PBT_CHECK(x.readable(), "%s: an element of the range was moved from", name);
        verify_untouched(v.begin(), v.end(), c, name);
    }
    // the range can be refilled and sorted
    reassign(v, c.keys);
    S s{};
    call(s, v);
    verify(v.begin(), v.end(), c, name);
    v.clear();
    PBT_CHECK(td::live_elems == elems - (i64)c.keys.size(), "%s: wrong number of live elements in the end", name);
}

template<typename S, typename Cat, typename T, bool Untouched, bool MoveOk = true>
void t_exc(Src& src, const char* name, std::size_t limit)
{
    int where = (int)src.below(3);
    What what = MoveOk && src.below(2) ? in_move : in_call;
    Case c = draw(src, limit);
    src.note("where=%d ", where);
    auto call = [&](S& s, auto& v) { s(v, c.cmp(), c.proj()); };
    if (where == 0) return run<std::vector<T>, S, T>(src, name, c, what, Untouched, call);
    if (where == 1) return run<std::deque<T>, S, T>(src, name, c, what, Untouched, call);
    if constexpr (std::is_same<Cat, fwd_tag>::value) run<std::forward_list<T>, S, T>(src, name, c, what, Untouched, call);
    else if constexpr (std::is_same<Cat, bi_tag>::value) run<std::list<T>, S, T>(src, name, c, what, Untouched, call);
    else run<std::vector<T>, S, T>(src, name, c, what, Untouched, call);
}

struct ToInt { int operator()(const Elem& e) const { td::on_call(); return e.get(); } };
struct ToDouble { double operator()(const Elem& e) const { td::on_call(); return e.get() / 4.0; } };
struct ToString { std::string operator()(const Elem& e) const { td::on_call(); return std::to_string(e.get()); } };
struct ToPair { std::pair<int, bool> operator()(const Elem& e) const { td::on_call(); return {e.get() >> 1, e.get() & 1}; } };

template<typename S, typename P>
void t_typed(Src& src, const char* name)
{
    What what = src.below(2) ? in_move : in_call;
    Case c = draw(src, 1800, true);
    if (std::is_same<P, ToString>::value) for (auto& k: c.keys) k = std::abs(k);
    // the strings do not sort like the keys: look at them through fixed-width numbers
    struct Fixed { std::string operator()(const Elem& e) const { td::on_call(); char b[24]; std::snprintf(b, sizeof b, "%012d", e.get()); return b; } };
    using Q = std::conditional_t<std::is_same<P, ToString>::value, Fixed, P>;
    run<std::vector<Elem>, S, Elem>(src, name, c, what, false, [&](S& s, auto& v) { s(v, Q{}); });
}
template<typename S, typename P>
void add_t(const char* name)
{
    pbt::add_test(name, 2000, 40000, [name](Src& s) { t_typed<S, P>(s, name); });
}

template<template<std::size_t> class F, std::size_t N>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    What what = src.below(2) ? in_move : in_call;
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note_seq("keys", c.keys);
    run<std::vector<Elem>, F<N>, Elem>(src, name, c, what, false, [&](auto& s, auto& v) { s(v, c.cmp(), c.proj()); });
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns), 500, 10000, [name](Src& s) { t_fixed<F, Ns>(s, name); }), 0)...};
    (void)d;
}

template<int I, typename S, typename Cat, typename T, bool Quad, bool Untouched = false>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, 5000, 100000, [name](Src& s) { t_exc<S, Cat, T, Untouched>(s, name, Quad ? 120 : pbt::g_thorough ? 3000 : 1300); });
}
constexpr bool starts_with(const char* s, const char* p)
{
    while (*p) if (*s++ != *p++) return false;
    return true;
}

namespace cs = cppsort;
void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, Elem, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, ElemD, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, Elem, false, starts_with(NAME, "indirect")>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#ifndef BRANCHLESS
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_t<cs::ska_sorter, ToInt>("ska int")));
    A((add_t<cs::ska_sorter, ToDouble>("ska double")));
    A((add_t<cs::ska_sorter, ToPair>("ska pair")));
    A((add_t<cs::ska_sorter, ToString>("ska string")));
    A((add_t<cs::spread_sorter, ToInt>("spread int")));
    A((add_t<cs::spread_sorter, ToDouble>("spread double")));
    A((add_t<cs::spread_sorter, ToString>("spread string")));
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 4, 5, 8, 13, 17, 21, 32>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<2, 3, 6, 11>{})));
#endif
}
