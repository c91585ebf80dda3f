// C27: every form of callable as comparison and projection, for every sorter, adapter stack,
// fixed-size sorter, measure and tool. Functions refer to the order of the current case.
#include "sortcheck.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>

using namespace sc;
namespace cs = cppsort;

static const Case* g_case;          // for the functions without state
inline bool key_less(int a, int b) { td::on_call(); return g_case->order(gen::proj_apply(g_case->mode, a), gen::proj_apply(g_case->mode, b)); }

struct Key      // what some projections return
{
    int v;
    bool before(const Key& o) const { return key_less(v, o.v); }
    bool before_nc(Key& o) { return key_less(v, o.v); }
    friend bool operator<(const Key& a, const Key& b) { return key_less(a.v, b.v); }
    Key(int v): v(v) {}
};

// Elements: B is td::Elem (move-only, tracked), or PlainD for the sorters with a buffer
template<typename B>
struct E: B
{
    Key k;
    using Self = E;
    bool lt(const E& o) const { return key_less(this->get(), o.get()); }
    bool lt_nc(E& o) { return key_less(this->get(), o.get()); }
    int get_nc() { return this->get(); }
    const Key& key_ref() const { (void)this->get(); return k; }
    E(int key, int id): B(key, id), k(key) {}
    E(E&& o): B(std::move(o)), k(o.k.v) {}
    E& operator=(E&& o) { B::operator=(std::move(o)); k.v = this->key; return *this; }
};
struct ED: E<PlainD> { ED(): E(0, -1) {} using E::E; ED(ED&&) = default; ED& operator=(ED&&) = default; };
using EE = E<Elem>;

// Result convertible to bool and to nothing else
struct Truth
{
    bool b;
    operator bool() const& { return b; }
    operator bool() const&& { return b; }
    Truth(bool b): b(b) {}
    Truth(const Truth&) = delete;
    template<typename T> void operator&(T&&) const = delete;
};
// State lost when moved from
struct State
{
    bool valid = true;
    State() = default;
    State(const State& o): valid(o.valid) { o.check(); }
    State(State&& o): valid(o.valid) { o.check(); o.valid = false; }
    State& operator=(const State& o) { o.check(); valid = o.valid; return *this; }
    State& operator=(State&& o) { o.check(); valid = o.valid; if (&o != this) o.valid = false; return *this; }
    ~State() { *(volatile bool*)&valid = false; }
    void check() const { PBT_CHECK(valid, "a function object is used after being moved from or destroyed"); }
};
template<typename T>
struct F
{
    static bool fn(const T& a, const T& b) { return key_less(a.get(), b.get()); }
    static bool fn_noexcept(const T& a, const T& b) noexcept { return key_less(a.get(), b.get()); }
    static int fn_key(const T& e) { return e.get(); }
    static int& fn_key_nc(T& e) { return e.key; }
    static bool fn_int(int a, int b) { return key_less(a, b); }
    static int fn_rint(const int& a, const int& b) { return key_less(a, b) ? 4 : 0; }
};
struct StatefulCmp: State
{
    const Case* c;
    explicit StatefulCmp(const Case* c): c(c) {}
    Truth operator()(int a, int b) const { check(); td::on_call(); return c->less(a, b); }
};
struct StatefulProj final: State
{
    int offset;
    explicit StatefulProj(int o): offset(o) {}
    template<typename T> int operator()(const T& e) const { check(); return e.get() + offset - 5; }
};
struct MutableCmp
{
    const Case* c; unsigned long n = 0;
    int operator()(int a, int b) { ++n; td::on_call(); return c->less(a, b) ? -1 : 0; }
};
struct MutableProj
{
    unsigned long n = 0;
    template<typename T> const int operator()(const T& e) { ++n; return e.get(); }
};
struct Counted          // used through std::ref
{
    const Case* c; unsigned long n = 0;
    Counted(const Case* c): c(c) {}
    Counted(const Counted&) = delete;
    bool operator()(int a, int b) { ++n; td::on_call(); return c->less(a, b); }
};
struct NonConstCmp
{
    const Case* c;
    bool operator()(const int& a, const int& b) { td::on_call(); return c->less(a, b); }
};

enum { N_FORMS = 12 };
// Calls f(functions...) with the form-th combination of functions
template<typename T, bool NonConst = true, typename Fn>
void with_functions(int form, const Case& c, Fn&& f)
{
    switch (form) {
        case 0: { f(&F<T>::fn); break; }
        case 1: { using B = typename T::Self; bool (B::*m)(const B&) const = &B::lt; f(m); break; }
        case 2: { using P = std::conditional_t<NonConst, T, const T>; f([](P& a, P& b) { return key_less(a.get(), b.get()); }); break; }
        case 3: { f(StatefulCmp(&c), StatefulProj(5)); break; }
        case 4: { f(MutableCmp{&c}, MutableProj{}); break; }
        case 5: { f(&F<T>::fn_int, &T::key); break; }
        case 6: { f(&Key::before, &T::key_ref); break; }
        case 7: {
            std::function<bool(int, int)> cmp = [&c](int a, int b) { td::on_call(); return c.less(a, b); };
            std::function<int(const T&)> proj = [](const T& e) { return e.get(); };
            f(cmp, proj); break;
        }
        case 8: {
            Counted cmp(&c);
            auto proj = [](const T& e) -> const int& { return e.key; };
            f(std::ref(cmp), std::cref(proj));
            PBT_CHECK(c.keys.size() < 2 || cmp.n > 0, "the comparison wasn't called for %zu elements", c.keys.size());
            break;
        }
        case 9: { f(&T::k); break; }
        case 10: { f(NonConstCmp{&c}, &F<T>::fn_key); break; }
        case 11: {
            if constexpr (NonConst) f(&F<T>::fn_rint, &T::get_nc);
            else { int (Elem::*m)() const = &Elem::get; f(&F<T>::fn_rint, m); }
            break;
        }
    }
}

inline Case draw_case(Src& src, std::size_t max_n, const char* name, int& form)
{
    form = (int)src.below(N_FORMS);
    Case c = draw(src, max_n);
    coarsen(src, c);
    src.note("%s form=%d ", name, form);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    return c;
}

template<typename S, typename T, typename C>
void t_sort(Src& src, const char* name, bool stable, std::size_t max_n)
{
    int form;
    Case c = draw_case(src, max_n, name, form);
    g_case = &c;
    C v;
    fill<T>(v, c.keys);
    bool iterable = src.below(2);
    S sorter{};
    with_functions<T>(form, c, [&](auto&&... fs) {
        if (iterable) sorter(v, fs...);
        else sorter(v.begin(), v.end(), std::forward<decltype(fs)>(fs)...);
    });
    verify(v.begin(), v.end(), c, name, stable, name);
}
template<typename S, typename Cat, bool D, bool Quad>
void add_s(const char* name, bool stable)
{
    using T = std::conditional_t<D, ED, EE>;
    using C = std::conditional_t<std::is_base_of<ra_tag, Cat>::value, std::vector<T>, std::list<T>>;
    std::size_t lim = Quad ? 200 : pbt::g_thorough ? 5000 : 1500;
    pbt::add_test(name, 18000, 360000, [=](Src& s) { t_sort<S, T, C>(s, name, stable, lim); });
}

template<typename S, std::size_t N>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    int form = (int)src.below(N_FORMS);
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note("%s<%zu> form=%d ", name, N, form); src.note_seq("keys", c.keys);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    g_case = &c;
    std::vector<EE> v;
    fill<EE>(v, c.keys);
    with_functions<EE>(form, c, [&](auto&&... fs) { S{}(v.begin(), v.end(), fs...); });
    verify(v.begin(), v.end(), c, name);
}
template<template<std::size_t> class Fx, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns), 4000, 80000, [name](Src& s) { t_fixed<Fx<Ns>, Ns>(s, name); }), 0)...};
    (void)d;
}

template<typename P>
void t_probe(Src& src, const char* name)
{
    int form;
    Case c = draw_case(src, 80, name, form);
    g_case = &c;
    std::list<EE> v;
    fill<EE>(v, c.keys);
    std::vector<Plain> ref;
    fill(ref, c.keys);
    long long want = (long long)P{}(ref.begin(), ref.end(), c.cmp(), c.proj()), got = -1;
    bool iterable = src.below(2);
    with_functions<EE, false>(form, c, [&](auto&&... fs) {
        if (iterable) got = (long long)P{}(v, fs...);
        else got = (long long)P{}(v.begin(), v.end(), fs...);
    });
    PBT_CHECK(got == want, "%s: %lld instead of %lld", name, got, want);
    verify_untouched(v.begin(), v.end(), c, name);
}
template<typename P> void add_p(const char* name) { pbt::add_test(std::string("probe ") + name, 12000, 240000, [name](Src& s) { t_probe<P>(s, name); }); }

// Permutations
template<typename S>
void t_perm(Src& src, const char* name)
{
    int form;
    Case c = draw_case(src, 300, name, form);
    g_case = &c;
    std::vector<EE> v;
    fill<EE>(v, c.keys);
    auto check = [&](std::size_t size, auto at, const char* what) {
        PBT_CHECK(size == c.keys.size(), "%s: %zu results", what, size);
        for (std::size_t i = 1; i < size; ++i) PBT_CHECK(!c.less(at(i), at(i - 1)), "%s: not sorted at position %zu", what, i);
    };
    with_functions<EE>(form, c, [&](auto&&... fs) {
        auto idx = su::sorted_indices<S>{}(v, fs...);
        check(idx.size(), [&](std::size_t i) { return c.keys.at((std::size_t)idx[i]); }, "sorted_indices");
        auto its = su::sorted_iterators<S>{}(v.begin(), v.end(), fs...);
        check(its.size(), [&](std::size_t i) { return its[i]->key; }, "sorted_iterators");
    });
    verify_untouched(v.begin(), v.end(), c, name);
}

// Type-specific sorters: projections
template<typename S>
void t_typed(Src& src, const char* name, bool counting)
{
    int form = (int)src.below(8);
    Case c = draw(src, 2200, true);
    src.note("%s form=%d ", name, form);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    if (counting) for (auto& k: c.keys) k %= 3000;
    g_case = &c;
    std::vector<EE> v;
    fill<EE>(v, c.keys);
    S s{};
    switch (form) {
        case 0: s(v, &EE::key); break;
        case 1: { int (EE::*m)() const = &EE::get; s(v, m); break; }
        case 2: s(v, &EE::get_nc); break;
        case 3: s(v, StatefulProj(5)); break;
        case 4: s(v.begin(), v.end(), MutableProj{}); break;
        case 5: s(v, &F<EE>::fn_key); break;
        case 6: { std::function<int(const EE&)> f = &F<EE>::fn_key; s(v, f); break; }
        case 7: { auto f = [&](const EE& e) -> const int& { return e.key; }; s(v.begin(), v.end(), std::ref(f)); break; }
    }
    verify(v.begin(), v.end(), c, name);
}

// keys of other types: strings and floating point numbers, with and without projection and order
template<typename V> V make_value(int k)
{
    if constexpr (std::is_same<V, std::string>::value) { char b[24]; snprintf(b, sizeof b, "some key %08d", k + 100000); return b; }
    else return (V)k;
}
template<typename V>
struct Cell
{
    V v; int key, id;
    Cell(int k, int i): v(make_value<V>(k)), key(k), id(i) {}
    Cell(Cell&&) = default;
    Cell& operator=(Cell&&) = default;
    const V& value() const { return v; }
};
struct StatefulValue: State { template<typename T> auto operator()(const T& c) const -> const decltype(c.v)& { check(); return c.v; } };
struct MutableValue { unsigned long n = 0; template<typename T> auto operator()(const T& c) -> const decltype(c.v)& { ++n; return c.v; } };
template<typename S, typename V, bool Desc>
void t_value(Src& src, const char* name)
{
    int form = (int)src.below(6);
    Case c = draw(src, 2200, true);
    src.note("%s form=%d ", name, form);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    bool desc = Desc && src.below(2);
    for (auto& k: c.keys) k %= 30000;
    if (desc) { c.order = gen::Order{}; c.mode = 0; }
    using C = Cell<V>;
    std::vector<C> v;
    fill<C>(v, c.keys);
    S s{};
    auto call = [&](auto&& proj) {
        if constexpr (Desc) { if (desc) { s(v, std::greater<>{}, std::forward<decltype(proj)>(proj)); return; } }
        s(v, std::forward<decltype(proj)>(proj));
    };
    switch (form) {
        case 0: call(&C::v); break;
        case 1: call(&C::value); break;
        case 2: call(StatefulValue{}); break;
        case 3: call(MutableValue{}); break;
        case 4: { std::function<const V&(const C&)> f = &C::value; call(f); break; }
        case 5: { auto f = [](const C& e) -> V { return e.v; }; call(std::ref(f)); break; }
    }
    if (desc) std::reverse(v.begin(), v.end());
    verify(v.begin(), v.end(), c, name);
}

// algorithms for whole containers
template<typename S, typename C>
void t_container(Src& src, const char* name, bool stable)
{
    int form;
    Case c = draw_case(src, 400, name, form);
    g_case = &c;
    C v;
    fill<EE>(v, c.keys);
    S sorter{};
    with_functions<EE>(form, c, [&](auto&&... fs) { sorter(v, fs...); });
    verify(v.begin(), v.end(), c, name, stable, name);
}

template<int I, typename S, typename Cat, bool D, bool Quad>
void maybe(const char* name, bool stable) { if constexpr (I % NPARTS == PART) add_s<S, Cat, D, Quad>(name, stable); }

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, false, QUAD>(NAME, STABLE);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, true, QUAD>(NAME, STABLE);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false, false>(NAME, STABLE);
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 4, 5, 8, 13, 16>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<2, 3, 4, 5, 7, 11>{})));
    A((add_fixed<cs::odd_even_merge_network_sorter>("odd_even_merge", std::index_sequence<2, 4, 8>{})));
#define P(NAME) A((add_p<std::decay_t<decltype(cs::probe::NAME)>>(#NAME)));
    P(block) P(dis) P(enc) P(exc) P(ham) P(inv) P(max) P(mono) P(osc) P(par) P(rem) P(runs) P(sus)
#define Q(S) A((pbt::add_test("permutations " #S, 10000, 200000, [](Src& s) { t_perm<cs::S>(s, #S); })));
    Q(heap_sorter) Q(merge_sorter) Q(pdq_sorter)
#define V(S, TYPE, DESC) A((pbt::add_test(#S " " #TYPE, 10000, 200000, [](Src& s) { t_value<cs::S, TYPE, DESC>(s, #S " " #TYPE); })));
    using std::string;
    V(ska_sorter, int, false) V(ska_sorter, double, false) V(ska_sorter, string, false)
    V(spread_sorter, int, false) V(spread_sorter, double, false) V(spread_sorter, string, true) V(float_spread_sorter, float, false)
    V(integer_spread_sorter, short, false) V(string_spread_sorter, string, true)
#define L(S, STABLE) A((pbt::add_test("list " #S, 10000, 200000, [](Src& s) { t_container<cs::container_aware_adapter<cs::S>, std::list<EE>>(s, "list " #S, STABLE); }))); \
                     A((pbt::add_test("forward_list " #S, 10000, 200000, [](Src& s) { t_container<cs::container_aware_adapter<cs::S>, std::forward_list<EE>>(s, "forward_list " #S, STABLE); })));
    L(insertion_sorter, true) L(mel_sorter, false) L(merge_sorter, true) L(selection_sorter, false) L(quick_sorter, false)
    A((pbt::add_test("self_sort list", 10000, 200000, [](Src& s) { t_container<cs::self_sort_adapter<cs::quick_sorter>, std::list<EE>>(s, "self_sort list", false); })));
    A((pbt::add_test("stable self_sort forward_list", 10000, 200000, [](Src& s) { t_container<cs::stable_adapter<cs::self_sort_adapter<cs::quick_sorter>>, std::forward_list<EE>>(s, "stable self_sort forward_list", true); })));
    A((pbt::add_test("ska", 10000, 200000, [](Src& s) { t_typed<cs::ska_sorter>(s, "ska", false); })));
    A((pbt::add_test("spread", 10000, 200000, [](Src& s) { t_typed<cs::spread_sorter>(s, "spread", false); })));
}
