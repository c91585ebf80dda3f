// C26, second unit: iterators with real references and dedicated iter_move and/or iter_swap. The elements
// of the range refuse to be moved or swapped in another way than through the functions of their iterators.
#include "sortcheck.h"
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/iter_move.h>
#include <cpp-sort/utility/sorted_indices.h>

using namespace sc;
namespace cs = cppsort;

// Kinds of access
enum Kind { MOVE,       // iter_move returns an rvalue reference
            VALUE,      // iter_move returns an object
            BOTH,       // iter_move and iter_swap
            SWAP };     // iter_swap alone

struct XElem
{
    enum State { LIVE = 0x51fe, MOVED = 0x77, DEAD = 0x13 };
    int key, id, state = LIVE;
    bool ticket = false;                // iter_move was called for the element
    static const char *lo, *hi;         // the elements of the range
    static bool free_moves;             // no dedicated iter_move
    static long long cust_moves, cust_swaps;

    XElem(int k, int i): key(k), id(i) {}
    XElem(XElem&& o): key(o.key), id(o.id), state(o.state) { check_state(o); leave(o); }
    XElem& operator=(XElem&& o)
    {
        PBT_CHECK(state != DEAD, "assignment to a destroyed element");
        check_state(o);
        if (&o == this) { ticket = false; return *this; }
        key = o.key; id = o.id; state = o.state;
        leave(o);
        return *this;
    }
    ~XElem() { state = DEAD; }
    static bool inside(const XElem& e) { auto p = (const char*)&e; return p >= lo && p < hi; }
    static void check_state(const XElem& o) { PBT_CHECK(o.state == LIVE || o.state == MOVED, "an element which doesn't exist is moved"); }
    static void leave(XElem& o)
    {
        PBT_CHECK(free_moves || !inside(o) || o.ticket, "the element %d is moved out of the range without iter_move", o.id);
        o.ticket = false;
        o.state = MOVED;
    }
    int get() const { PBT_CHECK(state == LIVE, "an element moved away or destroyed is used"); return key; }
    friend void swap(XElem& a, XElem& b)
    {
        PBT_CHECK(!inside(a) && !inside(b), "the elements %d and %d are swapped without the functions of their iterators", a.id, b.id);
        std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.state, b.state);
    }
    friend bool operator<(const XElem& a, const XElem& b) { td::on_call(); return a.get() < b.get(); }
    friend bool operator>(const XElem& a, const XElem& b) { td::on_call(); return a.get() > b.get(); }
};
const char *XElem::lo, *XElem::hi;
bool XElem::free_moves;
long long XElem::cust_moves, XElem::cust_swaps;
struct XElemD: XElem
{
    XElemD(): XElem(-7, -7) {}
    using XElem::XElem;
};

template<typename V, Kind K, typename Cat>
class XIt
{
    V* p = nullptr;
    static constexpr bool is_ra = std::is_base_of<ra_tag, Cat>::value;
    static constexpr bool is_bi = std::is_base_of<bi_tag, Cat>::value;
    XIt& to(V* np) { p = np; PBT_CHECK((const char*)p >= XElem::lo && (const char*)p <= XElem::hi, "iterator moved outside of the range"); return *this; }
public:
    using iterator_category = Cat;
    using value_type = V;
    using difference_type = std::ptrdiff_t;
    using pointer = V*;
    using reference = V&;

    XIt() = default;
    explicit XIt(V* p): p(p) {}
    V& operator*() const { PBT_CHECK((const char*)p >= XElem::lo && (const char*)p < XElem::hi, "iterator dereferenced outside of the range"); return *p; }
    V* operator->() const { return p; }
    XIt& operator++() { return to(p + 1); }
    XIt operator++(int) { auto r = *this; ++*this; return r; }
    template<bool B = is_bi, std::enable_if_t<B, int> = 0> XIt& operator--() { return to(p - 1); }
    template<bool B = is_bi, std::enable_if_t<B, int> = 0> XIt operator--(int) { auto r = *this; --*this; return r; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> XIt& operator+=(std::ptrdiff_t n) { return to(p + n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> XIt& operator-=(std::ptrdiff_t n) { return to(p - n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> V& operator[](std::ptrdiff_t n) const { return *(*this + n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend XIt operator+(XIt a, std::ptrdiff_t n) { return a += n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend XIt operator+(std::ptrdiff_t n, XIt a) { return a += n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend XIt operator-(XIt a, std::ptrdiff_t n) { return a -= n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend std::ptrdiff_t operator-(const XIt& a, const XIt& b) { return a.p - b.p; }
    friend bool operator==(const XIt& a, const XIt& b) { return a.p == b.p; }
    friend bool operator!=(const XIt& a, const XIt& b) { return a.p != b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator<(const XIt& a, const XIt& b) { return a.p < b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator>(const XIt& a, const XIt& b) { return a.p > b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator<=(const XIt& a, const XIt& b) { return a.p <= b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator>=(const XIt& a, const XIt& b) { return a.p >= b.p; }
    V& punch() const { ++XElem::cust_moves; (**this).ticket = true; return *p; }
    void own_swap(const XIt& o) const
    {
        ++XElem::cust_swaps;
        V &a = **this, &b = *o;
        std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.state, b.state);
    }
};
template<typename V, Kind K, typename Cat, std::enable_if_t<K == MOVE || K == BOTH, int> = 0>
V&& iter_move(const XIt<V, K, Cat>& it) { return std::move(it.punch()); }
template<typename V, Kind K, typename Cat, std::enable_if_t<K == VALUE, int> = 0>
V iter_move(const XIt<V, K, Cat>& it) { return std::move(it.punch()); }
template<typename V, Kind K, typename Cat, std::enable_if_t<K == BOTH || K == SWAP, int> = 0>
void iter_swap(const XIt<V, K, Cat>& a, const XIt<V, K, Cat>& b) { a.own_swap(b); }

struct XProj
{
    int mode = 0;
    template<typename T> int operator()(const T& e) const { td::on_call(); return gen::proj_apply(mode, e.get()); }
};
struct XKey { template<typename T> const int& operator()(const T& e) const { td::on_call(); e.get(); return e.key; } };
struct XCmp
{
    gen::Order order; int mode = 0;
    template<typename A, typename B> bool operator()(const A& a, const B& b) const
    {
        td::on_call();
        return order(gen::proj_apply(mode, a.get()), gen::proj_apply(mode, b.get()));
    }
};
template<typename T> struct Span { T b, e; T begin() const { return b; } T end() const { return e; } };

template<typename V, Kind K>
struct Range
{
    std::vector<V> v;
    explicit Range(const Case& c)
    {
        v.reserve(c.keys.size() + 1);
        for (std::size_t i = 0; i < c.keys.size(); ++i) v.emplace_back(c.keys[i], (int)i);
        XElem::lo = (const char*)v.data(); XElem::hi = (const char*)(v.data() + v.size());
        XElem::free_moves = K == SWAP;
        XElem::cust_moves = XElem::cust_swaps = 0;
    }
    template<typename Cat> XIt<V, K, Cat> first() { return XIt<V, K, Cat>(v.data()); }
    template<typename Cat> XIt<V, K, Cat> last() { return XIt<V, K, Cat>(v.data() + v.size()); }
    void check(const char* name)
    {
        for (auto& e: v) PBT_CHECK(e.state == XElem::LIVE, "%s: an element of the range was moved away", name);
    }
};

template<typename S, typename V, Kind K, typename Cat, bool Reverse>
void t_sort(Src& src, const char* name, bool stable, std::size_t max_n)
{
    int funcs = (int)src.below(5);      // 0: natural order, 1: comparison, 2: projection, 3: both, 4: projection to a reference
    bool iterable = src.below(2);
    Case c = draw(src, max_n, funcs == 0 || funcs == 4);
    coarsen(src, c);
    if (funcs == 2) c.order = gen::Order{};
    src.note("%s functions=%d%s ", name, funcs, iterable ? " iterable" : "");
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Range<V, K> r(c);
    auto call = [&](auto first, auto last) {
        S sorter{};
        Span<decltype(first)> sp{first, last};
        if (iterable) {
            if (funcs == 0) sorter(sp);
            else if (funcs == 1) sorter(sp, XCmp{c.order, c.mode});
            else if (funcs == 2) sorter(sp, XProj{c.mode});
            else if (funcs == 4) sorter(sp, XKey{});
            else sorter(sp, c.cmp(), XProj{c.mode});
        } else {
            if (funcs == 0) sorter(first, last);
            else if (funcs == 1) sorter(first, last, XCmp{c.order, c.mode});
            else if (funcs == 2) sorter(first, last, XProj{c.mode});
            else if (funcs == 4) sorter(first, last, XKey{});
            else sorter(first, last, c.cmp(), XProj{c.mode});
        }
    };
    auto b = r.template first<Cat>(), e = r.template last<Cat>();
    if constexpr (Reverse) call(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
    else call(b, e);
    r.check(name);
    if (Reverse) {
        std::vector<Plain> w;
        int n = (int)c.keys.size();
        for (auto i = r.v.rbegin(); i != r.v.rend(); ++i) w.push_back({i->key, n - 1 - i->id});
        std::reverse(c.keys.begin(), c.keys.end());
        verify(w.begin(), w.end(), c, name, stable, name);
    } else verify(r.v.begin(), r.v.end(), c, name, stable, name);
}

template<int I, typename S, typename Cat, bool D, bool Quad>
void maybe(const char* name, bool stable)
{
    if constexpr (I % NPARTS == PART && !std::is_same<S, cs::std_sorter>::value) {
        std::string n = name;
        using V = std::conditional_t<D, XElemD, XElem>;
        std::size_t lim = Quad ? 200 : pbt::g_thorough ? 5000 : 1400;
        constexpr bool odd = I / NPARTS % 2 == 1;
        pbt::add_test(n + "/iter_move&&", 3000, 60000, [=](Src& s) { t_sort<S, V, MOVE, Cat, false>(s, name, stable, lim); });
        if constexpr (odd) pbt::add_test(n + "/iter_move value", 3000, 60000, [=](Src& s) { t_sort<S, V, VALUE, Cat, false>(s, name, stable, lim); });
        else pbt::add_test(n + "/iter_move&& and iter_swap", 3000, 60000, [=](Src& s) { t_sort<S, V, BOTH, Cat, false>(s, name, stable, lim); });
        if constexpr (!D && odd) pbt::add_test(n + "/reverse", 2000, 40000, [=](Src& s) { t_sort<S, V, MOVE, std::conditional_t<std::is_base_of<bi_tag, Cat>::value, Cat, bi_tag>, true>(s, name, stable, lim); });
        if constexpr (!odd) pbt::add_test(n + "/iter_swap", 2000, 40000, [=](Src& s) { t_sort<S, V, SWAP, Cat, false>(s, name, stable, lim); });
    }
}

// Fixed-size sorters
template<template<std::size_t> class F, std::size_t N, Kind K>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note("%s<%zu> ", name, N); src.note_seq("keys", c.keys);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Range<XElem, K> r(c);
    auto b = r.template first<ra_tag>(), e = r.template last<ra_tag>();
    if (src.below(2)) F<N>{}(b, e, c.cmp(), XProj{c.mode});
    else F<N>{}(b, e, XCmp{c.order, c.mode});
    r.check(name);
    verify(r.v.begin(), r.v.end(), c, name);
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns) + "/iter_move&&", 800, 16000, [name](Src& s) { t_fixed<F, Ns, MOVE>(s, name); }),
                pbt::add_test(std::string(name) + std::to_string(Ns) + "/iter_swap", 800, 16000, [name](Src& s) { t_fixed<F, Ns, SWAP>(s, name); }),
                pbt::add_test(std::string(name) + std::to_string(Ns) + "/iter_move&& and iter_swap", 800, 16000, [name](Src& s) { t_fixed<F, Ns, BOTH>(s, name); }), 0)...};
    (void)d;
}

template<typename S, Kind K, int Key>
void t_typed(Src& src, const char* name)
{
    Case c = draw(src, 1600, true);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    if (Key == 2) for (auto& k: c.keys) k = k % 10000;
    Range<XElem, K> r(c);
    auto proj = [](const auto& e) {
        if constexpr (Key == 0) return e.get();
        else if constexpr (Key == 1) return (double)e.get();
        else { char s[16]; snprintf(s, sizeof s, "key%08d", e.get() + 50000); return std::string(s); }
    };
    S{}(r.template first<ra_tag>(), r.template last<ra_tag>(), proj);
    r.check(name);
    verify(r.v.begin(), r.v.end(), c, name);
}

template<typename S, Kind K>
void t_perm(Src& src, const char* name)
{
    Case c = draw(src, 200);
    coarsen(src, c);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 3 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Range<XElem, K> r(c);
    auto b = r.template first<ra_tag>(), e = r.template last<ra_tag>();
    auto idx = su::sorted_indices<S>{}(b, e, c.cmp(), XProj{c.mode});
    su::apply_permutation(b, e, idx.begin(), idx.end());
    r.check(name);
    verify(r.v.begin(), r.v.end(), c, name);
}

// utility::iter_move and utility::iter_swap themselves, for the iterators and what adapts them
template<Kind K, int Adapt>
void t_points(Src& src)
{
    std::size_t n = 2 + src.below(6);
    Case c;
    for (std::size_t i = 0; i < n; ++i) c.keys.push_back((int)src.below(50));
    src.note_seq("keys", c.keys);
    td::reset_counters();
    Range<XElem, K> r(c);
    std::vector<int> order;         // ids, model
    for (std::size_t i = 0; i < n; ++i) order.push_back((int)i);
    auto at = [&](std::size_t i) {
        using It = XIt<XElem, K, ra_tag>;
        if constexpr (Adapt == 0) return It(r.v.data() + i);
        else if constexpr (Adapt == 1) return std::make_reverse_iterator(It(r.v.data() + i + 1));
        else return std::make_reverse_iterator(std::make_reverse_iterator(It(r.v.data() + i)));
    };
    bool moved = false;
    for (std::size_t k = 1 + src.below(8); k > 0; --k) {
        std::size_t i = src.below(n), j = src.below(n);
        using su::iter_move; using su::iter_swap;
        auto m = XElem::cust_moves, s = XElem::cust_swaps;
        int op = K == SWAP ? 0 : (int)src.below(3);
        if (op == 0) {
            src.note("swap(%zu,%zu) ", i, j);
            iter_swap(at(i), at(j));
            std::swap(order[i], order[j]);
            if (K == BOTH || K == SWAP) PBT_CHECK(XElem::cust_swaps == s + 1 && XElem::cust_moves == m, "iter_swap of the iterators not called");
            else PBT_CHECK(XElem::cust_swaps == s && XElem::cust_moves == m + 2, "iter_swap made %lld calls of iter_move", XElem::cust_moves - m);
        } else {
            src.note("exchange(%zu,%zu) ", i, j);
            static_assert(K != MOVE || std::is_same<decltype(iter_move(at(i))), XElem&&>::value, "");
            static_assert(K != VALUE || std::is_same<decltype(iter_move(at(i))), XElem>::value, "");
            XElem v = iter_move(at(i));
            PBT_CHECK(XElem::cust_moves == m + 1, "iter_move of the iterators not called");
            if (i != j) *at(i) = iter_move(at(j));
            *at(j) = std::move(v);
            std::swap(order[i], order[j]);
        }
        moved |= i != j;
    }
    src.nontrivial_if(moved);
    for (std::size_t i = 0; i < n; ++i)
        PBT_CHECK(r.v[i].state == XElem::LIVE && r.v[i].id == order[i] && r.v[i].key == c.keys[order[i]], "position %zu holds the element %d instead of %d", i, r.v[i].id, order[i]);
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, false, QUAD>(NAME, STABLE);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, true, QUAD>(NAME, STABLE);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false, false>(NAME, STABLE);
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 5, 8, 13, 16>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<2, 3, 5, 11>{})));
    A((add_fixed<cs::odd_even_merge_network_sorter>("odd_even_merge", std::index_sequence<2, 4, 8>{})));
#define Q(S) A((pbt::add_test("permutations " #S "/iter_move&&", 2800, 56000, [](Src& s) { t_perm<cs::S, MOVE>(s, #S); }))); \
             A((pbt::add_test("permutations " #S "/iter_move value", 2800, 56000, [](Src& s) { t_perm<cs::S, VALUE>(s, #S); })));
    Q(heap_sorter) Q(merge_sorter)
#define T(S, KEY, TYPE) A((pbt::add_test(#S " " TYPE "/iter_move&&", 3000, 60000, [](Src& s) { t_typed<cs::S, MOVE, KEY>(s, #S " " TYPE); }))); \
             A((pbt::add_test(#S " " TYPE "/iter_move&& and iter_swap", 3000, 60000, [](Src& s) { t_typed<cs::S, BOTH, KEY>(s, #S " " TYPE); })));
    T(ska_sorter, 0, "int") T(ska_sorter, 1, "double") T(ska_sorter, 2, "string")
    T(spread_sorter, 0, "int") T(spread_sorter, 1, "double") T(spread_sorter, 2, "string")
#define M(K) A((pbt::add_test("iter_move and iter_swap " #K, 8000, 160000, t_points<K, 0>))); \
             A((pbt::add_test("iter_move and iter_swap " #K " reversed", 8000, 160000, t_points<K, 1>))); \
             A((pbt::add_test("iter_move and iter_swap " #K " reversed twice", 8000, 160000, t_points<K, 2>)));
    M(MOVE) M(VALUE) M(BOTH) M(SWAP)
}
