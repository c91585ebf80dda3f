// C26: sequences behind proxy iterators. Rows of two columns (a key and a tracked element), behind
// iterators whose reference is a temporary, with or without dedicated iter_move and iter_swap;
// std::vector<bool>; reverse iterators over all of them.
#include "sortcheck.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/iter_move.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>

using namespace sc;
namespace cs = cppsort;

struct Table
{
    std::vector<int> key;
    td::Buffer<Elem> item;
    explicit Table(const std::vector<int>& keys):
        key(keys), item(keys.size(), 0, [&](Elem* p, i64 i) { new (p) Elem(keys[i], (int)i); }) {}
};

// A row out of the table
struct Row
{
    int key;
    Elem item;
    Row(int k, Elem&& e): key(k), item(std::move(e)) {}
    Row(int k, int ek, int id): key(k), item(ek, id) { item.state = Elem::MOVED; }
    Row(Row&&) = default;
    Row& operator=(Row&&) = default;
    int get() const
    {
        PBT_CHECK(item.state == Elem::LIVE && item.key == key, "a row is used whose columns do not belong together or are gone (key %d, element %d)", key, item.key);
        return key;
    }
};
struct RowD: Row { RowD(): Row(0, Elem(0, -1)) {} using Row::Row; };
struct RowC         // copyable, without resources
{
    int key, id;
    int get() const { return key; }
};
struct RowCD: RowC { RowCD(): RowC{0, -1} {} RowCD(int k, int i): RowC{k, i} {} };

// Kinds of access
enum Kind { CUSTOM,         // dedicated iter_move and iter_swap, the reference only takes rows
            MOVE_ONLY,      // dedicated iter_move only
            PLAIN_PROXY };  // nothing dedicated: copies, assignments and swap of the references

template<typename V>
struct Ref
{
    using T = Table;
    T* t; std::size_t i;
    int self = 1;
    Ref(T* t, std::size_t i): t(t), i(i) {}
    Ref(const Ref& o): t(o.t), i(o.i) { o.check(); }
    ~Ref() { *(volatile int*)&self = 0; }
    void check() const { PBT_CHECK(self == 1 && t != nullptr, "a reference to a row is used after its destruction"); }
    const Ref& operator=(V&& v) const
    {
        check(); t->key[i] = v.key;
        if (v.item.state == Elem::LIVE) t->item[i] = std::move(v.item);
        else t->item[i].state = Elem::MOVED;
        return *this;
    }
    Ref& operator=(const Ref&) = delete;
    int get() const
    {
        check();
        const Elem& e = t->item[i];
        PBT_CHECK(e.state == Elem::LIVE && e.key == t->key[i], "a row is used whose columns do not belong together or are gone (row %zu: key %d, element %d)",
                  i, t->key[i], e.key);
        return t->key[i];
    }
};
template<typename V>
struct RefC
{
    Table* t; std::size_t i;
    int self = 1;
    RefC(Table* t, std::size_t i): t(t), i(i) {}
    RefC(const RefC& o): t(o.t), i(o.i) { o.check(); }
    ~RefC() { *(volatile int*)&self = 0; }
    void check() const { PBT_CHECK(self == 1 && t != nullptr, "a reference to a row is used after its destruction"); }
    const RefC& operator=(const V& v) const { check(); t->key[i] = v.key; t->item[i].id = v.id; t->item[i].key = v.key; return *this; }
    const RefC& operator=(const RefC& o) const { check(); o.check(); return *this = V(o); }
    operator V() const { check(); return V{t->key[i], t->item[i].id}; }
    int get() const { check(); return t->key[i]; }
    const int& key_ref() const { check(); return t->key[i]; }
    friend void swap(RefC a, RefC b) { V tmp = a; a = b; b = tmp; }
};
template<typename T> struct is_row: std::false_type {};
template<> struct is_row<Row>: std::true_type {};
template<> struct is_row<RowD>: std::true_type {};
template<> struct is_row<RowC>: std::true_type {};
template<> struct is_row<RowCD>: std::true_type {};
template<typename V> struct is_row<Ref<V>>: std::true_type {};
template<typename V> struct is_row<RefC<V>>: std::true_type {};
template<typename A, typename B, typename = std::enable_if_t<is_row<A>::value && is_row<B>::value>>
bool operator<(const A& a, const B& b) { td::on_call(); return a.get() < b.get(); }
template<typename A, typename B, typename = std::enable_if_t<is_row<A>::value && is_row<B>::value>>
bool operator>(const A& a, const B& b) { td::on_call(); return b.get() < a.get(); }

template<typename V, Kind K, typename Cat>
class RIt
{
    Table* t = nullptr;
    std::ptrdiff_t p = 0;
    static constexpr bool is_ra = std::is_base_of<ra_tag, Cat>::value;
    static constexpr bool is_bi = std::is_base_of<bi_tag, Cat>::value;
    void deref_ok() const { if (!t || p < 0 || (std::size_t)p >= t->key.size()) pbt::fail("proxy iterator dereferenced outside of the range (offset %td)", p); }
    RIt& to(std::ptrdiff_t np) { if (!t || np < 0 || (std::size_t)np > t->key.size()) pbt::fail("proxy iterator moved outside of the range (offset %td)", np); p = np; return *this; }
    void same(const RIt& o) const { if (t != o.t || !t) pbt::fail("proxy iterators of different ranges"); }
public:
    using iterator_category = Cat;
    using value_type = V;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = std::conditional_t<K == PLAIN_PROXY, RefC<V>, Ref<V>>;

    RIt() = default;
    RIt(Table* t, std::ptrdiff_t p): t(t), p(p) {}
    reference operator*() const { deref_ok(); return reference(t, (std::size_t)p); }
    RIt& operator++() { return to(p + 1); }
    RIt operator++(int) { auto r = *this; ++*this; return r; }
    template<bool B = is_bi, std::enable_if_t<B, int> = 0> RIt& operator--() { return to(p - 1); }
    template<bool B = is_bi, std::enable_if_t<B, int> = 0> RIt operator--(int) { auto r = *this; --*this; return r; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> RIt& operator+=(std::ptrdiff_t n) { return to(p + n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> RIt& operator-=(std::ptrdiff_t n) { return to(p - n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> reference operator[](std::ptrdiff_t n) const { return *(*this + n); }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend RIt operator+(RIt a, std::ptrdiff_t n) { return a += n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend RIt operator+(std::ptrdiff_t n, RIt a) { return a += n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend RIt operator-(RIt a, std::ptrdiff_t n) { return a -= n; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend std::ptrdiff_t operator-(const RIt& a, const RIt& b) { a.same(b); return a.p - b.p; }
    friend bool operator==(const RIt& a, const RIt& b) { a.same(b); return a.p == b.p; }
    friend bool operator!=(const RIt& a, const RIt& b) { a.same(b); return a.p != b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator<(const RIt& a, const RIt& b) { a.same(b); return a.p < b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator>(const RIt& a, const RIt& b) { a.same(b); return a.p > b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator<=(const RIt& a, const RIt& b) { a.same(b); return a.p <= b.p; }
    template<bool B = is_ra, std::enable_if_t<B, int> = 0> friend bool operator>=(const RIt& a, const RIt& b) { a.same(b); return a.p >= b.p; }
    void own_swap(const RIt& o) const
    {
        deref_ok(); o.deref_ok(); same(o);
        if (p == o.p) return;
        std::swap(t->key[p], t->key[o.p]);
        std::swap(t->item[p], t->item[o.p]);
    }
    // moving out of a row twice is fine as long as nobody looks at the result, as when swapping a row with itself
    V own_move() const
    {
        deref_ok();
        Elem& e = t->item[p];
        if (e.state == Elem::LIVE) return V(t->key[p], std::move(e));
        return V(t->key[p], e.key, e.id);
    }
};
template<typename V, Kind K, typename Cat, std::enable_if_t<K != PLAIN_PROXY, int> = 0>
V iter_move(const RIt<V, K, Cat>& it) { return it.own_move(); }
template<typename V, Kind K, typename Cat, std::enable_if_t<K == CUSTOM, int> = 0>
void iter_swap(const RIt<V, K, Cat>& a, const RIt<V, K, Cat>& b) { a.own_swap(b); }

struct KeyProj          // projection returning a value
{
    int mode = 0;
    template<typename T> int operator()(const T& e) const { td::on_call(); return gen::proj_apply(mode, e.get()); }
};
struct RefProj          // projection returning a reference to the key
{
    template<typename V> const int& operator()(const RefC<V>& r) const { td::on_call(); return r.key_ref(); }
    const int& operator()(const RowC& r) const { td::on_call(); return r.key; }
};
struct RowCmp           // on rows
{
    gen::Order order; int mode = 0;
    template<typename A, typename B> bool operator()(const A& a, const B& b) const
    {
        td::on_call();
        return order(gen::proj_apply(mode, a.get()), gen::proj_apply(mode, b.get()));
    }
};

struct IdKey { int id, key; };
inline void verify_table(Table& t, const Case& c, bool stable, bool reversed, const char* what)
{
    std::vector<IdKey> r;
    for (std::size_t i = 0; i < t.key.size(); ++i) {
        const Elem& e = t.item.begin()[i];
        PBT_CHECK(e.state == Elem::LIVE, "%s: the element of row %zu was moved away", what, i);
        PBT_CHECK(e.key == t.key[i], "%s: row %zu has the key %d but the element of key %d", what, i, t.key[i], e.key);
        r.push_back({e.id, e.key});
    }
    if (reversed) {
        std::reverse(r.begin(), r.end());
        // ids in the order of traversal
        int n = (int)r.size();
        Case c2 = c;
        std::reverse(c2.keys.begin(), c2.keys.end());
        for (auto& x: r) x.id = n - 1 - x.id;
        verify(r.begin(), r.end(), c2, what, stable, what);
        return;
    }
    verify(r.begin(), r.end(), c, what, stable, what);
}

template<typename T> struct Span
{
    T b, e;
    T begin() const { return b; }
    T end() const { return e; }
};

template<typename S, typename V, Kind K, typename Cat, bool Reverse>
void t_rows(Src& src, const char* name, bool stable, std::size_t max_n)
{
    int funcs = (int)src.below(4);      // 0: natural order, 1: comparison, 2: projection, 3: both
    bool iterable = src.below(2);
    Case c = draw(src, max_n, funcs == 0);
    coarsen(src, c);
    if (funcs == 2) c.order = gen::Order{};
    src.note("%s functions=%d%s ", name, funcs, iterable ? " iterable" : "");
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Table t(c.keys);
    using It = RIt<V, K, Cat>;
    It b(&t, 0), e(&t, (std::ptrdiff_t)c.keys.size());
    auto call = [&](auto first, auto last) {
        S sorter{};
        Span<decltype(first)> sp{first, last};
        if constexpr (K == CUSTOM) {
            if (iterable) {
                if (funcs == 0) sorter(sp);
                else if (funcs == 1) sorter(sp, RowCmp{c.order, c.mode});
                else if (funcs == 2) sorter(sp, KeyProj{c.mode});
                else sorter(sp, c.cmp(), KeyProj{c.mode});
            } else {
                if (funcs == 0) sorter(first, last);
                else if (funcs == 1) sorter(first, last, RowCmp{c.order, c.mode});
                else if (funcs == 2) sorter(first, last, KeyProj{c.mode});
                else sorter(first, last, c.cmp(), KeyProj{c.mode});
            }
        } else if constexpr (K == MOVE_ONLY) {
            // the comparison sees the rows themselves
            if (funcs == 0 && iterable) sorter(sp);
            else if (funcs == 0) sorter(first, last);
            else { c.mode = funcs == 2 ? 0 : c.mode; sorter(first, last, RowCmp{c.order, c.mode}); }
        } else {
            c.mode = 0;
            if (funcs == 0) sorter(first, last);
            else if (funcs == 2) sorter(sp, RefProj{});
            else sorter(first, last, c.cmp(), RefProj{});
        }
    };
    if constexpr (Reverse) call(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
    else call(b, e);
    verify_table(t, c, stable, Reverse, name);
}

template<typename S, bool Comparison = true>
void t_bools(Src& src, const char* name, std::size_t max_n)
{
    Case c = draw(src, max_n, true);
    int d = (int)src.below(4);
    int form = (int)src.below(5);
    std::vector<bool> v;
    std::size_t ones = 0;
    for (int k: c.keys) {
        bool x = d == 0 ? k & 1 : d == 1 ? k % 7 == 0 : d == 2 ? k % 50 != 0 : k > 20;
        v.push_back(x); ones += x;
    }
    src.note("%s ", name);
    src.note_seq("values", v);
    src.nontrivial_if(ones && ones < v.size() && !std::is_sorted(v.begin(), v.end()));
    struct Not { bool operator()(bool x) const { return !x; } };
    S sorter{};
    bool up = true;
    if constexpr (!Comparison) {
        if (form % 2) sorter(v, [](bool b) { return (int)b; });
        else { sorter(v.rbegin(), v.rend(), [](bool b) { return (int)b - 7; }); up = false; }
    }
    else if (form == 0) sorter(v);
    else if (form == 1) { sorter(v.begin(), v.end(), std::greater<>{}); up = false; }
    else if (form == 2) { sorter(v, Not{}); up = false; }
    else if (form == 3) { sorter(v.begin(), v.end(), std::greater<bool>{}, Not{}); }
    else { sorter(v.rbegin(), v.rend(), std::less<bool>{}); up = false; }
    PBT_CHECK(v.size() == c.keys.size(), "%s: size changed", name);
    for (std::size_t i = 0; i < v.size(); ++i) {
        bool want = up ? i >= v.size() - ones : i < ones;
        PBT_CHECK(v[i] == want, "%s: wrong value at position %zu of a vector of %zu booleans, %zu of them true", name, i, v.size(), ones);
    }
}

// V: default-constructible rows for the sorters with a buffer
template<typename S, typename Cat, bool D, bool Quad>
void add_s(const char* name, bool stable)
{
    std::string n = name;
    using V = std::conditional_t<D, RowD, Row>;
    using VC = std::conditional_t<D, RowCD, RowC>;
    std::size_t lim = Quad ? 200 : pbt::g_thorough ? 5000 : 1400;
    using RevCat = std::conditional_t<std::is_base_of<bi_tag, Cat>::value, Cat, bi_tag>;
    pbt::add_test(n + "/custom", 6000, 120000, [=](Src& s) { t_rows<S, V, CUSTOM, Cat, false>(s, name, stable, lim); });
    pbt::add_test(n + "/iter_move", 3600, 72000, [=](Src& s) { t_rows<S, V, MOVE_ONLY, Cat, false>(s, name, stable, lim); });
    pbt::add_test(n + "/plain", 3600, 72000, [=](Src& s) { t_rows<S, VC, PLAIN_PROXY, Cat, false>(s, name, stable, lim); });
    if constexpr (!D) pbt::add_test(n + "/reverse", 2800, 56000, [=](Src& s) { t_rows<S, V, CUSTOM, RevCat, true>(s, name, stable, lim); });
    pbt::add_test(n + "/bools", 2800, 56000, [=](Src& s) { t_bools<S>(s, name, lim); });
}

// Fixed-size sorters
template<template<std::size_t> class F, std::size_t N, Kind K>
void t_fixed(Src& src, const char* name)
{
    Case c;
    td::reset_counters();
    c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs);
    for (std::size_t i = 0; i < N; ++i) c.keys.push_back((int)src.below(2 * N + 1));
    src.note("%s<%zu> ", name, N); src.note_seq("keys", c.keys);
    src.nontrivial_if(N >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Table t(c.keys);
    using V = std::conditional_t<K == PLAIN_PROXY, RowC, Row>;
    RIt<V, K, ra_tag> b(&t, 0), e(&t, (std::ptrdiff_t)N);
    if (src.below(2)) F<N>{}(b, e, c.cmp(), KeyProj{c.mode});
    else F<N>{}(b, e, RowCmp{c.order, c.mode});
    verify_table(t, c, false, false, name);
}
template<template<std::size_t> class F, std::size_t... Ns>
void add_fixed(const char* name, std::index_sequence<Ns...>)
{
    int d[] = {(pbt::add_test(std::string(name) + std::to_string(Ns) + "/custom", 800, 16000, [name](Src& s) { t_fixed<F, Ns, CUSTOM>(s, name); }),
                pbt::add_test(std::string(name) + std::to_string(Ns) + "/iter_move", 800, 16000, [name](Src& s) { t_fixed<F, Ns, MOVE_ONLY>(s, name); }),
                pbt::add_test(std::string(name) + std::to_string(Ns) + "/plain", 800, 16000, [name](Src& s) { t_fixed<F, Ns, PLAIN_PROXY>(s, name); }), 0)...};
    (void)d;
}

// Measures: same value as on a plain sequence, which is left alone
template<typename P, typename Cat>
void t_probe(Src& src, const char* name)
{
    Case c = draw(src, 90);
    int form = (int)src.below(4);
    src.note("%s ", name);
    std::size_t n = c.keys.size();
    src.nontrivial_if(n >= 3 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Table t(c.keys);
    std::vector<Plain> ref;
    fill(ref, c.keys);
    long long want = (long long)P{}(ref.begin(), ref.end(), c.cmp(), c.proj()), got;
    RIt<Row, CUSTOM, Cat> b(&t, 0), e(&t, (std::ptrdiff_t)n);
    RIt<RowC, PLAIN_PROXY, Cat> pb(&t, 0), pe(&t, (std::ptrdiff_t)n);
    if (form == 0) got = (long long)P{}(b, e, c.cmp(), KeyProj{c.mode});
    else if (form == 1) got = (long long)P{}(b, e, RowCmp{c.order, c.mode});
    else if (form == 2) got = (long long)P{}(pb, pe, c.cmp(), KeyProj{c.mode});
    else {
        std::vector<bool> v;
        std::vector<int> w;
        for (int k: c.keys) { v.push_back(k & 1); w.push_back(k & 1); }
        want = (long long)P{}(w);
        got = (long long)P{}(v);
        for (std::size_t i = 0; i < n; ++i) PBT_CHECK(v[i] == (bool)w[i], "%s: modified the vector of booleans", name);
    }
    PBT_CHECK(got == want, "%s: %lld behind proxy iterators, %lld otherwise", name, got, want);
    for (std::size_t i = 0; i < n; ++i)
        PBT_CHECK(t.key[i] == c.keys[i] && t.item[i].id == (int)i && t.item[i].state == Elem::LIVE, "%s: modified row %zu", name, i);
}
template<typename P> void add_p(const char* name)
{
    pbt::add_test(std::string("probe ") + name, 3600, 72000, [name](Src& s) { t_probe<P, ra_tag>(s, name); });
    pbt::add_test(std::string("probe ") + name + "/forward", 2400, 48000, [name](Src& s) { t_probe<P, fwd_tag>(s, name); });
}

// Permutations
template<typename S, Kind K>
void t_perm(Src& src, const char* name)
{
    Case c = draw(src, 200);
    coarsen(src, c);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 3 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    Table t(c.keys);
    using V = std::conditional_t<K == PLAIN_PROXY, RowC, Row>;
    RIt<V, K, ra_tag> b(&t, 0), e(&t, (std::ptrdiff_t)c.keys.size());
    auto its = su::sorted_iterators<S>{}(b, e, c.cmp(), KeyProj{c.mode});
    PBT_CHECK(its.size() == c.keys.size(), "sorted_iterators: %zu iterators", its.size());
    for (std::size_t i = 1; i < its.size(); ++i)
        PBT_CHECK(!c.less((*its[i]).get(), (*its[i - 1]).get()), "sorted_iterators over %s: not sorted at position %zu", name, i);
    auto idx = su::sorted_indices<S>{}(b, e, c.cmp(), KeyProj{c.mode});
    PBT_CHECK(idx.size() == c.keys.size(), "sorted_indices: %zu indices", idx.size());
    auto idx2 = idx;
    su::apply_permutation(b, e, idx2.begin(), idx2.end());
    verify_table(t, c, false, false, name);
    for (std::size_t i = 0; i < idx.size(); ++i)
        PBT_CHECK(t.item[i].id == (int)idx[i], "apply_permutation: row %zu holds the original row %d instead of %d", i, t.item[i].id, (int)idx[i]);
}

// iter_move and iter_swap themselves
template<Kind K, bool Reverse>
void t_points(Src& src)
{
    std::size_t n = 2 + src.below(6);
    std::vector<int> keys;
    for (std::size_t i = 0; i < n; ++i) keys.push_back((int)src.below(50));
    src.note_seq("keys", keys);
    td::reset_counters();
    Table t(keys);
    using V = std::conditional_t<K == PLAIN_PROXY, RowC, Row>;
    using It = RIt<V, K, bi_tag>;
    std::vector<int> order;         // ids, model
    for (std::size_t i = 0; i < n; ++i) order.push_back((int)i);
    auto at = [&](std::size_t i) {
        if constexpr (Reverse) return std::make_reverse_iterator(It(&t, (std::ptrdiff_t)(n - i)));
        else return It(&t, (std::ptrdiff_t)i);
    };
    auto pos = [&](std::size_t i) { return Reverse ? n - 1 - i : i; };
    std::size_t ops = 1 + src.below(8);
    bool moved = false;
    for (std::size_t k = 0; k < ops; ++k) {
        std::size_t i = src.below(n), j = src.below(n);
        using su::iter_move; using su::iter_swap;
        if (src.below(2)) {
            iter_swap(at(i), at(j));
            std::swap(order[pos(i)], order[pos(j)]);
            src.note("swap(%zu,%zu) ", i, j);
        } else {
            static_assert(std::is_same<decltype(iter_move(at(i))), V>::value, "");
            auto v = iter_move(at(i));
            src.note("rotate(%zu,%zu) ", i, j);
            if (i != j) { *at(i) = iter_move(at(j)); }
            *at(j) = std::move(v);
            std::swap(order[pos(i)], order[pos(j)]);
        }
        if (i != j) moved = true;
    }
    src.nontrivial_if(moved);
    for (std::size_t i = 0; i < n; ++i) {
        const Elem& e = t.item[i];
        PBT_CHECK(e.state == Elem::LIVE && e.id == order[i] && e.key == keys[order[i]] && t.key[i] == e.key,
                  "row %zu holds the original row %d with the key %d instead of row %d", i, e.id, t.key[i], order[i]);
    }
}

// Type-specific sorters: rows projected to integers, floating point numbers and strings
template<typename S, Kind K, int Key>
void t_typed(Src& src, const char* name)
{
    Case c = draw(src, 1600, true);
    src.note("%s ", name);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end()));
    if (Key == 2) for (auto& k: c.keys) k = k % 10000;
    Table t(c.keys);
    using V = std::conditional_t<K == PLAIN_PROXY, RowC, Row>;
    RIt<V, K, ra_tag> b(&t, 0), e(&t, (std::ptrdiff_t)c.keys.size());
    auto proj = [](const auto& r) {
        if constexpr (Key == 0) return r.get();
        else if constexpr (Key == 1) return (double)r.get();
        else { char s[16]; snprintf(s, sizeof s, "key%08d", r.get() + 50000); return std::string(s); }
    };
    S{}(b, e, proj);
    verify_table(t, c, false, false, name);
}

template<int I, typename S, typename Cat, bool D, bool Quad>
void maybe(const char* name, bool stable)
{
    if constexpr (I % NPARTS == PART && !std::is_same<S, cs::std_sorter>::value) add_s<S, Cat, D, Quad>(name, stable);
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, false, QUAD>(NAME, STABLE);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, true, QUAD>(NAME, STABLE);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false, false>(NAME, STABLE);
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
    A((add_fixed<cs::sorting_network_sorter>("sorting_network", std::index_sequence<2, 3, 4, 5, 8, 13, 16, 24>{})));
    A((add_fixed<cs::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>{})));
    A((add_fixed<cs::low_moves_sorter>("low_moves", std::make_index_sequence<13>{})));
    A((add_fixed<cs::merge_exchange_network_sorter>("merge_exchange", std::index_sequence<2, 3, 4, 5, 7, 11, 16>{})));
    A((add_fixed<cs::odd_even_merge_network_sorter>("odd_even_merge", std::index_sequence<1, 2, 4, 8, 16>{})));
#define P(NAME) A((add_p<std::decay_t<decltype(cs::probe::NAME)>>(#NAME)));
    P(block) P(dis) P(enc) P(exc) P(ham) P(inv) P(max) P(mono) P(osc) P(par) P(rem) P(runs) P(sus)
#define Q(S) A((pbt::add_test("permutations " #S, 2800, 56000, [](Src& s) { t_perm<cs::S, CUSTOM>(s, #S); }))); \
             A((pbt::add_test("permutations " #S "/iter_move", 2800, 56000, [](Src& s) { t_perm<cs::S, MOVE_ONLY>(s, #S); }))); \
             A((pbt::add_test("permutations " #S "/plain", 2800, 56000, [](Src& s) { t_perm<cs::S, PLAIN_PROXY>(s, #S); })));
    Q(heap_sorter) Q(merge_sorter) Q(pdq_sorter)
#define T(S, KEY, TYPE) A((pbt::add_test(#S " " TYPE "/custom", 3000, 60000, [](Src& s) { t_typed<cs::S, CUSTOM, KEY>(s, #S " " TYPE); }))); \
             A((pbt::add_test(#S " " TYPE "/iter_move", 3000, 60000, [](Src& s) { t_typed<cs::S, MOVE_ONLY, KEY>(s, #S " " TYPE); }))); \
             A((pbt::add_test(#S " " TYPE "/plain", 3000, 60000, [](Src& s) { t_typed<cs::S, PLAIN_PROXY, KEY>(s, #S " " TYPE); })));
    T(ska_sorter, 0, "int") T(ska_sorter, 1, "double") T(ska_sorter, 2, "string")
    T(spread_sorter, 0, "int") T(spread_sorter, 1, "double") T(spread_sorter, 2, "string")
    A((pbt::add_test("ska/bools", 3000, 60000, [](Src& s) { t_bools<cs::ska_sorter, false>(s, "ska", 2000); })));
    A((pbt::add_test("spread/bools", 3000, 60000, [](Src& s) { t_bools<cs::spread_sorter, false>(s, "spread", 2000); })));
#define M(K) A((pbt::add_test("iter_move and iter_swap " #K, 8000, 160000, t_points<K, false>))); \
             A((pbt::add_test("iter_move and iter_swap " #K " reversed", 8000, 160000, t_points<K, true>)));
    M(CUSTOM) M(MOVE_ONLY) M(PLAIN_PROXY)
}
