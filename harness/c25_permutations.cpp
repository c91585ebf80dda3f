// C25: sorted_indices and sorted_iterators give the positions of the elements in sorted order without
// touching the sequence, and apply_permutation puts the elements where the indices say.
#include "sortcheck.h"
#include <array>
#include <map>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>

using namespace sc;
namespace cs = cppsort;

////////////////////////////////////////////////////////////
// Oracle: pos[k] is the original position of the k-th element in sorted order

static void verify_positions(const std::vector<long long>& pos, const Case& c, const char* what, bool stable)
{
    std::size_t n = c.keys.size();
    PBT_CHECK(pos.size() == n, "%s: %zu positions for %zu elements", what, pos.size(), n);
    std::vector<char> seen(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
        PBT_CHECK(pos[i] >= 0 && pos[i] < (long long)n && !seen[pos[i]], "%s: not a permutation of the positions (%lld at %zu)", what, pos[i], i);
        seen[pos[i]] = 1;
        if (i == 0) continue;
        int p = c.keys[pos[i - 1]], k = c.keys[pos[i]];
        PBT_CHECK(!c.less(k, p), "%s: element %lld (key %d) comes after element %lld (key %d)", what, pos[i], k, pos[i - 1], p);
        if (stable && !c.less(p, k))
            PBT_CHECK(pos[i - 1] < pos[i], "%s: equivalent elements %lld and %lld in the wrong order", what, pos[i - 1], pos[i]);
    }
}

// The four ways of passing functions. kind: 0 nothing, 1 comparison on elements, 2 projection, 3 both
template<typename F, typename... Args>
static auto call_kind(int kind, const Case& c, F&& f, Args&&... args)
{
    switch (kind) {
        case 0: return f(std::forward<Args>(args)...);
        case 1: return f(std::forward<Args>(args)..., c.ecmp());
        case 2: return f(std::forward<Args>(args)..., c.proj());
        default: return f(std::forward<Args>(args)..., c.cmp(), c.proj());
    }
}
// the two main forms only, to keep the number of instantiations low
template<typename F, typename... Args>
static auto call_kind2(int kind, const Case& c, F&& f, Args&&... args)
{
    if (kind == 0) return f(std::forward<Args>(args)...);
    return f(std::forward<Args>(args)..., c.cmp(), c.proj());
}
static bool readable(const Elem& e) { return e.readable(); }
static bool readable(const Plain&) { return true; }
static Case draw_kind(Src& src, std::size_t max_n, int kind)
{
    Case c;
    td::reset_counters();
    if (kind & 1) c.order = gen::order(src);
    if (kind == 1 || kind & 2) c.mode = (int)src.below(gen::n_projs);
    c.keys = td::to_int(gen::keys(src, max_n));
    coarsen(src, c);
    classify_n(src, c.keys);
    src.note("functions=%d order=%d/%d proj=%d ", kind, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    td::call_limit = 100000 + 60ull * c.keys.size() * c.keys.size();
    src.nontrivial_if(c.keys.size() >= 4 && has_equivalents(c));
    return c;
}

// E: type of the elements, move-only and tracked unless the sorter caches projected values
template<typename S, typename E>
void t_indices(Src& src, const char* name, bool stable, bool quad)
{
    int form = (int)src.below(4);
    int kind = form == 0 ? (int)src.below(4) : 3 * (int)src.below(2);
    src.note("form=%d ", form);
    Case c = draw_kind(src, quad ? 100 : 400, kind);
    std::size_t n = c.keys.size();
    cs::utility::sorted_indices<S> si;
    std::vector<long long> pos;
    auto take = [&](const auto& v) { pos.assign(v.begin(), v.end()); };
    if (form <= 1) {
        // guarded iterators, 32 bits difference type in the second case
        td::Buffer<E> b(n, 3, [&](E* p, i64 i) { new (p) E(i >= 0 && i < (i64)n ? c.keys[i] : -777, (int)i); });
        td::u64 moved = td::elem_moves;
        if (form == 0) {
            auto r = call_kind(kind, c, si, b.template first<ra_tag>(), b.template last<ra_tag>());
            static_assert(std::is_same<decltype(r), std::vector<std::ptrdiff_t>>::value, "type of the indices");
            take(r);
        } else {
            auto r = call_kind2(kind, c, si, b.template first<ra_tag, int>(), b.template last<ra_tag, int>());
            static_assert(std::is_same<decltype(r), std::vector<int>>::value, "type of the indices");
            take(r);
        }
        PBT_CHECK(td::elem_moves == moved, "%s: the elements were moved", name);
        verify_untouched(b.begin(), b.end(), c, name);
        verify_positions(pos, c, name, stable);
        // round trip through apply_permutation
        if (form == 0) {
            std::vector<std::ptrdiff_t> idx(pos.begin(), pos.end());
            cs::utility::apply_permutation(b.template first<ra_tag>(), b.template last<ra_tag>(), idx.begin(), idx.end());
        } else {
            std::vector<int> idx(pos.begin(), pos.end());
            cs::utility::apply_permutation(b.template first<ra_tag, int>(), b.template last<ra_tag, int>(), idx.begin(), idx.end());
        }
        for (std::size_t i = 0; i < n; ++i)
            PBT_CHECK(readable(b[i]) && b[i].id == pos[i] && b[i].key == c.keys[pos[i]], "%s: apply_permutation put the wrong element in position %zu", name, i);
        return;
    }
    if (form == 2) {
        std::deque<E> d;
        for (std::size_t i = 0; i < n; ++i) d.emplace_back(c.keys[i], (int)i);
        td::u64 moved = td::elem_moves;
        take(call_kind2(kind, c, si, d));
        PBT_CHECK(td::elem_moves == moved, "%s: the elements were moved", name);
        verify_untouched(d.begin(), d.end(), c, name);
        verify_positions(pos, c, name, stable);
        std::deque<int> idx(pos.begin(), pos.end());
        cs::utility::apply_permutation(d, idx);
        for (std::size_t i = 0; i < n; ++i) PBT_CHECK(readable(d[i]) && d[i].id == pos[i], "%s: apply_permutation put the wrong element in position %zu", name, i);
        return;
    }
    std::vector<PlainD> v; fill(v, c.keys);         // constant sequence
    const auto& cv = v;
    const auto si2 = si;
    take(call_kind2(kind, c, si2, cv));
    verify_untouched(v.begin(), v.end(), c, name);
    verify_positions(pos, c, name, stable);
}

template<typename T> struct view
{
    T f, l;
    T begin() const { return f; }
    T end() const { return l; }
};

template<typename S, typename E>
void t_iterators(Src& src, const char* name, bool stable, bool quad)
{
    int form = (int)src.below(4);
    int kind = form == 0 ? (int)src.below(4) : 3 * (int)src.below(2);
    src.note("form=%d ", form);
    Case c = draw_kind(src, quad ? 100 : 400, kind);
    std::size_t n = c.keys.size();
    cs::utility::sorted_iterators<S> si;
    std::vector<long long> pos;
    // iterators -> positions: the iterators have to be those of the sequence
    auto take = [&](const auto& its, auto first, auto last) {
        std::map<const void*, std::pair<long long, decltype(first)>> where;
        long long k = 0;
        for (auto it = first; it != last; ++it) where.insert({&*it, {k++, it}});
        for (auto& it: its) {
            PBT_CHECK(it != last, "%s: past-the-end iterator", name);
            auto f = where.find(&*it);
            PBT_CHECK(f != where.end() && f->second.second == it, "%s: iterator not belonging to the sequence", name);
            pos.push_back(f->second.first);
        }
    };
    if (form <= 1) {
        td::Buffer<E> b(n, 2, [&](E* p, i64 i) { new (p) E(i >= 0 && i < (i64)n ? c.keys[i] : -777, (int)i); });
        td::u64 moved = td::elem_moves;
        if (form == 0) {
            auto f = b.template first<fwd_tag>(), l = b.template last<fwd_tag>();
            auto r = call_kind(kind, c, si, f, l);
            static_assert(std::is_same<decltype(r), std::vector<decltype(f)>>::value, "type of the iterators");
            take(r, f, l);
        } else {
            auto f = b.template first<ra_tag, int>(), l = b.template last<ra_tag, int>();
            auto r = call_kind2(kind, c, si, f, l);
            static_assert(std::is_same<decltype(r), std::vector<decltype(f)>>::value, "type of the iterators");
            take(r, f, l);
        }
        PBT_CHECK(td::elem_moves == moved, "%s: the elements were moved", name);
        verify_untouched(b.begin(), b.end(), c, name);
    } else if (form == 2) {
        std::list<PlainD> l; fill<PlainD>(l, c.keys);
        const auto& cl = l;
        auto r = call_kind2(kind, c, si, cl);
        static_assert(std::is_same<decltype(r), std::vector<std::list<PlainD>::const_iterator>>::value, "type of the iterators");
        take(r, cl.begin(), cl.end());
        verify_untouched(l.begin(), l.end(), c, name);
    } else {                                // temporary view
        std::list<E> l; for (std::size_t i = 0; i < n; ++i) l.emplace_back(c.keys[i], (int)i);
        using It = typename std::list<E>::iterator;
        td::u64 moved = td::elem_moves;
        take(call_kind2(kind, c, si, view<It>{l.begin(), l.end()}), l.begin(), l.end());
        PBT_CHECK(td::elem_moves == moved, "%s: the elements were moved", name);
        verify_untouched(l.begin(), l.end(), c, name);
    }
    verify_positions(pos, c, name, stable);
}

// Sorters that hold a state are used with it
struct StatefulImpl
{
    int tag; int* calls;
    template<typename It, typename Compare = std::less<>, typename Projection = cs::utility::identity,
             typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<Projection, It, Compare>>>
    void operator()(It first, It last, Compare compare = {}, Projection projection = {}) const
    {
        calls[tag]++;
        if (tag == 0) cs::merge_sorter{}(first, last, compare, projection);
        else {                              // sorts, then reverses every group of equivalent elements
            cs::merge_sorter{}(first, last, compare, projection);
            auto&& p = cs::utility::as_function(projection);
            while (first != last) {
                auto e = first; ++e;
                while (e != last && !compare(p(*first), p(*e))) ++e;
                std::reverse(first, e);
                first = e;
            }
        }
    }
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
struct Stateful: cs::sorter_facade<StatefulImpl>
{
    Stateful(int tag, int* calls): cs::sorter_facade<StatefulImpl>(StatefulImpl{tag, calls}) {}
};

static void t_state(Src& src)
{
    int kind = (int)src.below(4);
    Case c = draw_kind(src, 200, kind);
    int tag = (int)src.below(2), calls[2] = {0, 0};
    Stateful s(tag, calls);
    std::vector<Plain> v; fill(v, c.keys);
    std::vector<long long> pos;
    if (src.below(2)) {
        cs::utility::sorted_indices<Stateful> si(s); auto copy = si;
        auto r = call_kind(kind, c, copy, v); pos.assign(r.begin(), r.end());
    } else {
        cs::utility::sorted_iterators<Stateful> si(s); auto copy = si;
        for (auto it: call_kind(kind, c, copy, v)) pos.push_back(it - v.begin());
    }
    PBT_CHECK(calls[tag] == 1 && calls[1 - tag] == 0, "the stored sorter was not called exactly once (%d, %d)", calls[tag], calls[1 - tag]);
    verify_positions(pos, c, "stateful", tag == 0);
    if (tag == 1)
        for (std::size_t i = 1; i < pos.size(); ++i)
            if (!c.less(c.keys[pos[i - 1]], c.keys[pos[i]])) PBT_CHECK(pos[i - 1] > pos[i], "not the order made by the stored sorter");
    verify_untouched(v.begin(), v.end(), c, "stateful");
}

// Sorters that are not comparison sorts
template<typename S> void t_radix(Src& src, const char* name)
{
    Case c = draw_kind(src, 400, 0);
    std::vector<Plain> v; fill(v, c.keys);
    std::vector<long long> pos;
    auto key = [](const Plain& p) { return p.key; };
    int form = (int)src.below(6);
    src.note("form=%d ", form);
    std::vector<int> ints = c.keys;
    std::vector<std::string> strs;
    switch (form) {
        case 0: { auto r = cs::utility::sorted_indices<S>{}(v, key); pos.assign(r.begin(), r.end()); break; }
        case 1: { auto r = cs::utility::sorted_indices<S>{}(v.begin(), v.end(), &Plain::key); pos.assign(r.begin(), r.end()); break; }
        case 2: { auto r = cs::utility::sorted_indices<S>{}(ints); pos.assign(r.begin(), r.end()); break; }
        case 3: { std::list<Plain> l; fill<Plain>(l, c.keys); std::map<const void*, int> w; int k = 0; for (auto& e: l) w[&e] = k++;
                  for (auto it: cs::utility::sorted_iterators<S>{}(l, &Plain::key)) pos.push_back(w.at(&*it)); break; }
        case 4: { for (auto it: cs::utility::sorted_iterators<S>{}(ints)) pos.push_back(it - ints.begin()); break; }
        default: {
            for (int k: c.keys) { char b[32]; std::snprintf(b, sizeof b, "%012lld", (long long)k + 3000000000ll); strs.push_back(std::string(src.below(2) ? "key" : "key") + b); }
            auto old = strs;
            auto r = cs::utility::sorted_indices<S>{}(strs); pos.assign(r.begin(), r.end());
            PBT_CHECK(strs == old, "%s: the strings were modified", name);
        }
    }
    PBT_CHECK(ints == c.keys, "%s: the integers were modified", name);
    verify_untouched(v.begin(), v.end(), c, name);
    verify_positions(pos, c, name, false);
}

////////////////////////////////////////////////////////////
// apply_permutation alone

static std::vector<int> permutation(Src& src, std::size_t n)
{
    std::vector<int> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = (int)i;
    if (n == 0) return p;
    int kind = (int)src.below(8);
    auto rnd = [&](std::size_t k) { return (std::size_t)src.below(k); };
    switch (kind) {
        case 0: break;
        case 1: std::reverse(p.begin(), p.end()); break;
        case 2: std::rotate(p.begin(), p.begin() + rnd(n), p.end()); break;
        case 3: for (std::size_t i = n; i-- > 1;) std::swap(p[i], p[rnd(i + 1)]); break;
        case 4: for (std::size_t i = n; i-- > 1;) std::swap(p[i], p[rnd(i)]); break;         // one cycle
        case 5: for (int k = 0; k < 4; ++k) std::swap(p[rnd(n)], p[rnd(n)]); break;          // nearly identity
        case 6: for (std::size_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); break;
        default: for (std::size_t i = 0; i < n;) { std::size_t l = 1 + rnd(5); if (i + l > n) l = n - i; std::rotate(p.begin() + i, p.begin() + i + rnd(l), p.begin() + i + l); i += l; }
    }
    src.note("permutation kind %d ", kind);
    return p;
}

template<typename Index> void t_apply(Src& src, const char* what)
{
    td::reset_counters();
    // all the values of a small type can be positions
    const bool small = sizeof(Index) == 1;
    std::size_t max = small ? (std::size_t)std::numeric_limits<Index>::max() + 1 : src.below(6) ? 150 : 700;
    std::size_t n = small && src.below(4) == 0 ? max : (std::size_t)src.range(0, (int)max);
    auto p = permutation(src, n);
    src.note("index type %s ", what);
    src.note_seq("permutation", p);
    std::size_t displaced = 0;
    for (std::size_t i = 0; i < n; ++i) displaced += p[i] != (int)i;
    src.nontrivial_if(displaced >= 3);
    src.classify(displaced == 0 ? "identity" : displaced == n ? "derangement" : "some fixed points");
    int form = (int)src.below(6);
    src.note("form=%d ", form);
    auto make = [&](Elem* e, i64 i) { new (e) Elem(1000 - (int)i, (int)i); };
    auto check = [&](auto&& range) {
        std::size_t i = 0;
        for (auto& e: range) {
            PBT_CHECK(e.id == p[i] && e.key == 1000 - p[i], "%s: element %d instead of element %d in position %zu", what, e.id, p[i], i);
            PBT_CHECK(e.readable(), "%s: moved-from element in position %zu", what, i);
            ++i;
        }
    };
    if (form == 0) {
        td::Buffer<Elem> b(n, 2, make);
        td::Buffer<Index> idx(n, 2, [&](Index* e, i64 i) { *e = i >= 0 && i < (i64)n ? (Index)p[i] : (Index)0; });
        cs::utility::apply_permutation(b.template first<ra_tag>(), b.template last<ra_tag>(), idx.template first<ra_tag>(), idx.template last<ra_tag>());
        check(b);
    } else if (form == 1) {
        td::Buffer<Elem> b(n, 2, make);
        std::deque<Index> idx(p.begin(), p.end());
        cs::utility::apply_permutation(b.template first<ra_tag, int>(), b.template last<ra_tag, int>(), idx.begin(), idx.end());
        check(b);
    } else if (form == 2) {
        std::deque<Elem> b; for (std::size_t i = 0; i < n; ++i) b.emplace_back(1000 - (int)i, (int)i);
        std::vector<Index> idx(p.begin(), p.end());
        td::u64 before = td::elem_moves;
        cs::utility::apply_permutation(b, idx);
        PBT_CHECK(td::elem_moves - before <= 2 * n, "%s: %llu moves for %zu elements", what, (unsigned long long)(td::elem_moves - before), n);
        if (displaced == 0) PBT_CHECK(td::elem_moves == before, "%s: moves for the identity permutation", what);
        check(b);
    } else if (form == 3) {                 // temporary indices and temporary view
        std::vector<Elem> b; b.reserve(n); for (std::size_t i = 0; i < n; ++i) b.emplace_back(1000 - (int)i, (int)i);
        std::vector<Index> idx(p.begin(), p.end());
        cs::utility::apply_permutation(view<std::vector<Elem>::iterator>{b.begin(), b.end()}, std::move(idx));
        check(b);
    } else if (form == 4) {                 // reversed: positions counted from the end
        std::vector<Elem> b; b.reserve(n); for (std::size_t i = n; i-- > 0;) b.emplace_back(1000 - (int)i, (int)i);
        std::vector<Index> idx(p.rbegin(), p.rend());
        cs::utility::apply_permutation(b.rbegin(), b.rend(), idx.rbegin(), idx.rend());
        std::size_t i = n;
        for (auto& e: b) { --i; PBT_CHECK(e.id == p[i] && e.readable(), "%s: reversed: element %d instead of element %d", what, e.id, p[i]); }
    } else {                                // inverse permutation brings everything back; strings
        std::vector<std::string> s, old;
        for (std::size_t i = 0; i < n; ++i) s.push_back("a string longer than the small buffer " + std::to_string(i));
        old = s;
        std::vector<Index> idx(p.begin(), p.end()), inv(n);
        for (std::size_t i = 0; i < n; ++i) inv[p[i]] = (Index)i;
        cs::utility::apply_permutation(s, idx);
        for (std::size_t i = 0; i < n; ++i) PBT_CHECK(s[i] == old[p[i]], "%s: wrong string in position %zu", what, i);
        cs::utility::apply_permutation(s.begin(), s.end(), inv.begin(), inv.end());
        PBT_CHECK(s == old, "%s: a permutation followed by its inverse is not the identity", what);
    }
}
// every permutation of up to 7 elements
static void t_all(Src& src)
{
    static const int fact[] = {1, 1, 2, 6, 24, 120, 720, 5040};
    unsigned long long k = src.index(1 + 1 + 2 + 6 + 24 + 120 + 720 + 5040);
    std::size_t n = 0;
    while (k >= (unsigned)fact[n]) k -= fact[n++];
    std::vector<int> p, rest;
    for (std::size_t i = 0; i < n; ++i) rest.push_back((int)i);
    for (std::size_t i = n; i-- > 0;) { int q = (int)(k / fact[i]); k %= fact[i]; p.push_back(rest[q]); rest.erase(rest.begin() + q); }
    src.note_seq("permutation", p);
    src.nontrivial_if(n >= 3);
    td::Buffer<Elem> b(n, 1, [&](Elem* e, i64 i) { new (e) Elem(7 * (int)i, (int)i); });
    auto idx = p;
    cs::utility::apply_permutation(b, idx);
    for (std::size_t i = 0; i < n; ++i) PBT_CHECK(b[i].readable() && b[i].id == p[i], "element %d instead of element %d in position %zu", b[i].id, p[i], i);
}

template<int I, typename E, typename S> void maybe(const char* name, bool stable, bool quad)
{
    if constexpr (I % NPARTS == PART) {
        pbt::add_test(std::string(name) + "/sorted_indices", 9000, 150000, [=](Src& s) { t_indices<S, E>(s, name, stable, quad); });
        pbt::add_test(std::string(name) + "/sorted_iterators", 9000, 150000, [=](Src& s) { t_iterators<S, E>(s, name, stable, quad); });
    }
}
template<int I, typename S> void maybe_r(const char* name)
{
    if constexpr (I % NPARTS == PART) pbt::add_test(std::string(name) + "/not a comparison sort", 8000, 120000, [=](Src& s) { t_radix<S>(s, name); });
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, E, STABLE, QUAD, ...) maybe<__COUNTER__ - base - 1, E, __VA_ARGS__>(NAME, STABLE, QUAD);
    X("adaptive_shivers", Elem, true, false, cs::adaptive_shivers_sorter)
    X("cartesian_tree", Elem, false, false, cs::cartesian_tree_sorter)
    X("d_ary_heap3", Elem, false, false, cs::d_ary_heap_sorter<3>)
    X("default", Elem, false, false, cs::default_sorter)
    X("grail", Elem, true, false, cs::grail_sorter<>)
    X("insertion", Elem, true, true, cs::insertion_sorter)
    X("mel", Elem, false, false, cs::mel_sorter)
    X("merge", Elem, true, false, cs::merge_sorter)
    X("pdq", Elem, false, false, cs::pdq_sorter)
    X("quick", Elem, false, false, cs::quick_sorter)
    X("slab", Elem, false, false, cs::slab_sorter)
    X("smooth", Elem, false, false, cs::smooth_sorter)
    X("spin", Elem, true, false, cs::spin_sorter)
    X("splay", Elem, true, false, cs::splay_sorter)
    X("std", Elem, false, false, cs::std_sorter)
    X("tim", Elem, true, false, cs::tim_sorter)
    X("verge", Elem, false, false, cs::verge_sorter)
    X("wiki20", Elem, true, false, cs::wiki_sorter<su::fixed_buffer<20>>)
    X("stable<heap>", Elem, true, false, cs::stable_adapter<cs::heap_sorter>)
    X("drop_merge<heap>", Elem, false, false, cs::drop_merge_adapter<cs::heap_sorter>)
    X("split<poplar>", Elem, false, false, cs::split_adapter<cs::poplar_sorter>)
    X("indirect<merge>", Elem, true, false, cs::indirect_adapter<cs::merge_sorter>)
    X("out_of_place<quick_merge>", Elem, false, false, cs::out_of_place_adapter<cs::quick_merge_sorter>)
    X("schwartz<merge>", PlainD, true, false, cs::schwartz_adapter<cs::merge_sorter>)
    X("hybrid<merge,heap>", Elem, false, false, cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>)
    X("comparisons<selection>", Elem, false, true, cs::metrics::comparisons<cs::selection_sorter>)
#undef X
#define X(NAME, ...) maybe_r<__COUNTER__ - base - 1, __VA_ARGS__>(NAME);
    X("ska", cs::ska_sorter) X("spread", cs::spread_sorter) X("hybrid<spread>", cs::hybrid_adapter<cs::spread_sorter>) X("verge<ska>", cs::ska_sorter)
#undef X
    if (PART == NPARTS - 1) {
        pbt::add_test("stateful sorter", 20000, 200000, t_state);
        pbt::add_test("apply_permutation/signed char", 20000, 300000, [](Src& s) { t_apply<signed char>(s, "signed char"); });
        pbt::add_test("apply_permutation/unsigned char", 20000, 300000, [](Src& s) { t_apply<unsigned char>(s, "unsigned char"); });
        pbt::add_test("apply_permutation/short", 20000, 300000, [](Src& s) { t_apply<short>(s, "short"); });
        pbt::add_test("apply_permutation/int", 20000, 300000, [](Src& s) { t_apply<int>(s, "int"); });
        pbt::add_test("apply_permutation/unsigned", 20000, 300000, [](Src& s) { t_apply<unsigned>(s, "unsigned"); });
        pbt::add_test("apply_permutation/size_t", 20000, 300000, [](Src& s) { t_apply<std::size_t>(s, "size_t"); });
        pbt::add_test("apply_permutation/long long", 20000, 300000, [](Src& s) { t_apply<long long>(s, "long long"); });
        pbt::add_test("apply_permutation/every permutation", 5914, 5914, t_all);
    }
}
