// C23: the call forms of a sorter are equivalent: ranges and pairs of iterators, missing or default
// functions, a single function of either role, lvalues, temporary views and arrays, function pointers
// and generic sort functions.
#include "sortcheck.h"
#include <array>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/detail/swap_if.h>

using namespace sc;
namespace cs = cppsort;

// A view owning nothing: sorting a temporary sorts the elements it refers to
template<typename It> struct View
{
    It b, e;
    It begin() const { return b; }
    It end() const { return e; }
};
template<typename It> View(It, It) -> View<It>;

// A projection that is not a comparison and conversely
struct KeyProj
{
    int mode = 0;
    int operator()(const Plain& e) const { td::on_call(); return gen::proj_apply(mode, e.key); }
};
struct ElemCmp
{
    gen::Order order;
    bool operator()(const Plain& a, const Plain& b) const { td::on_call(); return order(a.key, b.key); }
};

template<typename It> std::vector<std::pair<int, int>> snap(It b, It e)
{
    std::vector<std::pair<int, int>> r;
    for (; b != e; ++b) r.push_back({b->key, b->id});
    return r;
}

// Compares the outcome of each form to that of the first one
struct Forms
{
    const Case& c; bool stable; const char* name;
    std::vector<int> ref; long long ref_ret = -1; bool first = true;
    template<typename It> void check(const char* form, It b, It e, long long ret)
    {
        char what[200]; std::snprintf(what, sizeof what, "%s, %s", name, form);
        verify(b, e, c, what, stable);
        if (first) { ref_ret = ret; first = false; }
        PBT_CHECK(ret == ref_ret, "%s: returned %lld, but %lld through the first call form", what, ret, ref_ret);
    }
};

template<typename F> long long ret_of(F&& f)
{
    if constexpr (std::is_void<decltype(f())>::value) { f(); return -7; }
    else {
        auto r = f();
        if constexpr (std::is_arithmetic<decltype(r)>::value) return (long long)r;
        else return (long long)r.value();
    }
}

// a const-callable comparison that must be refined to work properly
struct Refinable
{
    gen::Order order;
    struct Refined
    {
        gen::Order order; long* used;
        bool operator()(const Plain& a, const Plain& b) const { ++*used; return order(a.key, b.key); }
    };
    long* used;
    template<typename T> Refined refine() const
    {
        static_assert(std::is_same<std::decay_t<T>, Plain>::value, "refined for the type of the elements");
        return {order, used};
    }
    // unrefined, the function is callable but has been told the opposite order
    bool operator()(const Plain& a, const Plain& b) const { return order(b.key, a.key); }
};
struct RefProj
{
    int mode; long* used;
    struct Refined
    {
        int mode; long* used;
        int operator()(const Plain& a) const { ++*used; return gen::proj_apply(mode, a.key); }
    };
    template<typename T> Refined refine() const
    {
        static_assert(std::is_same<std::decay_t<T>, Plain>::value, "refined for the type of the elements");
        return {mode, used};
    }
    int operator()(const Plain& a) const { return -gen::proj_apply(mode, a.key); }
};

#define FORM(label, ...) { std::vector<Plain> v; fill<Plain>(v, c.keys); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; \
    long long r = ret_of([&] { return __VA_ARGS__; }); fs.check(label, v.begin(), v.end(), r); }

// the functions: 0 none, 1 comparison only, 2 projection only, 3 both
template<typename S, bool IsStable>
void t_forms(Src& src, const char* name, bool quad)
{
    int kind = (int)src.below(4);
    Case c;
    td::reset_counters();
    if (kind & 1) c.order = gen::order(src);
    if (kind & 2) c.mode = (int)src.below(gen::n_projs);
    c.keys = td::to_int(gen::keys(src, quad ? 120 : 300));
    coarsen(src, c);
    classify_n(src, c.keys);
    src.note("%s kind=%d order=%d/%d proj=%d ", name, kind, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    src.classify(kind == 0 ? "no function" : kind == 1 ? "comparison" : kind == 2 ? "projection" : "both");
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    td::call_limit = 100000 + 60ull * c.keys.size() * c.keys.size();
    const S s{};
    Forms fs{c, IsStable, name, {}};
    std::size_t n = c.keys.size();
    const std::less<> less{}; const su::identity id{};
    ElemCmp cmp{c.order}; KeyProj proj{c.mode};
    td::Cmp kcmp{c.order};
    switch (kind) {
    case 0:
        FORM("(first, last)", s(b, e))
        FORM("(range)", s(v))
        FORM("(range, less)", s(v, less))
        FORM("(first, last, less)", s(b, e, less))
        FORM("(range, identity)", s(v, id))
        FORM("(first, last, identity)", s(b, e, id))
        FORM("(range, less, identity)", s(v, less, id))
        FORM("(first, last, less, identity)", s(b, e, less, id))
        FORM("(temporary view)", s(View{b, e}))
        FORM("(temporary view, less)", s(View{b, e}, less))
        FORM("(temporary view, identity)", s(View{b, e}, id))
        FORM("(temporary view, less, identity)", s(View{b, e}, less, id))
        FORM("function pointer on a range", (static_cast<void(*)(std::vector<Plain>&)>(s)(v), fs.ref_ret))
        break;
    case 1:
        FORM("(first, last, compare)", s(b, e, cmp))
        FORM("(range, compare)", s(v, cmp))
        FORM("(first, last, compare, identity)", s(b, e, cmp, id))
        FORM("(range, compare, identity)", s(v, cmp, id))
        FORM("(const view, compare)", ([&] { const View w{b, e}; return s(w, cmp); })())
        FORM("(temporary view, compare)", s(View{b, e}, cmp))
        { long used = 0; Refinable ref{c.order, &used};
          FORM("(range, refinable compare)", s(v, ref))
          PBT_CHECK(n < 2 || used, "%s: the refined comparison was not used", name); }
        FORM("sort(sorter, range, compare)", cs::sort(s, v, cmp))
        FORM("sort(sorter, first, last, compare)", cs::sort(s, b, e, cmp))
        break;
    case 2:
        FORM("(first, last, projection)", s(b, e, proj))
        FORM("(range, projection)", s(v, proj))
        FORM("(first, last, less, projection)", s(b, e, less, proj))
        FORM("(range, less, projection)", s(v, less, proj))
        { long used = 0; RefProj ref{c.mode, &used};
          FORM("(range, refinable projection)", s(v, ref))
          PBT_CHECK(n < 2 || used, "%s: the refined projection was not used", name); }
        FORM("(temporary view, projection)", s(View{b, e}, proj))
        FORM("(temporary view, less, projection)", s(View{b, e}, less, proj))
        FORM("sort(sorter, range, projection)", cs::sort(s, v, proj))
        FORM("sort(sorter, first, last, projection)", cs::sort(s, b, e, proj))
        if (c.mode == 0) {
            FORM("(range, member pointer)", s(v, &Plain::key))
            FORM("(first, last, member pointer)", s(b, e, &Plain::key))
        }
        break;
    default:
        FORM("(first, last, compare, projection)", s(b, e, kcmp, proj))
        FORM("(range, compare, projection)", s(v, kcmp, proj))
        FORM("(temporary view, compare, projection)", s(View{b, e}, kcmp, proj))
        FORM("sort(sorter, range, compare, projection)", cs::sort(s, v, kcmp, proj))
        FORM("sort(sorter, first, last, compare, projection)", cs::sort(s, b, e, kcmp, proj))
        if (n == 9 || n == 17) {
            Plain arr[17]; Plain* ap = arr; for (std::size_t i = 0; i < n; ++i) ap[i] = {c.keys[i], (int)i};
            if (n == 17) { long long r = ret_of([&] { return s(arr, kcmp, proj); }); fs.check("(array, compare, projection)", arr, arr + n, r); }
            else { long long r = ret_of([&] { return s(ap, ap + n, kcmp, proj); }); fs.check("(pointers, compare, projection)", ap, ap + n, r); }
        }
        break;
    }
}

// Fixed forms on arrays and function pointers: fewer sorters, all sizes of array
template<typename S, std::size_t N> void array_one(Forms& fs, Src&, const Case& c)
{
    if (c.keys.size() != N) return;
    const S s{};
    auto mk = [&](auto& a) { for (std::size_t i = 0; i < N; ++i) a[i] = Plain{c.keys[i], (int)i}; };
    KeyProj proj{c.mode}; td::Cmp kcmp{c.order};
    { Plain a[N]; mk(a); auto r = ret_of([&] { return s(a, kcmp, proj); }); fs.check("(array, compare, projection)", a, a + N, r); }
    { std::array<Plain, N> a; mk(a); auto r = ret_of([&] { return s(a, kcmp, proj); }); fs.check("(std::array, compare, projection)", a.begin(), a.end(), r); }
    { Plain a[N]; mk(a); auto r = ret_of([&] { return s(a + 0, a + N, kcmp, proj); }); fs.check("(pointers, compare, projection)", a, a + N, r); }
    { Plain a[N]; mk(a); auto r = ret_of([&] { return cs::sort(s, a, kcmp, proj); }); fs.check("sort(array, compare, projection)", a, a + N, r); }
    using Ret = decltype(s(std::declval<Plain(&)[N]>(), kcmp, proj));
    using P1 = Ret(*)(Plain(&)[N], td::Cmp, KeyProj);
    { Plain a[N]; mk(a); P1 p = s; auto r = ret_of([&] { return p(a, kcmp, proj); }); fs.check("pointer to function of an array", a, a + N, r); }
    using P2 = Ret(*)(Plain*, Plain*, td::Cmp, KeyProj);
    { Plain a[N]; mk(a); P2 p = s; auto r = ret_of([&] { return p(a, a + N, kcmp, proj); }); fs.check("pointer to function of pointers", a, a + N, r); }
    using P3 = void(*)(View<Plain*>&&, td::Cmp, KeyProj);
    { Plain a[N]; mk(a); P3 p = s; p(View<Plain*>{a, a + N}, kcmp, proj); fs.check("pointer to function of a view returning nothing", a, a + N, fs.ref_ret); }
    if (c.order.mode == 0 && c.mode == 0 && c.order.param == 0) {
        using Q1 = void(*)(Plain(&)[N]);
        auto plain = [&](const char* form, auto f) { Plain a[N]; mk(a); f(a); fs.check(form, a, a + N, fs.ref_ret); };
        Q1 q1 = s; plain("pointer to function of an array, no function", [&](auto& a) { q1(a); });
        using Q2 = void(*)(Plain*, Plain*);
        Q2 q2 = s; plain("pointer to function of pointers, no function", [&](auto& a) { q2(a, a + N); });
        using Q3 = void(*)(Plain(&)[N], ElemCmp);
        Q3 q3 = s; plain("pointer to function of an array and a comparison", [&](auto& a) { q3(a, ElemCmp{}); });
        using Q4 = void(*)(Plain*, Plain*, KeyProj);
        Q4 q4 = s; plain("pointer to function of pointers and a projection", [&](auto& a) { q4(a, a + N, KeyProj{}); });
    }
}
template<typename S, bool IsStable> void t_arrays(Src& src, const char* name)
{
    static const int sizes[] = {1, 2, 5, 13, 33};
    Case c;
    td::reset_counters();
    if (src.below(3)) { c.order = gen::order(src); c.mode = (int)src.below(gen::n_projs); }
    std::size_t n = sizes[src.below(5)];
    for (std::size_t i = 0; i < n; ++i) c.keys.push_back((int)src.below(1 + src.below(40)));
    src.note("%s order=%d/%d proj=%d ", name, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    src.nontrivial_if(n >= 2);
    Forms fs{c, IsStable, name, {}};
    array_one<S, 1>(fs, src, c); array_one<S, 2>(fs, src, c); array_one<S, 5>(fs, src, c);
    array_one<S, 13>(fs, src, c); array_one<S, 33>(fs, src, c);
}

////////////////////////////////////////////////////////////
// Generic functions with the default sorter

static void t_default(Src& src)
{
    int kind = (int)src.below(4);
    Case c;
    td::reset_counters();
    if (kind & 1) c.order = gen::order(src);
    if (kind & 2) c.mode = (int)src.below(gen::n_projs);
    c.keys = td::to_int(gen::keys(src, 300));
    coarsen(src, c);
    classify_n(src, c.keys);
    src.note("kind=%d order=%d/%d proj=%d ", kind, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    src.nontrivial_if(c.keys.size() >= 2);
    Forms fs{c, false, "sort", {}}, st{c, true, "stable_sort", {}};
    ElemCmp cmp{c.order}; KeyProj proj{c.mode}; td::Cmp kcmp{c.order};
#define FORM2(label, F, ...) { { std::vector<Plain> v; fill<Plain>(v, c.keys); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; \
        cs::sort __VA_ARGS__; fs.check("vector " label, v.begin(), v.end(), 0); } \
      { std::list<Plain> v; fill<Plain>(v, c.keys); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; \
        cs::sort __VA_ARGS__; fs.check("list " label, v.begin(), v.end(), 0); } \
      { std::vector<Plain> v; fill<Plain>(v, c.keys); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; \
        cs::stable_sort __VA_ARGS__; st.check("vector " label, v.begin(), v.end(), 0); } \
      { std::forward_list<Plain> v; fill<Plain>(v, c.keys); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; \
        cs::stable_sort __VA_ARGS__; st.check("forward_list " label, v.begin(), v.end(), 0); } }
    switch (kind) {
    case 0:
        FORM2("(range)", sort, (v)) FORM2("(first, last)", sort, (b, e)) FORM2("(view)", sort, (View{b, e}))
        FORM2("(range, less, identity)", sort, (v, std::less<>{}, su::identity{}))
        break;
    case 1:
        FORM2("(range, compare)", sort, (v, cmp)) FORM2("(first, last, compare)", sort, (b, e, cmp))
        FORM2("(first, last, compare, identity)", sort, (b, e, cmp, su::identity{}))
        break;
    case 2:
        FORM2("(range, projection)", sort, (v, proj)) FORM2("(first, last, projection)", sort, (b, e, proj))
        FORM2("(view, less, projection)", sort, (View{b, e}, std::less<>{}, proj))
        break;
    default:
        FORM2("(range, compare, projection)", sort, (v, kcmp, proj)) FORM2("(first, last, compare, projection)", sort, (b, e, kcmp, proj))
        FORM2("(view, compare, projection)", sort, (View{b, e}, kcmp, proj))
    }
    // stable_sort with a sorter
    auto with = [&](const char* label, auto f) {
        std::vector<Plain> v; fill<Plain>(v, c.keys); f(v);
        char l[120]; std::snprintf(l, sizeof l, "stable_sort with a sorter %s", label);
        st.check(l, v.begin(), v.end(), 0);
    };
    auto h = cs::heap_sorter{};
    switch (kind) {
    case 0:
        with("(range)", [&](auto& v) { cs::stable_sort(h, v); });
        with("(first, last)", [&](auto& v) { cs::stable_sort(h, v.begin(), v.end()); });
        break;
    case 1:
        with("(range, compare)", [&](auto& v) { cs::stable_sort(h, v, cmp); });
        with("(first, last, compare)", [&](auto& v) { cs::stable_sort(h, v.begin(), v.end(), cmp); });
        break;
    case 2:
        with("(range, projection)", [&](auto& v) { cs::stable_sort(h, v, proj); });
        with("(first, last, projection)", [&](auto& v) { cs::stable_sort(h, v.begin(), v.end(), proj); });
        break;
    default:
        with("(range, compare, projection)", [&](auto& v) { cs::stable_sort(h, v, kcmp, proj); });
        with("(first, last, compare, projection)", [&](auto& v) { cs::stable_sort(h, v.begin(), v.end(), kcmp, proj); });
    }
}

////////////////////////////////////////////////////////////
// sorter_facade over implementations with partial interfaces. Each implementation sorts with std::stable_sort
// and returns a number telling which of its overloads was called.

struct Tag { int ov; long long n; operator long long() const { return ov * 1000000ll + n; } };

template<typename It, typename C, typename P> Tag run(int ov, It b, It e, C c, P p)
{
    auto&& cc = su::as_function(c); auto&& pp = su::as_function(p);
    std::stable_sort(b, e, [&](const auto& x, const auto& y) { return cc(pp(x), pp(y)); });
    return {ov, (long long)std::distance(b, e)};
}
// 1: iterators, 2: range
struct ImplIter0 { template<typename It> Tag operator()(It b, It e) const { return run(10, b, e, std::less<>{}, su::identity{}); } };
struct ImplIterC
{
    template<typename It, typename C = std::less<>, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<su::identity, It, C>>>
    Tag operator()(It b, It e, C c = {}) const { return run(11, b, e, c, su::identity{}); }
};
struct ImplIterP
{
    template<typename It, typename P = su::identity, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<P, It>>>
    Tag operator()(It b, It e, P p = {}) const { return run(12, b, e, std::less<>{}, p); }
};
struct ImplIterCP
{
    template<typename It, typename C = std::less<>, typename P = su::identity, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    Tag operator()(It b, It e, C c = {}, P p = {}) const { return run(13, b, e, c, p); }
};
struct ImplBothCP: ImplIterCP
{
    using ImplIterCP::operator();
    template<typename R, typename C = std::less<>, typename P = su::identity, typename = cs::detail::enable_if_t<cs::is_projection_v<P, R, C>>>
    Tag operator()(R&& r, C c = {}, P p = {}) const { return run(23, std::begin(r), std::end(r), c, p); }
};
struct ImplMixed     // range overload without function, iterator overloads with a comparison
{
    template<typename R> Tag operator()(R&& r) const { return run(20, std::begin(r), std::end(r), std::less<>{}, su::identity{}); }
    template<typename It, typename C = std::less<>, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<su::identity, It, C>>>
    Tag operator()(It b, It e, C c = {}) const { return run(11, b, e, c, su::identity{}); }
};
// stateful: the state changes the order
struct ImplState
{
    int sign = 1; int extra = 0;
    ImplState() = default;
    ImplState(int s, std::unique_ptr<int> p): sign(s), extra(*p) {}
    template<typename It, typename C = std::less<>, typename P = su::identity, typename = cs::detail::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    Tag operator()(It b, It e, C c = {}, P p = {}) const
    {
        auto r = run(13 + extra, b, e, c, p);
        if (sign < 0) std::reverse(b, e);
        return r;
    }
};
template<typename I> struct Fac: cs::sorter_facade<I>
{
    using cs::sorter_facade<I>::sorter_facade;
};
static void t_facade(Src& src)
{
    int kind = (int)src.below(4);
    Case c;
    td::reset_counters();
    if (kind & 1) c.order = gen::order(src);
    if (kind & 2) c.mode = (int)src.below(gen::n_projs);
    c.keys = td::to_int(gen::keys(src, 100));
    coarsen(src, c);
    classify_n(src, c.keys);
    src.note("kind=%d order=%d/%d proj=%d ", kind, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    src.nontrivial_if(c.keys.size() >= 2);
    const long long n = (long long)c.keys.size();
    ElemCmp cmp{c.order}; KeyProj proj{c.mode}; td::Cmp kcmp{c.order};
    const std::less<> less{}; const su::identity id{};
    std::vector<Plain> v;
    auto call = [&](const char* what, int ov, auto f) {
        v.clear(); fill<Plain>(v, c.keys);
        Tag t = f(v);
        verify(v.begin(), v.end(), c, what, true);
        PBT_CHECK(t.n == n, "%s: the returned value is not the one of the implementation", what);
        PBT_CHECK(t.ov == ov, "%s: overload %d of the implementation was called instead of %d", what, t.ov, ov);
    };
    auto view = [](auto& v) { return View{v.begin(), v.end()}; };
    // s, name, overload expected for: iterators without function, with one; range without function, with functions
    auto all = [&](auto s, const char* name, int it0, int itf, int r0, int rf, auto has_c, auto has_p) {
        char w[200];
        auto L = [&](const char* f) { std::snprintf(w, sizeof w, "facade over %s, %s", name, f); return (const char*)w; };
        constexpr bool HC = decltype(has_c)::value, HP = decltype(has_p)::value;   // comparisons, projections supported
        if (kind == 0) {
            call(L("(first, last)"), it0, [&](auto& v) { return s(v.begin(), v.end()); });
            call(L("(range)"), r0, [&](auto& v) { return s(v); });
            call(L("(view)"), r0, [&](auto& v) { return s(view(v)); });
            call(L("(first, last, less)"), itf, [&](auto& v) { return s(v.begin(), v.end(), less); });
            call(L("(range, less)"), rf, [&](auto& v) { return s(v, less); });
            call(L("(first, last, identity)"), itf, [&](auto& v) { return s(v.begin(), v.end(), id); });
            call(L("(range, identity)"), rf, [&](auto& v) { return s(v, id); });
            call(L("(first, last, less, identity)"), itf, [&](auto& v) { return s(v.begin(), v.end(), less, id); });
            call(L("(range, less, identity)"), rf, [&](auto& v) { return s(v, less, id); });
            call(L("(view, less, identity)"), rf, [&](auto& v) { return s(view(v), less, id); });
        }
        if constexpr (HC) {
            if (kind == 1) {
                call(L("(first, last, compare)"), itf, [&](auto& v) { return s(v.begin(), v.end(), cmp); });
                call(L("(range, compare)"), rf, [&](auto& v) { return s(v, cmp); });
                call(L("(view, compare)"), rf, [&](auto& v) { return s(view(v), cmp); });
                call(L("(first, last, compare, identity)"), itf, [&](auto& v) { return s(v.begin(), v.end(), cmp, id); });
                call(L("(range, compare, identity)"), rf, [&](auto& v) { return s(v, cmp, id); });
                long used = 0;
                Refinable ref{c.order, &used};
                call(L("(first, last, refinable compare)"), itf, [&](auto& v) { return s(v.begin(), v.end(), ref); });
                call(L("(range, refinable compare)"), rf, [&](auto& v) { return s(v, ref); });
                call(L("(view, refinable compare, identity)"), rf, [&](auto& v) { return s(view(v), ref, id); });
                if constexpr (HP) {
                    long u2 = 0;
                    RefProj rp{0, &u2};
                    call(L("(range, compare on keys, refinable projection)"), rf, [&](auto& v) { return s(v, kcmp, rp); });
                }
            }
            if (kind == 3) {
                call(L("(first, last, compare, projection)"), itf, [&](auto& v) { return s(v.begin(), v.end(), kcmp, proj); });
                call(L("(range, compare, projection)"), rf, [&](auto& v) { return s(v, kcmp, proj); });
                call(L("(view, compare, projection)"), rf, [&](auto& v) { return s(view(v), kcmp, proj); });
            }
        }
        if constexpr (HP) {
            if (kind == 2) {
                call(L("(first, last, projection)"), itf, [&](auto& v) { return s(v.begin(), v.end(), proj); });
                call(L("(range, projection)"), rf, [&](auto& v) { return s(v, proj); });
                call(L("(view, projection)"), rf, [&](auto& v) { return s(view(v), proj); });
                call(L("(first, last, less, projection)"), itf, [&](auto& v) { return s(v.begin(), v.end(), less, proj); });
                call(L("(range, less, projection)"), rf, [&](auto& v) { return s(v, less, proj); });
                long used = 0;
                RefProj rp{c.mode, &used};
                call(L("(first, last, refinable projection)"), itf, [&](auto& v) { return s(v.begin(), v.end(), rp); });
                call(L("(range, refinable projection)"), rf, [&](auto& v) { return s(v, rp); });
                call(L("(range, less, refinable projection)"), rf, [&](auto& v) { return s(v, less, rp); });
                call(L("(first, last, less, refinable projection)"), itf, [&](auto& v) { return s(v.begin(), v.end(), less, rp); });
            }
        }
    };
    std::true_type T; std::false_type F;
    all(Fac<ImplIter0>{}, "iterators only", 10, 10, 10, 10, F, F);
    all(Fac<ImplIterC>{}, "iterators and comparison", 11, 11, 11, 11, T, T);
    all(Fac<ImplIterP>{}, "iterators and projection", 12, 12, 12, 12, F, T);
    all(Fac<ImplIterCP>{}, "iterators, comparison and projection", 13, 13, 13, 13, T, T);
    all(Fac<ImplBothCP>{}, "complete interface", 13, 13, 23, 23, T, T);
    // the state of a sorter is kept
    int sign = src.below(2) ? 1 : -1, extra = (int)src.below(5);
    Fac<ImplState> st{sign, std::make_unique<int>(extra)};
    v.clear(); fill<Plain>(v, c.keys);
    Tag t{0, 0};
    if (kind == 0) t = st(v); else if (kind == 1) t = st(v, cmp); else if (kind == 2) t = st(v, proj); else t = st(v, kcmp, proj);
    PBT_CHECK(t.ov == 13 + extra && t.n == n, "facade over a stateful sorter: its state was not forwarded");
    if (sign < 0) std::reverse(v.begin(), v.end());
    verify(v.begin(), v.end(), c, "facade over a stateful sorter", true);
}

// Mixed implementation and C++20 function objects
static void t_mixed(Src& src)
{
    Case c;
    td::reset_counters();
    c.keys = td::to_int(gen::keys(src, 100));
    for (auto& k: c.keys) k %= 20000;     // counting_sorter takes memory for the whole range of values
    classify_n(src, c.keys);
    src.note_seq("keys", c.keys);
    src.nontrivial_if(c.keys.size() >= 2);
    Fac<ImplMixed> s;
    std::vector<Plain> v;
    const long long n = (long long)c.keys.size();
    auto call = [&](const char* what, int ov, auto f) {
        v.clear(); fill<Plain>(v, c.keys);
        Tag t = f(v);
        verify(v.begin(), v.end(), c, what, true);
        PBT_CHECK(t.n == n && t.ov == ov, "mixed implementation, %s: overload %d was called instead of %d", what, t.ov, ov);
    };
    call("(range)", 20, [&](auto& v) { return s(v); });
    call("(first, last)", 11, [&](auto& v) { return s(v.begin(), v.end()); });
    call("(range, compare)", 11, [&](auto& v) { return s(v, ElemCmp{}); });
    call("(range, less)", 11, [&](auto& v) { return s(v, std::less<>{}); });
    call("(range, projection)", 11, [&](auto& v) { return s(v, KeyProj{}); });
    call("(range, compare, projection)", 11, [&](auto& v) { return s(v, td::Cmp{}, KeyProj{}); });
#ifdef __cpp_lib_ranges
    std::vector<int> ints, want = c.keys;
    std::sort(want.begin(), want.end());
    auto ic = [&](const char* what, auto f) {
        ints = c.keys; f();
        PBT_CHECK(ints == want, "%s: not sorted", what);
    };
    auto forms = [&](auto so) {
        auto b = [&] { return ints.begin(); }; auto e = [&] { return ints.end(); };
        std::ranges::less rl; std::identity si; std::less<> l;
        ic("(range, ranges::less)", [&] { so(ints, rl); });
        ic("(first, last, ranges::less)", [&] { so(b(), e(), rl); });
        ic("(range, std::identity)", [&] { so(ints, si); });
        ic("(first, last, std::identity)", [&] { so(b(), e(), si); });
        ic("(range, ranges::less, std::identity)", [&] { so(ints, rl, si); });
        ic("(first, last, ranges::less, std::identity)", [&] { so(b(), e(), rl, si); });
        ic("(range, less, std::identity)", [&] { so(ints, l, si); });
        ic("(first, last, less, std::identity)", [&] { so(b(), e(), l, si); });
    };
    struct Rec { int v, x; };
    auto pforms = [&](auto so) {
        auto pc = [&](const char* what, auto f) {
            std::vector<Rec> r; for (std::size_t i = 0; i < c.keys.size(); ++i) r.push_back({c.keys[i], (int)i});
            f(r);
            for (std::size_t i = 0; i < r.size(); ++i) PBT_CHECK(r[i].v == want[i] && c.keys[r[i].x] == r[i].v, "%s: not sorted", what);
        };
        std::ranges::less rl;
        pc("(range, ranges::less, projection)", [&](auto& r) { so(r, rl, &Rec::v); });
        pc("(first, last, ranges::less, projection)", [&](auto& r) { so(r.begin(), r.end(), rl, &Rec::v); });
        pc("(view, ranges::less, projection)", [&](auto& r) { so(View{r.begin(), r.end()}, rl, &Rec::v); });
    };
    pforms(cs::pdq_sorter{}); pforms(cs::spread_sorter{}); pforms(cs::ska_sorter{}); pforms(cs::indirect_adapter<cs::heap_sorter>{});
    pforms(cs::stable_adapter<cs::mel_sorter>{}); pforms(cs::schwartz_adapter<cs::smooth_sorter>{}); pforms(cs::out_of_place_adapter<cs::ska_sorter>{});
    pforms(Fac<ImplIterP>{}); pforms(Fac<ImplIterC>{}); pforms(Fac<ImplIterCP>{}); pforms(Fac<ImplBothCP>{});
    forms(cs::pdq_sorter{}); forms(cs::spread_sorter{}); forms(cs::counting_sorter{}); forms(cs::ska_sorter{}); forms(cs::merge_sorter{});
    forms(Fac<ImplIter0>{}); forms(Fac<ImplIterC>{}); forms(Fac<ImplIterP>{}); forms(Fac<ImplIterCP>{}); forms(Fac<ImplBothCP>{});
#endif
}

// Type-specific sorters: comparison objects they know, projections
template<typename S, typename T> void t_specific(Src& src, const char* name)
{
    auto raw = gen::keys(src, 400);
    std::vector<T> in;
    if constexpr (std::is_same<T, std::string>::value) for (auto x: raw) in.push_back(std::to_string(x % 100000));
    else for (auto x: raw) in.push_back((T)x);
    src.note("%s n=%zu ", name, in.size());
    src.nontrivial_if(in.size() >= 2 && !std::is_sorted(in.begin(), in.end()));
    auto want = in; std::sort(want.begin(), want.end());
    const S s{};
    const std::less<> less{}; const su::identity id{};
    struct Rec { T v; int x; };
    auto chk = [&](const char* form, auto f) {
        auto v = in; f(v);
        PBT_CHECK(v == want, "%s, %s: not sorted", name, form);
    };
    chk("(range)", [&](auto& v) { s(v); });
    chk("(first, last)", [&](auto& v) { s(v.begin(), v.end()); });
    chk("(range, less)", [&](auto& v) { s(v, less); });
    chk("(first, last, less)", [&](auto& v) { s(v.begin(), v.end(), less); });
    chk("(range, identity)", [&](auto& v) { s(v, id); });
    chk("(first, last, identity)", [&](auto& v) { s(v.begin(), v.end(), id); });
    chk("(range, less, identity)", [&](auto& v) { s(v, less, id); });
    chk("(first, last, less, identity)", [&](auto& v) { s(v.begin(), v.end(), less, id); });
    chk("(view)", [&](auto& v) { s(View{v.begin(), v.end()}); });
    chk("sort(sorter, range)", [&](auto& v) { cs::sort(s, v); });
    chk("sort(sorter, first, last)", [&](auto& v) { cs::sort(s, v.begin(), v.end()); });
    chk("pointer to function of a range", [&](auto& v) { void(*p)(std::vector<T>&) = s; p(v); });
    chk("pointer to function of iterators", [&](auto& v) { void(*p)(typename std::vector<T>::iterator, typename std::vector<T>::iterator) = s; p(v.begin(), v.end()); });
    if constexpr (cs::is_projection_sorter_v<S, std::vector<Rec>&, T Rec::*>) {
        auto chk2 = [&](const char* form, auto f) {
            std::vector<Rec> v; for (std::size_t i = 0; i < in.size(); ++i) v.push_back({in[i], (int)i});
            f(v);
            for (std::size_t i = 0; i < v.size(); ++i) PBT_CHECK(v[i].v == want[i] && in[v[i].x] == v[i].v, "%s, %s: not sorted", name, form);
        };
        chk2("(range, projection)", [&](auto& v) { s(v, &Rec::v); });
        chk2("(first, last, projection)", [&](auto& v) { s(v.begin(), v.end(), &Rec::v); });
        chk2("(range, less, projection)", [&](auto& v) { s(v, less, &Rec::v); });
        chk2("(first, last, less, projection)", [&](auto& v) { s(v.begin(), v.end(), less, &Rec::v); });
        chk2("(view, projection)", [&](auto& v) { s(View{v.begin(), v.end()}, &Rec::v); });
    }
}

template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(std::string(name) + "/forms", 500, 12000, [name](Src& s) { t_forms<S, Stable>(s, name, Quad); });
}
template<int I, typename S, bool Stable>
void maybe_a(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(std::string(name) + "/arrays", 500, 12000, [name](Src& s) { t_arrays<S, Stable>(s, name); });
}
template<int I, typename S, typename T>
void maybe_t(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(std::string(name) + "/specific", 1000, 20000, [name](Src& s) { t_specific<S, T>(s, name); });
}

void register_tests()
{
#ifdef CPP20
    pbt::add_test("sorter_facade over partial implementations (C++20)", 4000, 100000, t_facade);
    pbt::add_test("standard function objects of C++20", 4000, 100000, t_mixed);
    return;
#else
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    COMPARISON_SORTERS(X)
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, STABLE, true>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#define X(NAME, STABLE, ...) maybe_a<__COUNTER__ - base - 1, __VA_ARGS__, STABLE>(NAME);
    X("quick", false, cs::quick_sorter)
    X("tim", true, cs::tim_sorter)
    X("default", false, cs::default_sorter)
    X("counting<heap>", false, cs::counting_adapter<cs::heap_sorter>)
    X("comparisons<merge>", true, cs::metrics::comparisons<cs::merge_sorter>)
    X("stable<poplar>", true, cs::stable_adapter<cs::poplar_sorter>)
    X("indirect<smooth>", false, cs::indirect_adapter<cs::smooth_sorter>)
    X("schwartz<insertion>", true, cs::schwartz_adapter<cs::insertion_sorter>)
    X("hybrid<mel,grail>", false, cs::hybrid_adapter<cs::mel_sorter, cs::grail_sorter<>>)
    X("verge<spin>", false, cs::verge_adapter<cs::spin_sorter>)
    X("out_of_place<std>", false, cs::out_of_place_adapter<cs::std_sorter>)
    X("self_sort<wiki>", true, cs::self_sort_adapter<cs::wiki_sorter<>>)
    X("small_array<network,slab>", false, cs::hybrid_adapter<cs::small_array_adapter<cs::sorting_network_sorter, std::make_index_sequence<14>>, cs::slab_sorter>)
    X("small_array<low_comparisons,slab>", false, cs::hybrid_adapter<cs::small_array_adapter<cs::low_comparisons_sorter>, cs::slab_sorter>)
#undef X
#define X(TYPE, T) maybe_t<__COUNTER__ - base - 1, cs::TYPE, T>(#TYPE " " #T);
    X(ska_sorter, int) X(ska_sorter, std::string) X(spread_sorter, int) X(spread_sorter, std::string) X(spread_sorter, double)
    X(counting_sorter, short) X(integer_spread_sorter, long long) X(float_spread_sorter, float) X(string_spread_sorter, std::string)
    X(out_of_place_adapter<cs::ska_sorter>, int) X(indirect_adapter<cs::heap_sorter>, std::string)
#undef X
    if (PART == NPARTS - 1) {
        pbt::add_test("generic sort functions", 4000, 100000, t_default);
        pbt::add_test("sorter_facade over partial implementations", 4000, 100000, t_facade);
        pbt::add_test("sorter_facade, mixed implementation", 4000, 100000, t_mixed);
    }
#endif
}
