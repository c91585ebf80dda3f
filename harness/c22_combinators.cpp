// C22: flip, not_fn and projection_compare: generated compositions against a model.
#include "gen.h"
#include "pbt.h"
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/utility/functional.h>
#include <functional>
#include <list>
#include <string>

namespace cs = cppsort;
using pbt::Src; using pbt::i64; using pbt::u64;

constexpr int LV = 0, CLV = 1, RV = 2, CRV = 3;
template<typename T> constexpr int category() { return std::is_lvalue_reference<T>::value ? (std::is_const<std::remove_reference_t<T>>::value ? CLV : LV) : (std::is_const<std::remove_reference_t<T>>::value ? CRV : RV); }

struct V { int v; };    // argument: the category in which it is received is part of the result
inline int val(int x) { return x; }
inline int val(const V& x) { return x.v; }

// asymmetric predicates, with state
struct Pred
{
    int mode = 0, k = 0;
    template<typename T, typename U>
    bool operator()(T&& a, U&& b) const
    {
        int x = val(a), y = val(b);
        switch (mode) {
            case 0: return x < y;
            case 1: return x + k < 2 * y;
            case 2: return ((x * 7 + y * 3 + k) & 4) != 0;
            case 3: return x % (k + 2) < y % (k + 3);
            default: return x == k;
        }
    }
    using is_transparent = void;
};
struct IntPred { Pred p; bool operator()(int a, int b) const { return p(a, b); } };      // not transparent
struct Affine { int a = 1, c = 0; template<typename T> int operator()(T&& x) const { return a * val(x) + c; } using is_transparent = void; };
struct NoisyAffine { int a = 1, c = 0; int operator()(int x) const noexcept { return a * x + c; } };

struct Model    // (x, y) -> neg != pred(proj(x or y), proj(y or x)), projections applied from the outside
{
    Pred p;
    bool flip = false, neg = false;
    std::vector<std::pair<int, int>> projs;
    bool operator()(int x, int y) const
    {
        for (auto it = projs.rbegin(); it != projs.rend(); ++it) { x = it->first * x + it->second; y = it->first * y + it->second; }
        return neg != (flip ? p(y, x) : p(x, y));
    }
};

template<typename F>
void compare(const char* how, F&& f, const Model& m, int x, int y)
{
    bool got = f(x, y), want = m(x, y);
    if (got != want) pbt::fail("%s: f(%d, %d) is %d, expected %d", how, x, y, (int)got, (int)want);
}
template<typename F>
void check(F f, const Model& m, const std::vector<std::pair<int, int>>& args)
{
    for (auto a: args) {
        int x = a.first, y = a.second;
        const F& c = f;
        compare("lvalue", f, m, x, y);
        compare("constant", c, m, x, y);
        compare("rvalue", F(f), m, x, y);
        if (static_cast<const F&&>(c)(x, y) != m(x, y)) pbt::fail("constant rvalue: f(%d, %d) is %d", x, y, (int)!m(x, y));
        const int cx = x;
        if (f(cx, int(y)) != m(x, y) || c(int(x), y) != m(x, y)) pbt::fail("f(%d, %d) depends on the value category", x, y);
    }
}

template<int Depth, typename F>
void grow(Src& src, F f, Model m, const std::vector<std::pair<int, int>>& args)
{
    check(f, m, args);
    if constexpr (Depth > 0) {
        u64 op = src.below(8);
        if (op != 7) src.note("%llu.", (unsigned long long)op);
        switch (op) {
            case 0: m.flip = !m.flip; { auto g = cs::flip(f); check(cs::flip(std::move(f)), m, args); grow<Depth - 1>(src, g, m, args); } break;
            case 1: m.neg = !m.neg; { auto g = cs::not_fn(f); check(cs::not_fn(std::move(f)), m, args); grow<Depth - 1>(src, g, m, args); } break;
            case 2: {
                int a = (int)src.below(5) - 2, c = (int)src.below(5) - 2;
                src.note("(%d,%d)", a, c);
                m.projs.emplace_back(a, c);
                grow<Depth - 1>(src, cs::make_projection_compare(f, NoisyAffine{a, c}), m, args);
                break;
            }
            case 3: m.flip = !m.flip; grow<Depth - 1>(src, cs::flip_t<F>(f), m, args); break;
            case 4: m.neg = !m.neg; grow<Depth - 1>(src, cs::not_fn_t<F>(f), m, args); break;
            case 5: {
                auto g = cs::make_projection_compare(std::move(f), cs::utility::identity{});
                static_assert(std::is_same<decltype(g), F>::value, "unwrapped");
                const cs::utility::identity cid{};
                check(cs::make_projection_compare(g, cid), m, args);
#if CPPSORT_STD_IDENTITY_AVAILABLE
                auto h = cs::make_projection_compare(g, std::identity{});
                static_assert(std::is_same<decltype(h), F>::value, "unwrapped");
                check(h, m, args);
                const std::identity csid{};
                g = cs::make_projection_compare(std::move(h), csid);
#endif
                grow<Depth - 1>(src, g, m, args);
                break;
            }
            case 6: m.projs.emplace_back(-1, 3); grow<Depth - 1>(src, cs::projection_compare<F, Affine>(f, Affine{-1, 3}), m, args); break;
        }
    }
}

template<typename P>
void t_compose(Src& src)
{
    Model m;
    m.p = {(int)src.below(5), (int)src.below(4)};
    std::vector<std::pair<int, int>> args;
    u64 n = 1 + src.below(4);
    while (n--) { int x = (int)src.below(12) - 4; args.emplace_back(x, src.below(3) ? (int)src.below(12) - 4 : x); }
    src.note("predicate %d %d, args ", m.p.mode, m.p.k);
    for (auto a: args) src.note("(%d,%d) ", a.first, a.second);
    src.nontrivial();
    grow<4>(src, P{m.p}, m, args);
}

// documented unwrappings: flipping or negating twice gives the original function back, state included
void t_unwrap(Src& src)
{
    Pred p{(int)src.below(5), (int)src.below(4)};
    src.note("predicate %d %d ", p.mode, p.k);
    src.nontrivial();
    auto same = [&](auto f, const char* what) {
        static_assert(std::is_same<decltype(f), Pred>::value, "original function");
        if (f.mode != p.mode || f.k != p.k) pbt::fail("%s: another state", what);
    };
    same(cs::flip(cs::flip(p)), "flip(flip(f))");
    same(cs::not_fn(cs::not_fn(p)), "not_fn(not_fn(f))");
    same(cs::flip(cs::not_fn(cs::flip(cs::not_fn(p)))), "flip(not_fn(flip(not_fn(f))))");
    same(cs::not_fn(cs::flip(cs::not_fn(cs::flip(p)))), "not_fn(flip(not_fn(flip(f))))");
    const auto f = cs::flip(p);
    same(cs::flip(f), "flip of a constant flip");
    same(f.base(), "flip(f).base()");
    const auto n = cs::not_fn(p);
    same(cs::not_fn(n), "not_fn of a constant not_fn");
    same(n.base(), "not_fn(f).base()");
    auto nf = cs::not_fn(cs::flip(p));
    static_assert(std::is_same<decltype(cs::flip(nf)), cs::not_fn_t<Pred>>::value, "documented");
    same(cs::flip(nf).base(), "flip(not_fn(flip(f))).base()");
    auto fn = cs::flip(cs::not_fn(p));
    static_assert(std::is_same<decltype(cs::not_fn(fn)), cs::flip_t<Pred>>::value, "documented");
    same(cs::not_fn(fn).base(), "not_fn(flip(not_fn(f))).base()");
    Affine a{(int)src.below(5) - 2, (int)src.below(5) - 2};
    auto pc = cs::make_projection_compare(p, a);
    same(pc.comparison(), "comparison()");
    if (pc.projection().a != a.a || pc.projection().c != a.c) pbt::fail("projection(): another state");
    auto fpc = cs::flip(pc);
    static_assert(std::is_same<decltype(fpc), cs::projection_compare<cs::flip_t<Pred>, Affine>>::value, "documented");
    auto npc = cs::not_fn(pc);
    static_assert(std::is_same<decltype(npc), cs::projection_compare<cs::not_fn_t<Pred>, Affine>>::value, "documented");
    same(cs::flip(fpc).comparison(), "flip(flip(projection_compare))");
    same(cs::not_fn(npc).comparison(), "not_fn(not_fn(projection_compare))");
    if (fpc.projection().a != a.a || npc.projection().c != a.c) pbt::fail("the projection of a flipped or negated projection_compare has another state");
}

////////////////////////////////////////////////////////////
// Forwarding of arguments and of the function itself

struct Cats { int a, b; };
struct Show
{
    template<typename T, typename U> int operator()(T&& a, U&& b) const { return val(a) * 1000 + val(b) * 100 + category<T&&>() * 10 + category<U&&>(); }
};
struct Self
{
    template<typename T, typename U> int operator()(T&&, U&&) & { return LV; }
    template<typename T, typename U> int operator()(T&&, U&&) const& { return CLV; }
    template<typename T, typename U> int operator()(T&&, U&&) && { return RV; }
    template<typename T, typename U> int operator()(T&&, U&&) const&& { return CRV; }
};
struct NotSelf     // false for one category only
{
    int which;
    template<typename T, typename U> bool operator()(T&&, U&&) & { return which == LV; }
    template<typename T, typename U> bool operator()(T&&, U&&) const& { return which == CLV; }
    template<typename T, typename U> bool operator()(T&&, U&&) && { return which == RV; }
    template<typename T, typename U> bool operator()(T&&, U&&) const&& { return which == CRV; }
};
struct Pass { template<typename T> T&& operator()(T&& x) const { return static_cast<T&&>(x); } };
struct ShowPred
{
    int* out;
    template<typename T, typename U> bool operator()(T&& a, U&& b) const { *out = Show{}(std::forward<T>(a), std::forward<U>(b)); return true; }
};

void t_forward(Src& src)
{
    int x = 1 + (int)src.below(9), y = 1 + (int)src.below(9);
    src.note("%d %d ", x, y);
    src.nontrivial();
    V a{x}, b{y};
    const V ca{x}, cb{y};
    auto f = cs::flip_t<Show>(Show{});
    auto expect = [&](const char* what, int got, int v1, int v2, int c1, int c2) {
        int want = v1 * 1000 + v2 * 100 + c1 * 10 + c2;
        if (got != want) pbt::fail("%s: received values %d, %d as %d, %d (expected %d, %d as %d, %d)", what, got / 1000, got / 100 % 10, got / 10 % 10, got % 10, v1, v2, c1, c2);
    };
    expect("flip", f(a, b), y, x, LV, LV);
    expect("flip", f(ca, b), y, x, LV, CLV);
    expect("flip", f(V{x}, cb), y, x, CLV, RV);
    expect("flip", f(std::move(ca), std::move(b)), y, x, RV, CRV);
    expect("flip, const", static_cast<const decltype(f)&>(f)(a, V{y}), y, x, RV, LV);
    expect("flip, rvalue", decltype(f)(f)(V{x}, b), y, x, LV, RV);
    int out = 0;
    auto n = cs::not_fn(ShowPred{&out});
    if (n(a, V{y})) pbt::fail("not_fn did not negate");
    expect("not_fn", out, x, y, LV, RV);
    static_cast<const decltype(n)&>(n)(ca, b); expect("not_fn, const", out, x, y, CLV, LV);
    auto n2 = n; std::move(n2)(V{x}, cb); expect("not_fn, rvalue", out, x, y, RV, CLV);
    auto p = cs::make_projection_compare(ShowPred{&out}, Pass{});
    p(a, V{y}); expect("projection_compare", out, x, y, LV, RV);
    static_cast<const decltype(p)&>(p)(ca, b); expect("projection_compare, const", out, x, y, CLV, LV);
    auto p2 = p; std::move(p2)(V{x}, cb); expect("projection_compare, rvalue", out, x, y, RV, CLV);

    cs::flip_t<Self> s{};
    const cs::flip_t<Self>& cself = s;
    auto self = [](const char* what, int got, int want) { if (got != want) pbt::fail("%s called its function as %d", what, got); };
    self("flip, lvalue", s(1, 2), LV);
    self("flip, constant", cself(1, 2), CLV);
    self("flip, rvalue", std::move(s)(1, 2), RV);
    self("flip, constant rvalue", std::move(cself)(1, 2), CRV);
    for (int w = 0; w < 4; ++w) {
        cs::not_fn_t<NotSelf> ns(NotSelf{w});
        const auto& cns = ns;
        if (ns(1, 2) != (w != LV) || cns(1, 2) != (w != CLV) || std::move(ns)(1, 2) != (w != RV) || std::move(cns)(1, 2) != (w != CRV)) pbt::fail("not_fn calls its function with another value category");
    }
}

////////////////////////////////////////////////////////////
// Function pointers, pointers to members, library and standard function objects

struct P2
{
    int key, other;
    bool less(const P2& o) const { return key < o.key; }
    int twice() const { return 2 * key; }
};
bool fn_less(const P2& a, const P2& b) { return a.other < b.other; }

void t_callables(Src& src)
{
    P2 a{(int)src.below(5), (int)src.below(5)}, b{(int)src.below(5), (int)src.below(5)};
    src.note("{%d,%d} {%d,%d} ", a.key, a.other, b.key, b.other);
    src.nontrivial_if(a.key != b.key);
    auto eq = [](const char* what, bool got, bool want) { if (got != want) pbt::fail("%s is %d", what, (int)got); };
    eq("flip(&P2::less)", cs::flip(&P2::less)(a, b), b.key < a.key);
    eq("not_fn(&P2::less)", cs::not_fn(&P2::less)(a, b), !(a.key < b.key));
    eq("flip(pointer)", cs::flip(fn_less)(a, b), b.other < a.other);
    eq("not_fn(pointer)", cs::not_fn(&fn_less)(a, b), !(a.other < b.other));
    eq("projection_compare(less, &P2::key)", cs::make_projection_compare(std::less<>{}, &P2::key)(a, b), a.key < b.key);
    eq("projection_compare(greater, &P2::twice)", cs::make_projection_compare(std::greater<>{}, &P2::twice)(a, b), a.key > b.key);
    eq("flip(projection_compare(less, &P2::key))", cs::flip(cs::make_projection_compare(std::less<>{}, &P2::key))(a, b), a.key > b.key);
    eq("not_fn(projection_compare(less, &P2::key))", cs::not_fn(cs::make_projection_compare(std::less<>{}, &P2::key))(a, b), a.key >= b.key);
    P2 *pa = &a, *pb = &b;
    eq("projection_compare through pointers", cs::make_projection_compare(std::less<>{}, &P2::key)(pa, pb), a.key < b.key);
    int x = a.key, y = b.key;
    eq("flip(less)", cs::flip(std::less<>{})(x, y), x > y);
    eq("not_fn(less)", cs::not_fn(std::less<>{})(x, y), x >= y);
    eq("flip(less_equal)", cs::flip(std::less_equal<int>{})(x, y), x >= y);
    eq("not_fn(equal_to)", cs::not_fn(std::equal_to<>{})(x, y), x != y);
    eq("flip(total_less)", cs::flip(cs::total_less)(x, y), x > y);
    eq("not_fn(total_less)", cs::not_fn(cs::total_less)(x, y), x >= y);
    std::string s = "a" + std::to_string(x), t = "A" + std::to_string(y);
    eq("flip(natural_less)", cs::flip(cs::natural_less)(s, t), true);
    eq("flip(case_insensitive_less)", cs::flip(cs::case_insensitive_less)(s, t), x > y);
    eq("not_fn of a unary function", cs::not_fn([](int v) { return v > 2; })(x), x <= 2);
    eq("not_fn of a function without parameters", cs::not_fn([=] { return x > y; })(), x <= y);
#ifdef __cpp_lib_ranges
    eq("flip(ranges::less)", cs::flip(std::ranges::less{})(x, y), x > y);
    eq("not_fn(ranges::greater)", cs::not_fn(std::ranges::greater{})(x, y), x <= y);
    eq("not_fn(ranges::equal_to)", cs::not_fn(std::ranges::equal_to{})(x, y), x != y);
    eq("flip(ranges::less_equal)", cs::flip(std::ranges::less_equal{})(x, y), x >= y);
    eq("projection_compare(ranges::greater, &P2::twice)", cs::make_projection_compare(std::ranges::greater{}, &P2::twice)(a, b), a.key > b.key);
    eq("flip(projection_compare(ranges::less, &P2::key))", cs::flip(cs::make_projection_compare(std::ranges::less{}, &P2::key))(a, b), a.key > b.key);
#endif
    static_assert(cs::flip(std::less<>{})(2, 1) && cs::not_fn(std::less<>{})(2, 1), "constant expressions");
    static_assert(std::is_same<decltype(cs::flip(std::minus<>{})(1, 2L)), long>::value, "type of the result");
    int d = cs::flip(std::minus<>{})(x, y);
    if (d != y - x) pbt::fail("flip(minus) is %d", d);
    // results returned by reference
    int left = 0, right = 0;
    auto pick = [&](int v, int w) -> int& { return v < w ? left : right; };
    cs::flip(pick)(2, 1) = x + 1;
    if (left != x + 1 || right != 0) pbt::fail("flip does not return the reference returned by its function");
    // traits
    static_assert(cs::utility::is_probably_branchless_comparison<cs::flip_t<std::less<>>, int>::value == cs::utility::is_probably_branchless_comparison<std::less<>, int>::value, "");
    static_assert(!cs::utility::is_probably_branchless_comparison<cs::flip_t<std::less<>>, std::string>::value, "");
}

template<typename F, typename = void> struct transparent: std::false_type {};
template<typename F> struct transparent<F, decltype(void(std::declval<typename F::is_transparent*>()))>: std::true_type {};
static_assert(transparent<cs::flip_t<Pred>>::value && !transparent<cs::flip_t<IntPred>>::value, "");
static_assert(transparent<cs::not_fn_t<Pred>>::value && !transparent<cs::not_fn_t<IntPred>>::value, "");
static_assert(transparent<cs::projection_compare<Pred, Affine>>::value && !transparent<cs::projection_compare<IntPred, Affine>>::value && !transparent<cs::projection_compare<Pred, NoisyAffine>>::value, "");

// move-only functions
struct MoveOnly
{
    std::unique_ptr<int> k;
    bool operator()(int a, int b) const { return a + *k < b; }
};
void t_move_only(Src& src)
{
    int k = (int)src.below(4), x = (int)src.below(8), y = (int)src.below(8);
    src.note("%d %d %d ", k, x, y);
    src.nontrivial_if(x != y);
    auto f = cs::flip(MoveOnly{std::make_unique<int>(k)});
    if (f(x, y) != (y + k < x)) pbt::fail("flip of a move-only function");
    auto n = cs::not_fn(MoveOnly{std::make_unique<int>(k)});
    if (n(x, y) == (x + k < y)) pbt::fail("not_fn of a move-only function");
    auto g = std::move(f);
    if (g(x, y) != (y + k < x)) pbt::fail("moved flip of a move-only function");
    cs::projection_compare<MoveOnly, std::negate<>> p(MoveOnly{std::make_unique<int>(k)}, std::negate<>{});
    if (p(x, y) != (-x + k < -y)) pbt::fail("projection_compare of a move-only function");
    auto q = cs::make_projection_compare(MoveOnly{std::make_unique<int>(k)}, std::negate<>{});
    if (q(x, y) != (-x + k < -y)) pbt::fail("make_projection_compare of a move-only function");
}

// sorting with combined comparisons
template<typename S>
void t_sort(Src& src)
{
    auto keys = gen::keys(src, 300);
    std::vector<int> v;
    for (auto k: keys) v.push_back((int)(k % 100000));
    src.note_seq("v", v);
    src.nontrivial_if(!std::is_sorted(v.begin(), v.end()));
    S sort;
    auto run = [&](const char* what, auto f, auto model) {
        auto a = v, b = v;
        sort(a, f);
        std::stable_sort(b.begin(), b.end(), model);
        for (std::size_t i = 0; i < a.size(); ++i) if (model(a[i], b[i]) || model(b[i], a[i])) pbt::fail("%s: %d at position %zu, expected %d", what, a[i], i, b[i]);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) pbt::fail("%s: elements were lost", what);
    };
    run("flip(less)", cs::flip(std::less<>{}), std::greater<>{});
    run("flip(greater)", cs::flip(std::greater<int>{}), std::less<>{});
    run("not_fn(greater_equal)", cs::not_fn(std::greater_equal<>{}), std::less<>{});
    run("flip(not_fn(less_equal))", cs::flip(cs::not_fn(std::less_equal<>{})), std::less<>{});
    run("projection_compare(less, negate)", cs::make_projection_compare(std::less<>{}, std::negate<>{}), std::greater<>{});
    run("flip(projection_compare(less, negate))", cs::flip(cs::make_projection_compare(std::less<>{}, std::negate<>{})), std::less<>{});
    auto tens = [](int x) { return x / 10; };
    run("projection_compare(greater, x / 10)", cs::make_projection_compare(std::greater<>{}, tens), [](int a, int b) { return a / 10 > b / 10; });
    run("projection_compare(flip(less), x / 10)", cs::make_projection_compare(cs::flip(std::less<>{}), tens), [](int a, int b) { return a / 10 > b / 10; });
}

void register_tests()
{
    if (PART == 0) {
        pbt::add_test("compose", 12000, 200000, t_compose<Pred>);
        pbt::add_test("unwrap", 500, 2000, t_unwrap);
        pbt::add_test("forward", 500, 2000, t_forward);
        pbt::add_test("callables", 3000, 10000, t_callables);
        pbt::add_test("move only", 1000, 2000, t_move_only);
    }
    if (NPARTS == 1 || PART == 1) {
        pbt::add_test("compose, int", 12000, 200000, t_compose<IntPred>);
        pbt::add_test("sort, pdq", 1000, 10000, t_sort<cs::pdq_sorter>);
        pbt::add_test("sort, merge", 1000, 10000, t_sort<cs::merge_sorter>);
        pbt::add_test("sort, heap", 1000, 10000, t_sort<cs::heap_sorter>);
        pbt::add_test("sort, tim", 1000, 10000, t_sort<cs::tim_sorter>);
    }
}
