// C28: the function objects, buffers, and small tools of cpp-sort/utility behave as documented.
#include "sortcheck.h"
#include <array>
#include <cmath>
#include <set>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/utility/adapter_storage.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/make_integer_range.h>
#include <cpp-sort/utility/size.h>

using namespace sc;
namespace cs = cppsort;
namespace cu = cppsort::utility;

////////////////////////////////////////////////////////////
// Chained projections

struct Inner { int a, b; int sum() const { return a + 3 * b; } int& ref_b() { return b; } };
struct Outer { Inner in; Inner* ptr; int z; Inner get_in() const { return in; } };

struct Add: cu::projection_base { int k; Add(int k): k(k) {} int operator()(int x) const { return x + k; } };
struct MulRaw { int k; int operator()(int x) const { return x * k; } };             // needs the other side to be a projection_base
struct Counted: cu::projection_base { int n = 0; int* total; Counted(int* t): total(t) {} int operator()(int x) { ++*total; return x ^ ++n; } };   // not const-callable
struct Neg: cu::projection_base { template<typename T> auto operator()(T&& x) const -> decltype(-x) { return -x; } using is_transparent = void; };
struct MoveOnlyAdd: cu::projection_base {
    std::unique_ptr<int> k; MoveOnlyAdd(int v): k(new int(v)) {}
    int operator()(int x) const { return x + *k; }
};
static int twice(int x) { return 2 * x; }

static void t_pipe(Src& src)
{
    int k = (int)src.range(-50, 50), m = (int)src.range(-9, 9), a = (int)src.range(-1000, 1000), b = (int)src.range(-1000, 1000), z = (int)src.range(-1000, 1000);
    int form = (int)src.below(16);
    src.note("k=%d m=%d a=%d b=%d z=%d form=%d ", k, m, a, b, z, form);
    src.nontrivial_if(k != 0 && m != 0 && m != 1 && a != b);
    Inner other{b, a};
    Outer o{{a, b}, &other, z};
    const Outer& co = o;
    const Add add(k); MulRaw mul{m}; cu::indirect ind; cu::identity id;
    int x = a;
    static_assert(cs::detail::has_is_transparent_v<decltype(Neg{} | cu::half{})> && !cs::detail::has_is_transparent_v<decltype(add | mul)>
                  && !cs::detail::has_is_transparent_v<decltype(add | cu::half{})> && !cs::detail::has_is_transparent_v<decltype(cu::half{} | add)>, "transparent chains");
#define EQ(GOT, EXPECTED) do { auto g_ = (GOT); auto e_ = (EXPECTED); PBT_CHECK(g_ == e_, "form %d: %lld instead of %lld", form, (long long)g_, (long long)e_); } while (0)
    switch (form) {
        case 0: { auto p = add | mul; EQ(p(x), (x + k) * m); const auto cp = p; EQ(cp(x), (x + k) * m); break; }
        case 1: { auto p = mul | add; EQ(p(x), x * m + k); auto q = p | p; EQ(q(x), (x * m + k) * m + k); break; }
        case 2: { auto p = mul | (add | mul) | add; EQ(p(x), (x * m + k) * m + k); break; }
        case 3: { auto p = &Outer::in | cu::as_projection(&Inner::b) | mul; EQ(p(o), b * m); EQ(p(co), b * m); EQ(p(Outer(o)), b * m); break; }
        case 4: { auto p = cu::as_projection(&Outer::ptr) | ind | &Inner::a; EQ(&p(o) == &other.a, true); EQ(p(co), b); p(o) = 77; EQ(other.a, 77); break; }
        case 5: { auto p = cu::as_projection(&Outer::get_in) | &Inner::sum | add; EQ(p(co), a + 3 * b + k); break; }
        case 6: { int total = 0; auto p = add | Counted(&total); int r1 = p(x), r2 = p(x); EQ(r1, (x + k) ^ 1); EQ(r2, (x + k) ^ 2); EQ(total, 2); break; }
        case 7: { auto p = id | mul; EQ(p(x), x * m); auto q = mul | id; EQ(q(x), x * m); auto r = id | id; EQ(r(x), x); auto s = add | id | mul; EQ(s(x), (x + k) * m);
#if CPPSORT_STD_IDENTITY_AVAILABLE
            std::identity sid; auto t = sid | add | mul; EQ(t(x), (x + k) * m); auto u = add | mul | sid; EQ(u(x), (x + k) * m); auto w = add | sid | mul | std::identity{}; EQ(w(x), (x + k) * m);
            const auto ca = add; auto cw = ca | sid; EQ(cw(x), x + k); auto mo = std::identity{} | MoveOnlyAdd(k) | sid; EQ(mo(x), x + k);
            auto ii = id | sid; EQ(&ii(x) == &x, true); auto jj = sid | id; EQ(&jj(x) == &x, true);
            auto pr = cu::as_projection(&Outer::in) | sid | &Inner::a; EQ(&pr(o) == &o.in.a, true);
            EQ(&(add | sid) == &add, true); EQ(&(sid | add) == &add, true);
#endif
            break; }
        case 8: { auto p = Neg{} | twice; EQ(p(x), -2 * x); auto q = &twice | Neg{}; EQ(q(x), -2 * x); break; }
        case 9: { auto p = MoveOnlyAdd(k) | mul; EQ(p(x), (x + k) * m); auto q = std::move(p) | add; EQ(q(x), (x + k) * m + k); break; }
        case 10: { auto f = [k](int v) { return v - k; }; auto p = cu::as_projection(f) | [m](int v) { return v * m; } | add; EQ(p(x), (x - k) * m + k); break; }
        case 11: { std::vector<int> v{a, b, z}; auto p = ind | add; EQ(p(v.begin() + 1), b + k); EQ(p(&v[2]), z + k); auto u = std::make_unique<int>(a); EQ(p(u), a + k); EQ(p(std::move(u)), a + k); break; }
        case 12: { cu::half h; cu::sqrt s; unsigned y = (unsigned)(a + 1000); auto p = h | s; EQ(p(y), std::sqrt(y / 2)); EQ(h(a), a / 2); EQ(h(double(a)), a / 2.0); break; }
        case 13: { Add l(k); auto p = l | mul; l.k = 12345; mul.k = 54321; EQ(p(x), (x + k) * m); break; }    // the chain owns its parts
        case 14: { auto p = add | cs::natural_less; (void)p; auto q = add | add | add | add | add; EQ(q(x), x + 5 * k); break; }
        default: {
            // in a sorter
            std::vector<Outer> v; int n = (int)src.below(40);
            for (int i = 0; i < n; ++i) { int q = (int)src.range(-20, 20); v.push_back({{q, i}, nullptr, i}); }
            auto w = v;
            auto p = cu::as_projection(&Outer::in) | &Inner::a | [m](int t) { return t * m; };
            cs::merge_sorter{}(v, p);
            std::stable_sort(w.begin(), w.end(), [m](const Outer& l, const Outer& r) { return l.in.a * m < r.in.a * m; });
            for (int i = 0; i < n; ++i) PBT_CHECK(v[i].z == w[i].z, "sort with a chained projection: position %d", i);
            std::vector<Outer*> ptrs; for (auto& e: v) ptrs.push_back(&e);
            cs::merge_sorter{}(ptrs, std::greater<>{}, ind | &Outer::in | &Inner::b);
            for (int i = 1; i < n; ++i) PBT_CHECK(ptrs[i - 1]->in.b > ptrs[i]->in.b, "sort of pointers with a chained projection: position %d", i);
        }
    }
#undef EQ
}

////////////////////////////////////////////////////////////
// as_projection, as_comparison, as_function, function_constant, identity

static int last_call;       // which overload was used
struct Ambiguous
{
    int k;
    int operator()(int a) const { return (a * 7919) % k; }
    bool operator()(int a, int b) const { return (a ^ k) < (b ^ k); }
};
struct Transparent { template<typename T> T operator()(T a) const { return a; } template<typename T, typename U> bool operator()(T a, U b) const { return a < b; } using is_transparent = void; };
struct Overloads
{
    int k;
    int operator()(int x) & { last_call = 1; return x + k; }
    int operator()(int x) const& { last_call = 2; return x + k; }
    int operator()(int x) && { last_call = 3; return x + k; }
    int operator()(int x) const&& { last_call = 4; return x + k; }
    bool operator()(int x, int y) & { last_call = 11; return x + k < y; }
    bool operator()(int x, int y) const& { last_call = 12; return x + k < y; }
    bool operator()(int x, int y) && { last_call = 13; return x + k < y; }
    bool operator()(int x, int y) const&& { last_call = 14; return x + k < y; }
};
struct Memb { int v; int get() const { return v; } bool less(const Memb& o) const { return v < o.v; } int plus(int x) const { return v + x; } };
static bool gt(int a, int b) { return a > b; }

static void t_wrap(Src& src)
{
    int k = (int)src.range(1, 64);
    std::size_t n = src.below(60);
    std::vector<int> v(n); for (auto& x: v) x = (int)src.range(0, 60);
    src.note("k=%d ", k); src.note_seq("values", v);
    std::set<int> distinct(v.begin(), v.end());
    src.nontrivial_if(distinct.size() >= 3);
    Ambiguous f{k};
    auto chk = [&](std::vector<int> w, auto less, const char* what) {
        auto e = v; std::stable_sort(e.begin(), e.end(), less);
        PBT_CHECK(w == e, "%s: wrong order", what);
    };
    auto by_proj = [&](int a, int b) { return f(a) < f(b); };
    auto by_cmp = [&](int a, int b) { return f(a, b); };
    { auto w = v; cs::merge_sorter{}(w, cu::as_projection(f)); chk(w, by_proj, "as_projection"); }
    { auto w = v; cs::merge_sorter{}(w, cu::as_comparison(f)); chk(w, by_cmp, "as_comparison"); }
    { auto w = v; cs::merge_sorter{}(w, f); chk(w, by_cmp, "ambiguous function"); }
    { auto w = v; cs::merge_sorter{}(w, cu::as_comparison(f), cu::as_projection(f));
      chk(w, [&](int a, int b) { return f(f(a), f(b)); }, "as_comparison, as_projection"); }
    { auto w = v; const auto p = cu::as_projection(cu::as_projection(f)); cs::merge_sorter{}(w, p); chk(w, by_proj, "as_projection twice"); }
    { auto w = v; auto c = cu::as_comparison(f); auto c2 = cu::as_comparison(c); cs::merge_sorter{}(w.begin(), w.end(), c2); chk(w, by_cmp, "as_comparison twice"); }
    { auto w = v; auto p = cu::as_projection(f) | std::negate<>{}; cs::merge_sorter{}(w, p); chk(w, [&](int a, int b) { return f(a) > f(b); }, "as_projection piped"); }
    { std::vector<Memb> w; for (int x: v) w.push_back({x});
      cs::merge_sorter{}(w, cu::as_comparison(&Memb::less)); for (std::size_t i = 1; i < n; ++i) PBT_CHECK(w[i - 1].v <= w[i].v, "as_comparison of a member function");
      cs::merge_sorter{}(w, std::greater<>{}, cu::as_projection(&Memb::get)); for (std::size_t i = 1; i < n; ++i) PBT_CHECK(w[i - 1].v >= w[i].v, "as_projection of a member function");
      cs::merge_sorter{}(w, cu::as_projection(&Memb::v)); for (std::size_t i = 1; i < n; ++i) PBT_CHECK(w[i - 1].v <= w[i].v, "as_projection of a data member"); }
    using P = decltype(cu::as_projection(f)); using C = decltype(cu::as_comparison(f));
    static_assert(!cs::detail::is_invocable_v<P, int, int> && !cs::detail::is_invocable_v<C, int>, "only one of the overloads is exposed");
    static_assert(std::is_base_of<cu::projection_base, P>::value, "as_projection is chainable");
    static_assert(cs::detail::has_is_transparent_v<decltype(cu::as_projection(Transparent{}))>, "transparent");
    static_assert(cs::detail::has_is_transparent_v<decltype(cu::as_comparison(Transparent{}))>, "transparent");
    static_assert(!cs::detail::has_is_transparent_v<P> && !cs::detail::has_is_transparent_v<C>, "not transparent");
    // overload used for each category of the wrapper
    {
        auto p = cu::as_projection(Overloads{k}); const auto cp = p; int x = (int)src.range(-9, 9), r;
        auto is = [&](int call, const char* what) { PBT_CHECK(last_call == call && r == x + k, "as_projection on %s: overload %d, result %d", what, last_call, r); };
        r = p(x); is(1, "an lvalue"); r = cp(x); is(2, "a constant lvalue");
        r = std::move(p)(x); is(3, "an rvalue"); r = std::move(cp)(x); is(4, "a constant rvalue");
        auto c = cu::as_comparison(Overloads{k}); const auto cc = c; int y = (int)src.range(-9, 70); bool b;
        auto isc = [&](int call, const char* what) { PBT_CHECK(last_call == call && b == (x + k < y), "as_comparison on %s: overload %d, result %d", what, last_call, b); };
        b = c(x, y); isc(11, "an lvalue"); b = cc(x, y); isc(12, "a constant lvalue");
        b = std::move(c)(x, y); isc(13, "an rvalue"); b = std::move(cc)(x, y); isc(14, "a constant rvalue");
    }
    // as_function
    {
        Memb m{k}; const Memb cm{k + 1};
        PBT_CHECK(&cu::as_function(&Memb::v)(m) == &m.v && cu::as_function(&Memb::v)(cm) == k + 1 && cu::as_function(&Memb::v)(&m) == k, "as_function of a data member");
        PBT_CHECK(cu::as_function(&Memb::get)(m) == k && cu::as_function(&Memb::plus)(cm, 5) == k + 6, "as_function of a member function");
        auto&& g = cu::as_function(f);
        static_assert(std::is_same<decltype(cu::as_function(f)), Ambiguous&>::value && std::is_same<decltype(cu::as_function(Ambiguous{1})), Ambiguous>::value, "passed as is");
        PBT_CHECK(&g == &f, "as_function copies a function object");
        PBT_CHECK(cu::as_function(gt)(k, k - 1) && !cu::as_function(&gt)(k, k), "as_function of a function");
        cu::function_constant<&gt> fg; cu::function_constant<&Memb::v> fm; const cu::function_constant<&Memb::plus> fp{};
        PBT_CHECK(fg(k, k - 1) && !fg(k - 1, k) && &fm(m) == &m.v && fp(m, 3) == k + 3, "function_constant");
        bool (*back)(int, int) = fg; PBT_CHECK(back == &gt && fg.value == &gt, "function_constant converted back");
        static_assert(std::is_empty<decltype(fm)>::value, "empty");
        auto w = v; cs::merge_sorter{}(w, fg); chk(w, std::greater<>{}, "function_constant comparison");
        std::vector<Memb> u; for (int x: v) u.push_back({x});
        cs::merge_sorter{}(u, fm); for (std::size_t i = 1; i < n; ++i) PBT_CHECK(u[i - 1].v <= u[i].v, "function_constant projection");
    }
    // identity
    {
        cu::identity id; std::string s(std::to_string(k)); const std::string cst = s;
        PBT_CHECK(&id(s) == &s && &id(cst) == &cst, "identity does not return its parameter");
        static_assert(std::is_same<decltype(id(s)), std::string&>::value && std::is_same<decltype(id(cst)), const std::string&>::value
                      && std::is_same<decltype(id(std::move(s))), std::string&&>::value && noexcept(id(s)), "identity");
    }
}

static void t_math(Src& src)
{
    int form = (int)src.below(3);
    unsigned long long y = src.bits() >> src.below(64);
    double d = (double)y / (1 + src.below(1000)); float fl = (float)d;
    src.note("y=%llu d=%g ", y, d);
    src.nontrivial_if(y > 3);
    src.classify(form == 0 ? "half" : form == 1 ? "log" : "sqrt");
    if (form == 0) {
        cu::half h; unsigned u = (unsigned)y; long long ll = -(long long)(y >> 1); short sh = (short)y;
        PBT_CHECK(h(y) == y / 2 && h(u) == u / 2 && h(ll) == ll / 2 && h(sh) == sh / 2, "half of an integer");
        PBT_CHECK(h(d) == d / 2 && h(fl) == fl / 2, "half of a floating point number");
    } else if (form == 1) {
        if (y == 0) y = 1;
        cu::log l; PBT_CHECK(l(y) == std::log(y), "log of an integer");
        if (d > 0) PBT_CHECK(l(d) == std::log(d) && l(fl) == std::log(fl), "log of a floating point number");
    } else {
        cu::sqrt s; PBT_CHECK(s(y) == std::sqrt(y) && s(d) == std::sqrt(d) && s(fl) == std::sqrt(fl), "sqrt");
    }
}

////////////////////////////////////////////////////////////
// Buffers, against a model

template<typename B, typename T>
void drive(Src& src, B& b, std::size_t size, T (*make)(int), const char* what)
{
    const B& cb = b;
    PBT_CHECK(b.size() == size && cb.size() == size, "%s: size %zu instead of %zu", what, (std::size_t)b.size(), size);
    PBT_CHECK((std::size_t)(b.end() - b.begin()) == size && (std::size_t)(cb.end() - cb.begin()) == size && (std::size_t)(cb.cend() - cb.cbegin()) == size, "%s: distance between begin and end", what);
    std::vector<T> model(size);
    for (std::size_t i = 0; i < size; ++i) { b[i] = make((int)i); model[i] = make((int)i); }
    int steps = (int)src.below(20);
    for (int k = 0; k < steps && size; ++k) {
        std::size_t i = src.below(size), j = src.below(size); int val = (int)src.below(100);
        switch (src.below(4)) {
            case 0: b[i] = make(val); model[i] = make(val); break;
            case 1: *(b.begin() + i) = make(val); model[i] = make(val); break;
            case 2: *(b.end() - 1 - i) = make(val); model[size - 1 - i] = make(val); break;
            default: std::swap(b[i], *(b.begin() + j)); std::swap(model[i], model[j]);
        }
    }
    for (std::size_t i = 0; i < size; ++i)
        PBT_CHECK(cb[i] == model[i] && cb.begin()[i] == model[i] && cb.cbegin()[i] == model[i] && b.begin()[i] == model[i], "%s: element %zu", what, i);
    PBT_CHECK(std::equal(cb.cbegin(), cb.cend(), model.begin()), "%s: contents", what);
}
static int mk_int(int i) { return 3 * i + 1; }
static std::string mk_str(int i) { return "some string that is not short at all " + std::to_string(i); }
template<std::size_t N> void t_fixed(Src& src)
{
    std::size_t asked = src.below(3) ? src.below(600) : (std::size_t)src.bits();
    src.note("fixed_buffer<%zu>(%zu) ", N, asked);
    { typename cu::fixed_buffer<N>::template buffer<int> b(asked); drive<decltype(b), int>(src, b, N, mk_int, "fixed_buffer of int"); }
    { typename cu::fixed_buffer<N>::template buffer<std::string> b(asked); drive<decltype(b), std::string>(src, b, N, mk_str, "fixed_buffer of string"); }
    { typename cu::fixed_buffer<N>::template buffer<std::unique_ptr<int>> b(asked); PBT_CHECK(b.size() == N, "fixed_buffer of unique_ptr"); for (auto& p: b) PBT_CHECK(!p, "elements are value-initialized"); }
}
struct Constant { std::size_t operator()(std::size_t) const { return 17; } };
struct TripleP1 { long long operator()(std::size_t n) const { return 3 * (long long)n + 1; } };
template<typename Policy> void t_dynamic1(Src& src, std::size_t n, std::size_t expected, const char* what)
{
    { typename cu::dynamic_buffer<Policy>::template buffer<int> b(n); drive<decltype(b), int>(src, b, expected, mk_int, what); }
    { typename cu::dynamic_buffer<Policy>::template buffer<std::string> b(n); drive<decltype(b), std::string>(src, b, expected, mk_str, what); }
}
static void t_buffers(Src& src)
{
    switch (src.below(11)) {
        case 0: t_fixed<0>(src); break;
        case 1: t_fixed<1>(src); break;
        case 2: t_fixed<5>(src); break;
        case 3: t_fixed<64>(src); break;
        case 4: t_fixed<512>(src); break;
        default: {
            std::size_t n = src.below(4) ? src.below(200) : src.below(5000);
            int form = (int)src.below(6);
            src.note("dynamic_buffer %d of %zu ", form, n);
            src.nontrivial_if(n >= 4);
            switch (form) {
                case 0: t_dynamic1<cu::half>(src, n, n / 2, "dynamic_buffer<half>"); break;
                case 1: t_dynamic1<cu::sqrt>(src, n, (std::size_t)std::sqrt(n), "dynamic_buffer<sqrt>"); break;
                case 2: t_dynamic1<cu::log>(src, n, n == 0 ? 0 : (std::size_t)std::log(n), "dynamic_buffer<log>"); break;
                case 3: t_dynamic1<cu::identity>(src, n, n, "dynamic_buffer<identity>"); break;
                case 4: ++n; t_dynamic1<Constant>(src, n, 17, "dynamic_buffer<17>"); break;
                default: ++n; t_dynamic1<TripleP1>(src, n, 3 * n + 1, "dynamic_buffer<3n+1>");
            }
        }
    }
}

////////////////////////////////////////////////////////////
// adapter_storage

struct Fn0 { template<typename... A> int operator()(A&&... a) const { return (0 + ... + (int)a); } };
struct NotDefault { NotDefault(int) {} int operator()(int x) const { return x + 5; } };
struct State
{
    int s; int calls = 0;
    State(int s = 0): s(s) {}
    int operator()(int x) { last_call = 1; ++calls; return x + s; }
    int operator()(int x) const { last_call = 2; return x - s; }
    std::string operator()(std::string&& x, int& y) const { last_call = 3; y = s; return std::move(x) + "!"; }
};
struct MoveOnlyState { std::unique_ptr<int> p; MoveOnlyState(int v): p(new int(v)) {} int operator()(int x) const { return x + *p; } };
static void t_storage(Src& src)
{
    int s = (int)src.range(-100, 100), x = (int)src.range(-100, 100);
    src.note("state %d ", s);
    src.nontrivial_if(s != 0);
    static_assert(std::is_empty<cu::adapter_storage<Fn0>>::value && std::is_default_constructible<cu::adapter_storage<Fn0>>::value, "empty storage");
    static_assert(!std::is_default_constructible<cu::adapter_storage<NotDefault>>::value, "not default constructible");
    const cu::adapter_storage<Fn0> e{Fn0{}}; cu::adapter_storage<Fn0> e2;
    PBT_CHECK(e(x, 2, s) == x + 2 + s && e2(x) == x && e.get()(x, x) == 2 * x, "empty storage");
    cu::adapter_storage<NotDefault> nd{NotDefault{1}}; PBT_CHECK(nd(x) == x + 5 && nd.get()(x) == x + 5, "storage of a type without default constructor");
    cu::adapter_storage<State> a{State(s)}; const cu::adapter_storage<State> ca{State(s + 1)};
    static_assert(std::is_same<decltype(a.get()), State&>::value && std::is_same<decltype(ca.get()), const State&>::value
                  && std::is_same<decltype(std::move(a).get()), State&&>::value && std::is_same<decltype(std::move(ca).get()), const State&&>::value, "qualifications of get");
    PBT_CHECK(a.get().s == s && ca.get().s == s + 1, "stored state");
    PBT_CHECK(ca(x) == x - s - 1 && last_call == 2, "constant storage");
    int calls = a.get().calls; int r = a(x);
    if (last_call == 1) PBT_CHECK(r == x + s && a.get().calls == calls + 1, "storage calls a copy of the sorter"); else PBT_CHECK(r == x - s, "storage");
    std::string str(40, 'a'); int y = 0; auto res = ca(std::move(str), y);
    PBT_CHECK(res == std::string(40, 'a') + "!" && y == s + 1, "arguments forwarded");
    a.get().s = s + 9; auto copy = a; a.get().s = 0; PBT_CHECK(copy.get().s == s + 9, "copy of the storage");
    State lv(s + 4); cu::adapter_storage<State> fromlv(lv); lv.s = 0; PBT_CHECK(fromlv.get().s == s + 4, "storage of an lvalue");
    cu::adapter_storage<MoveOnlyState> m{MoveOnlyState(s)}; PBT_CHECK(m(x) == x + s, "move-only state");
    auto m2 = std::move(m); PBT_CHECK(m2(x) == x + s, "moved storage");
    MoveOnlyState out = std::move(m2).get(); PBT_CHECK(out(x) == x + s && !m2.get().p, "state moved out");
}

////////////////////////////////////////////////////////////
// size, integer ranges

template<typename It> struct ConstView { It f, l; It begin() const { return f; } It end() const { return l; } };
template<typename It> struct MutView { It f, l; It begin() { return f; } It end() { return l; } };
struct Sized { std::size_t n; std::size_t size() const { return n; } };
static void t_size(Src& src)
{
    std::size_t n = src.below(300);
    src.note("n=%zu ", n);
    src.nontrivial_if(n > 1);
    std::vector<int> v(n); const auto& cv = v; std::list<int> l(v.begin(), v.end()); std::forward_list<int> f(v.begin(), v.end()); const auto& cf = f; std::deque<int> d(v.begin(), v.end());
    int arr[13] = {}; const int carr[5] = {}; std::array<int, 0> empty;
    auto is = [&](auto s, std::size_t e, const char* what) { PBT_CHECK((std::size_t)s == e, "size of %s: %zu instead of %zu", what, (std::size_t)s, e); };
    is(cu::size(v), n, "vector"); is(cu::size(cv), n, "const vector"); is(cu::size(std::vector<int>(n)), n, "temporary vector");
    is(cu::size(l), n, "list"); is(cu::size(f), n, "forward_list"); is(cu::size(cf), n, "const forward_list"); is(cu::size(d), n, "deque");
    is(cu::size(arr), 13, "array"); is(cu::size(carr), 5, "const array"); is(cu::size(empty), 0, "std::array");
    is(cu::size(ConstView<std::list<int>::iterator>{l.begin(), l.end()}), n, "view without size");
    MutView<std::forward_list<int>::iterator> mv{f.begin(), f.end()}; is(cu::size(mv), n, "view with begin and end that are not const");
    is(cu::size(Sized{n}), n, "object with size() only");
    std::size_t skip = n ? src.below(n) : 0;
    is(cu::size(ConstView<std::forward_list<int>::iterator>{std::next(f.begin(), skip), f.end()}), n - skip, "view of the end");
}

template<typename I, I... N> std::vector<long long> to_vec(std::integer_sequence<I, N...>) { return {(long long)N...}; }
struct RangeRow { const char* name; long long b, e, s; std::vector<long long> got; };
static const std::vector<RangeRow>& ranges()
{
    static const std::vector<RangeRow> rows = [] {
        std::vector<RangeRow> r;
#define R(T, B, E, S) r.push_back({"make_integer_range<" #T ", " #B ", " #E ", " #S ">", B, E, S, to_vec(cu::make_integer_range<T, B, E, S>{})});
#define R5(T, B, E) R(T, B, E, 1) R(T, B, E, 2) R(T, B, E, 3) R(T, B, E, 5) R(T, B, E, 10)
        R5(int, 0, 0) R5(int, 0, 1) R5(int, 0, 2) R5(int, 0, 9) R5(int, 0, 10) R5(int, 0, 11) R5(int, -7, 8) R5(int, 8, -7) R5(int, 5, 5) R5(int, -3, -3) R5(int, 10, 0) R5(int, 11, 0) R5(int, 9, 0) R5(int, 1, 0) R5(int, 3, 1)
        R5(long long, -20, -3) R5(long long, -3, -20) R5(long long, 4, 4) R5(short, 0, 100) R5(short, 100, 0) R5(signed char, 50, 90)
        R5(unsigned, 0, 10) R5(unsigned, 10, 0) R5(unsigned, 7, 7) R5(unsigned, 0, 0) R5(std::size_t, 0, 64) R5(std::size_t, 64, 1) R5(std::size_t, 3, 3) R5(unsigned char, 200, 255)
#undef R5
#undef R
#define R(B, E, S) r.push_back({"make_index_range<" #B ", " #E ", " #S ">", B, E, S, to_vec(cu::make_index_range<B, E, S>{})});
        R(0, 10, 1) R(10, 0, 1) R(3, 17, 4) R(5, 5, 1) R(5, 5, 3) R(0, 1, 100) R(1, 0, 100)
#undef R
        return r;
    }();
    return rows;
}
static void t_ranges(Src& src)
{
    auto& row = ranges()[src.index(ranges().size())];
    src.note("%s ", row.name);
    std::vector<long long> e;
    if (row.b < row.e) for (long long i = row.b; i < row.e; i += row.s) e.push_back(i);
    else for (long long i = row.b; i > row.e; i -= row.s) e.push_back(i);
    src.nontrivial_if(e.size() >= 2 || row.b == row.e);
    PBT_CHECK(row.got == e, "%s: %zu numbers instead of %zu, or other numbers", row.name, row.got.size(), e.size());
}

void register_tests()
{
    if (PART == 0) {
        pbt::add_test("chained projections", 200000, 4000000, t_pipe);
        pbt::add_test("wrapped functions", 40000, 800000, t_wrap);
        pbt::add_test("math functions", 100000, 4000000, t_math);
    }
    if (PART == NPARTS - 1) {
        pbt::add_test("buffers", 20000, 300000, t_buffers);
        pbt::add_test("adapter_storage", 50000, 500000, t_storage);
        pbt::add_test("size", 20000, 200000, t_size);
        pbt::add_test("integer ranges", (int)ranges().size(), (int)ranges().size(), t_ranges);
    }
}
