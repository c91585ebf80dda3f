// C24: metrics report exactly the operations performed by the sorter they wrap, sort like it, compose,
// and metric values behave as the values they hold.
#include "sortcheck.h"
#include <chrono>
#include <sstream>
#include <cpp-sort/metrics.h>
#include <cpp-sort/utility/metrics_tools.h>

using namespace sc;
namespace cs = cppsort;
namespace cm = cppsort::metrics;

static long long n_cmp, n_proj, n_move;

// Element counting its comparisons and its moves, as large as what metrics::moves sorts for ints
struct CE
{
    int key, id; long long pad = 0;
    CE(int k, int i): key(k), id(i) {}
    CE(CE&& o) noexcept: key(o.key), id(o.id) { ++n_move; o.key = -999999; }
    CE& operator=(CE&& o) noexcept { ++n_move; key = o.key; id = o.id; return *this; }
    friend bool operator<(const CE& a, const CE& b) { ++n_cmp; td::on_call(); return a.key < b.key; }
};
struct PE       // the payload of the wrapper of metrics::moves: the wrapper counts
{
    int key, id;
    friend bool operator<(const PE& a, const PE& b) { return a.key < b.key; }
};
struct CCmp
{
    gen::Order order;
    template<typename T> bool operator()(const T& a, const T& b) const { ++n_cmp; td::on_call(); return order(k(a), k(b)); }
    static int k(int x) { return x; }
    template<typename T> static int k(const T& e) { return e.key; }
};
struct CProj
{
    int mode = 0;
    template<typename T> int operator()(const T& e) const { ++n_proj; td::on_call(); return gen::proj_apply(mode, e.key); }
};
// a counted projection returning the element itself
struct CIdent
{
    template<typename T> const T& operator()(const T& e) const { ++n_proj; return e; }
};

template<typename V> std::vector<std::pair<int, int>> snap(const V& v)
{
    std::vector<std::pair<int, int>> r;
    for (auto& e: v) r.push_back({e.key, e.id});
    return r;
}

static Case draw_case(Src& src, int kind, bool quad, const char* name)
{
    Case c;
    td::reset_counters();
    if (kind & 1) c.order = gen::order(src);
    if (kind & 2) c.mode = (int)src.below(gen::n_projs);
    c.keys = td::to_int(gen::keys(src, quad ? 120 : 500));
    coarsen(src, c);
    classify_n(src, c.keys);
    src.note("%s kind=%d order=%d/%d proj=%d ", name, kind, c.order.mode, c.order.param, c.mode);
    src.note_seq("keys", c.keys);
    src.nontrivial_if(c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); }));
    td::call_limit = 100000 + 60ull * c.keys.size() * c.keys.size();
    return c;
}

template<typename T, typename F>
std::vector<std::pair<int, int>> counted(const Case& c, F f, long long& ret)
{
    std::vector<T> v; v.reserve(c.keys.size());
    for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back(T{c.keys[i], (int)i});
    n_cmp = n_proj = n_move = 0;
    ret = f(v);
    return snap(v);
}
#define CALL(T, S, ...) [&](auto& v) { auto b = v.begin(); auto e = v.end(); (void)b; (void)e; S __VA_ARGS__; return 0ll; }
#define METR(T, S, ...) [&](auto& v) { auto b = v.begin(); auto e = v.end(); (void)b; (void)e; return (long long)S __VA_ARGS__.value(); }

template<typename S>
void t_comparisons(Src& src, const char* name, bool quad)
{
    int kind = (int)src.below(4), range = (int)src.below(2);
    Case c = draw_case(src, kind, quad, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    const S s{}; const cm::comparisons<S> m{};
    long long ret = 0, own = 0, bare = 0, ownp = 0, barep = 0;
    std::vector<std::pair<int, int>> got, want;
#define RUN(...) \
        want = counted<CE>(c, CALL(CE, s, __VA_ARGS__), bare); bare = n_cmp; barep = n_proj; \
        got = counted<CE>(c, METR(CE, m, __VA_ARGS__), ret); own = n_cmp; ownp = n_proj;
    switch (kind * 2 + range) {
        case 0: RUN((b, e)) break;
        case 1: RUN((v)) break;
        case 2: RUN((b, e, cmp)) break;
        case 3: RUN((v, cmp)) break;
        case 4: RUN((b, e, proj)) break;
        case 5: RUN((v, proj)) break;
        case 6: RUN((b, e, cmp, proj)) break;
        case 7: RUN((v, cmp, proj)) break;
    }
#undef RUN
    if (kind != 2)  // a lone projection compares the projected integers, which does not count
        PBT_CHECK(ret == own, "comparisons<%s> returned %lld but %lld comparisons were performed", name, ret, own);
    if (kind != 2)
        PBT_CHECK(own == bare, "comparisons<%s> performed %lld comparisons, %s alone %lld", name, own, name, bare);
    PBT_CHECK(ownp == barep, "comparisons<%s> performed %lld projections, %s alone %lld", name, ownp, name, barep);
    PBT_CHECK(got == want, "comparisons<%s> did not leave the same sequence as %s", name, name);
    if (kind == 2) {
        // the same call with an explicit comparison
        long long r2 = 0;
        CCmp c2{};
        counted<CE>(c, METR(CE, m, (v, c2, proj)), r2);
        PBT_CHECK(ret == r2, "comparisons<%s> returned %lld with a projection, %lld with a comparison and the projection", name, ret, r2);
    }
}

template<typename S>
void t_projections(Src& src, const char* name, bool quad)
{
    int kind = 2 + (int)src.below(2), range = (int)src.below(2);
    bool ident = src.below(3) == 0;
    Case c = draw_case(src, kind, quad, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    const S s{}; const cm::projections<S> m{};
    long long ret = 0, own = 0, bare = 0;
    std::vector<std::pair<int, int>> got, want;
#define RUN(...) \
        want = counted<CE>(c, CALL(CE, s, __VA_ARGS__), bare); bare = n_proj; \
        got = counted<CE>(c, METR(CE, m, __VA_ARGS__), ret); own = n_proj;
    if (kind == 2) { if (range) { RUN((v, proj)) } else { RUN((b, e, proj)) } }
    else { if (range) { RUN((v, cmp, proj)) } else { RUN((b, e, cmp, proj)) } }
#undef RUN
    PBT_CHECK(ret == own, "projections<%s> returned %lld but %lld projections were performed", name, ret, own);
    PBT_CHECK(own == bare, "projections<%s> performed %lld projections, %s alone %lld", name, own, name, bare);
    PBT_CHECK(got == want, "projections<%s> did not leave the same sequence as %s", name, name);
    if (ident) {    // without a projection: as many as with a projection returning its argument
        long long r1 = 0, dummy = 0;
        counted<CE>(c, METR(CE, m, (v, cmp)), r1);
        counted<CE>(c, METR(CE, m, (v, cmp, CIdent{})), dummy);
        PBT_CHECK(dummy == n_proj, "projections<%s> returned %lld but %lld projections were performed", name, dummy, n_proj);
        PBT_CHECK(r1 == dummy, "projections<%s> returned %lld without projection, %lld with the identity", name, r1, dummy);
    }
}

template<typename S>
void t_moves(Src& src, const char* name, bool quad)
{
    int kind = 3, range = (int)src.below(2);
    Case c = draw_case(src, kind, quad, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    const S s{}; const cm::moves<S> m{};
    long long ret = 0, bare = 0, cmps = 0, mcmps = 0;
    std::vector<std::pair<int, int>> got, want;
    want = counted<CE>(c, CALL(CE, s, (b, e, cmp, proj)), bare); bare = n_move; cmps = n_cmp;
    if (range) got = counted<PE>(c, METR(PE, m, (v, cmp, proj)), ret); else got = counted<PE>(c, METR(PE, m, (b, e, cmp, proj)), ret);
    mcmps = n_cmp;
    PBT_CHECK(ret == bare, "moves<%s> returned %lld but %s alone performs %lld moves", name, ret, name, bare);
    PBT_CHECK(mcmps == cmps, "moves<%s> performed %lld comparisons, %s alone %lld", name, mcmps, name, cmps);
    PBT_CHECK(got == want, "moves<%s> did not leave the same sequence as %s", name, name);
}

// metrics::moves on the iterators of lists: the category is kept
template<typename S, typename L, typename LP>
void t_moves_list(Src& src, const char* name, bool quad)
{
    Case c = draw_case(src, 3, quad, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    const S s{}; const cm::moves<S> m{};
    L l; for (std::size_t i = c.keys.size(); i-- > 0;) l.emplace_front(c.keys[i], (int)i);
    LP p; for (std::size_t i = c.keys.size(); i-- > 0;) p.push_front(PE{c.keys[i], (int)i});
    n_cmp = n_move = 0;
    s(l.begin(), l.end(), cmp, proj);
    long long bare = n_move, cmps = n_cmp;
    n_cmp = 0;
    long long ret = (long long)m(p.begin(), p.end(), cmp, proj).value();
    PBT_CHECK(ret == bare, "moves<%s> returned %lld for a list but %s alone performs %lld moves", name, ret, name, bare);
    PBT_CHECK(n_cmp == cmps, "moves<%s> performed %lld comparisons on a list, %s alone %lld", name, n_cmp, name, cmps);
    PBT_CHECK(snap(l) == snap(p), "moves<%s> did not leave the same list as %s", name, name);
}

// User-defined counters
struct Counter
{
    long long v; int made;
    explicit Counter(int x): v(x), made(1) {}
    Counter& operator++() { v += 2; return *this; }
    Counter operator++(int) = delete;
};
template<typename S>
void t_composition(Src& src, const char* name)
{
    Case c = draw_case(src, 3, true, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    auto run = [&](auto sorter, long long& cmps, long long& projs) {
        std::vector<PE> v; for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back({c.keys[i], (int)i});
        n_cmp = n_proj = 0;
        auto r = sorter(v, cmp, proj);
        cmps = n_cmp; projs = n_proj;
        for (std::size_t i = 0; i < v.size(); ++i)
            PBT_CHECK(c.keys[v[i].id] == v[i].key && (i == 0 || !c.less(v[i].key, v[i - 1].key)), "composed metrics of %s: not sorted", name);
        return r;
    };
    long long k1, p1, k2, p2;
    long long comps = (long long)run(cm::comparisons<S>{}, k1, p1).value();
    long long projs = (long long)run(cm::projections<S>{}, k1, p1).value();
    long long moves = (long long)run(cm::moves<S>{}, k1, p1).value();
    PBT_CHECK(comps == k1 && projs == p1, "metrics of %s: %lld comparisons for %lld, %lld projections for %lld", name, comps, k1, projs, p1);
#define SAME(expr, expected) { long long r = (long long)run(expr, k2, p2).value(); \
        PBT_CHECK(r == (expected), #expr " over %s returned %lld instead of %lld", name, r, (long long)(expected)); }
    SAME((cm::comparisons<cm::projections<S>>{}), comps)
    SAME((cm::projections<cm::comparisons<S>>{}), projs)
    SAME((cm::comparisons<cm::moves<S>>{}), comps)
    SAME((cm::moves<cm::comparisons<S>>{}), moves)
    SAME((cm::moves<cm::projections<cm::comparisons<S>>>{}), moves)
    SAME((cm::projections<cm::moves<S>>{}), projs)
    SAME((cm::comparisons<cm::running_time<S>>{}), comps)
    SAME((cm::comparisons<S, int>{}), comps)
    SAME((cm::comparisons<S, double>{}), comps)
    SAME((cm::comparisons<S, unsigned char>{}), comps % 256)
    SAME((cm::projections<S, long long>{}), projs)
    SAME((cm::projections<S, signed char>{}), (long long)(signed char)projs)
    SAME((cm::moves<S, short>{}), (long long)(short)moves)
    SAME((cm::moves<S, float>{}), moves)
#undef SAME
    PBT_CHECK(run(cm::comparisons<S, Counter>{}, k2, p2).value().v == 2 * comps, "comparisons<%s> with a counter class", name);
    PBT_CHECK(run(cm::projections<S, Counter>{}, k2, p2).value().v == 2 * projs, "projections<%s> with a counter class", name);
    PBT_CHECK(run(cm::moves<S, Counter>{}, k2, p2).value().v == 2 * moves, "moves<%s> with a counter class", name);
    PBT_CHECK((long long)run(cs::counting_adapter<S>{}, k2, p2) == comps, "counting_adapter<%s> and comparisons disagree", name);
    PBT_CHECK((long long)run(cs::counting_adapter<S, int>{}, k2, p2) == comps, "counting_adapter<%s> and comparisons disagree", name);
    using namespace std::chrono;
    auto t0 = steady_clock::now();
    auto t = run(cm::running_time<S, nanoseconds>{}, k2, p2);
    auto dt = steady_clock::now() - t0;
    PBT_CHECK(k2 == k1 && p2 == p1, "running_time<%s>: not the same operations as %s", name, name);
    PBT_CHECK(t.value().count() >= 0 && t.value() <= duration_cast<nanoseconds>(dt), "running_time<%s>: %lld ns", name, (long long)t.value().count());
    auto t2 = run(cm::running_time<S, duration<double, std::milli>>{}, k2, p2);
    PBT_CHECK(t2.value().count() >= 0, "running_time<%s> negative", name);
}

// A sorter with a state: metrics built from one use it
static long long st_calls, st_sum;
template<typename S>
struct StatefulImpl
{
    S s{}; int state = -7;
    StatefulImpl() = default;
    constexpr explicit StatefulImpl(int x): state(x) {}
    template<typename It, typename Cmp = std::less<>, typename Proj = su::identity,
             typename = std::enable_if_t<cs::is_projection_iterator_v<Proj, It, Cmp>>>
    void operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const
    {
        ++st_calls; st_sum += state;
        s(first, last, cmp, proj);
    }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::false_type;
};
template<typename S>
struct Stateful: cs::sorter_facade<StatefulImpl<S>>
{
    Stateful() = default;
    constexpr explicit Stateful(int x): cs::sorter_facade<StatefulImpl<S>>(x) {}
};

template<typename T, typename Tag> long long num(const su::metric<T, Tag>& m) { return (long long)m.value(); }
template<typename R, typename P, typename Tag> long long num(const su::metric<std::chrono::duration<R, P>, Tag>& m) { return (long long)m.value().count(); }
inline long long num(long long x) { return x; }

template<typename S>
void t_stateful(Src& src, const char* name)
{
    Case c = draw_case(src, 3, true, name);
    CCmp cmp{c.order}; CProj proj{c.mode};
    int tag = (int)src.below(1000000) + 1;
    src.note("state=%d", tag);
    auto run = [&](const char* what, const auto& sorter, int times, long long state, long long* count) {
        for (int form = 0; form < 2; ++form) {
            std::vector<PE> v; for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back({c.keys[i], (int)i});
            n_cmp = n_proj = 0; st_calls = st_sum = 0;
            long long r;
            if (form) r = num(sorter(v, cmp, proj)); else r = num(sorter(v.begin(), v.end(), cmp, proj));
            PBT_CHECK(st_calls == times, "%s over %s called the wrapped sorter %lld times", what, name, st_calls);
            PBT_CHECK(st_sum == state * times, "%s over %s: the wrapped sorter has the state %lld instead of %lld", what, name, st_sum, state);
            for (std::size_t i = 0; i < v.size(); ++i)
                PBT_CHECK(c.keys[v[i].id] == v[i].key && (i == 0 || !c.less(v[i].key, v[i - 1].key)), "%s over %s: not sorted", what, name);
            if (count) PBT_CHECK(r == *count, "%s over %s returned %lld, %lld counted", what, name, r, *count);
        }
    };
    using St = Stateful<S>;
    auto all = [&](const St& st, long long state) {
        const cm::comparisons<St> a(st); run("comparisons", a, 1, state, &n_cmp);
        const cm::comparisons<St, int> a2(st); run("comparisons", a2, 1, state, &n_cmp);
        const cm::projections<St> b(st); run("projections", b, 1, state, &n_proj);
        const cm::projections<St, int> b2(st); run("projections", b2, 1, state, &n_proj);
        long long want;
        { std::vector<CE> v; for (std::size_t i = 0; i < c.keys.size(); ++i) v.push_back(CE{c.keys[i], (int)i});
          n_move = 0; st(v, cmp, proj); want = n_move; }
        const cm::moves<St> d(st); run("moves", d, 1, state, &want);
        const cm::moves<St, int> d2(st); run("moves", d2, 1, state, &want);
        const cs::counting_adapter<St> f(st); run("counting_adapter", f, 1, state, &n_cmp);
        const cs::counting_adapter<St, int> f2(st); run("counting_adapter", f2, 1, state, &n_cmp);
        const cm::running_time<St, std::chrono::duration<long long, std::nano>> g(st); run("running_time", g, 1, state, nullptr);
        // copies, moves and nested metrics keep the state
        cm::comparisons<St> a3(a), a4(std::move(a3)); run("a moved comparisons", a4, 1, state, &n_cmp);
        const cm::projections<cm::comparisons<St>> h{cm::comparisons<St>(st)}; run("projections of comparisons", h, 1, state, &n_proj);
        const cm::comparisons<cm::projections<St>> i{cm::projections<St>(st)}; run("comparisons of projections", i, 1, state, &n_cmp);
        const cm::moves<cs::counting_adapter<St>> j{cs::counting_adapter<St>(st)}; run("moves of counting_adapter", j, 1, state, &want);
    };
    all(St(tag), tag);
    all(St{}, -7);
    const cm::comparisons<St> da{}; run("a default comparisons", da, 1, -7, &n_cmp);
    const cm::projections<St> db{}; run("a default projections", db, 1, -7, &n_proj);
    const cs::counting_adapter<St> dc{}; run("a default counting_adapter", dc, 1, -7, &n_cmp);
    // what the metrics hold is the given sorter
    PBT_CHECK(cm::comparisons<St>(St(tag)).get().state == tag && cm::projections<St>(St(tag)).get().state == tag
              && cm::moves<St>(St(tag)).get().state == tag && cm::running_time<St>(St(tag)).get().state == tag
              && cs::counting_adapter<St>(St(tag)).get().state == tag, "get() of a metric is not the given sorter");
}

////////////////////////////////////////////////////////////
// metric<T, Tag> and metrics<...>

struct tag1 {}; struct tag2 {}; struct tag3 {};

template<typename T, typename U> void cmp_ops(T a, U b)
{
    su::metric<T, tag1> ma(a); su::metric<U, tag1> mb(b);
    const auto& ca = ma; const auto& cb = mb;
    auto rel = [&](const char* op, bool want, bool x) { PBT_CHECK(want == x, "metric comparison %s", op); };
    rel("==", a == b, ca == cb); rel("!=", a != b, ca != cb); rel("<", a < b, ca < cb);
    rel("<=", a <= b, ca <= cb); rel(">", a > b, ca > cb); rel(">=", a >= b, ca >= cb);
    if constexpr (std::is_same<T, U>::value) {
        rel("== value", a == b, ca == b); rel("!= value", a != b, ca != b); rel("< value", a < b, ca < b);
        rel("<= value", a <= b, ca <= b); rel("> value", a > b, ca > b); rel(">= value", a >= b, ca >= b);
        rel("value ==", a == b, a == cb); rel("value !=", a != b, a != cb); rel("value <", a < b, a < cb);
        rel("value <=", a <= b, a <= cb); rel("value >", a > b, a > cb); rel("value >=", a >= b, a >= cb);
    }
    PBT_CHECK((T)ca == a && ca.value() == a, "metric value");
    su::metric<T, tag1> mc(ma), md(std::move(mc));
    PBT_CHECK(md.value() == a, "copy of a metric");
    md = b; PBT_CHECK(md.value() == (T)b, "assignment of a value to a metric");
    md = ma; PBT_CHECK(md.value() == a, "assignment of a metric");
    md = mb; PBT_CHECK(md.value() == (T)b, "assignment of a metric of another type");
    md = su::metric<U, tag1>(b); PBT_CHECK(md.value() == (T)b, "assignment of a temporary metric of another type");
    std::ostringstream o1, o2; o1 << a; o2 << ma;
    PBT_CHECK(o1.str() == o2.str(), "a metric is printed as %s, its value as %s", o2.str().c_str(), o1.str().c_str());
}
static void t_metric(Src& src)
{
    auto draw = [&]() -> long long { long long r = (long long)src.below(4); return r < 3 ? (long long)src.below(7) - 3 : (long long)(int)src.bits(); };
    long long a = draw(), b = draw();
    src.note("a=%lld b=%lld", a, b);
    src.nontrivial_if(a != b);
    cmp_ops((int)a, (int)b); cmp_ops((long long)a, (long long)b); cmp_ops((double)a, (double)b);
    cmp_ops((int)a, (long long)b); cmp_ops((long long)a, (int)b); cmp_ops((double)a, (int)b); cmp_ops((int)a, (double)b);
    cmp_ops(std::to_string(a), std::to_string(b));
    // collections of metrics
    using M1 = su::metric<int, tag1>; using M2 = su::metric<double, tag2>; using M3 = su::metric<std::string, tag3>;
    using MM = su::metrics<M1, M2, M3>;
    using std::get;
    MM m(M1((int)a), M2((double)b), M3(std::to_string(a)));
    const MM cst(M1((int)b), M2((double)a), M3(std::to_string(b)));
    auto same = [&](const MM& x, long long p, long long q, const char* what) {
        PBT_CHECK(get<0>(x).value() == (int)p && get<1>(x).value() == (double)q && get<2>(x).value() == std::to_string(p), "%s: wrong metric by index", what);
        PBT_CHECK(get<tag1>(x).value() == (int)p && get<tag2>(x).value() == (double)q && get<tag3>(x).value() == std::to_string(p), "%s: wrong metric by tag", what);
    };
    same(m, a, b, "metrics"); same(cst, b, a, "const metrics");
    MM copy(m); same(copy, a, b, "copy of metrics");
    MM copy2 = cst; same(copy2, b, a, "copy of const metrics");
    copy = cst; same(copy, b, a, "assigned metrics");
    get<0>(copy) = (int)a; get<tag2>(copy) = (double)b; get<tag3>(copy) = std::to_string(a);
    same(copy, a, b, "modified metrics");
    M3 moved = get<2>(std::move(copy)); PBT_CHECK(moved.value() == std::to_string(a), "moved metric");
    M3 moved2 = get<tag3>(std::move(copy2)); PBT_CHECK(moved2.value() == std::to_string(b), "moved metric by tag");
    su::metrics<M1> one(M1{(int)a}), one2(one);
    PBT_CHECK(get<0>(one2) == (int)a && get<tag1>(one2) == (int)a, "copy of a single metric");
    MM def; def = m; same(def, a, b, "default metrics");
    static_assert(std::is_same<decltype(get<0>(m)), M1&>::value && std::is_same<decltype(get<tag2>(cst)), const M2&>::value
                  && std::is_same<decltype(get<tag3>(std::move(m))), M3&&>::value, "references");
}

template<int I, typename S, typename Cat, bool Stable, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        pbt::add_test(std::string(name) + "/comparisons", 1500, 20000, [name](Src& s) { t_comparisons<S>(s, name, Quad); });
        pbt::add_test(std::string(name) + "/projections", 1000, 16000, [name](Src& s) { t_projections<S>(s, name, Quad); });
        pbt::add_test(std::string(name) + "/moves", 1000, 16000, [name](Src& s) { t_moves<S>(s, name, Quad); });
        if constexpr (std::is_base_of<std::bidirectional_iterator_tag, Cat>::value && !std::is_base_of<std::random_access_iterator_tag, Cat>::value)
            pbt::add_test(std::string(name) + "/moves list", 600, 10000, [name](Src& s) { t_moves_list<S, std::list<CE>, std::list<PE>>(s, name, Quad); });
        if constexpr (!std::is_base_of<std::bidirectional_iterator_tag, Cat>::value)
            pbt::add_test(std::string(name) + "/moves forward_list", 600, 10000, [name](Src& s) { t_moves_list<S, std::forward_list<CE>, std::forward_list<PE>>(s, name, Quad); });
    }
}
template<int I, typename S> void maybe_c(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(std::string(name) + "/composition", 600, 6000, [name](Src& s) { t_composition<S>(s, name); });
    if constexpr (I % NPARTS == PART)
        pbt::add_test(std::string(name) + "/stateful", 300, 4000, [name](Src& s) { t_stateful<S>(s, name); });
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, STABLE, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, STABLE, true>(NAME);
    X("stable<heap>", fwd_tag, true, cs::stable_adapter<cs::selection_sorter>)
    X("indirect<merge>", fwd_tag, true, cs::indirect_adapter<cs::merge_sorter>)
    X("verge<merge>", bi_tag, false, cs::verge_adapter<cs::merge_sorter>)
    X("drop_merge<insertion>", bi_tag, false, cs::drop_merge_adapter<cs::insertion_sorter>)
    X("split<poplar>", ra_tag, false, cs::split_adapter<cs::poplar_sorter>)
    X("hybrid<merge,heap>", fwd_tag, false, cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>)
    X("out_of_place<smooth>", fwd_tag, false, cs::out_of_place_adapter<cs::smooth_sorter>)
    X("container_aware<merge>", ra_tag, true, cs::container_aware_adapter<cs::merge_sorter>)
#undef X
#define X(NAME, ...) maybe_c<__COUNTER__ - base - 1, __VA_ARGS__>(NAME);
    X("quick", cs::quick_sorter) X("tim", cs::tim_sorter) X("slab", cs::slab_sorter) X("merge", cs::merge_sorter)
    X("heap", cs::heap_sorter) X("mel", cs::mel_sorter) X("schwartz<smooth>", cs::schwartz_adapter<cs::smooth_sorter>) X("stable<pdq>", cs::stable_adapter<cs::pdq_sorter>)
#undef X
    if (PART == NPARTS - 1) pbt::add_test("metric values", 20000, 500000, t_metric);
}
