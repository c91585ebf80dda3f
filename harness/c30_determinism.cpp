// C30: a call performs the same operations for the same input, whatever happened before, wherever the elements lie,
// whatever uninitialised memory holds, inside the functions of another call and next to calls in other threads.
#include "sortcheck.h"
#include <atomic>
#include <functional>
#include <malloc.h>
#include <alloca.h>
#include <thread>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/probes.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <cpp-sort/utility/apply_permutation.h>

using namespace sc;
namespace cs = cppsort;

struct Trace
{
    u64 hash = 0; long long cmps = 0, projs = 0, moves = 0;
    std::vector<int> result;
    bool operator==(const Trace& o) const { return hash == o.hash && cmps == o.cmps && projs == o.projs && moves == o.moves && result == o.result; }
};
struct Stop {};
struct Rec
{
    Trace t;
    long long at = -1; bool in_proj = false;    // the call of the comparison (projection) to disturb
    std::function<void()> disturb;
    void add(u64 op, u64 a, u64 b) { t.hash = pbt::mix(t.hash * 31 + op, a * 1000003 + b); }
};
static thread_local Rec* rec;

struct El
{
    int key, id;
    El(int k, int i): key(k), id(i) {}
    El(El&& o) noexcept: key(o.key), id(o.id) { log(1, id); o.key = -999; }
    El& operator=(El&& o) noexcept { log(2, o.id); key = o.key; id = o.id; if (&o != this) o.key = -999; return *this; }
    static void log(int op, int id) { if (rec) { ++rec->t.moves; rec->add(op, (u64)id, 0); } }
};
struct ElD: El
{
    ElD(): El(-1, -1) {}
    using El::El;
    ElD(ElD&&) = default;
    ElD& operator=(ElD&&) = default;
};
struct LogCmp
{
    const Case* c;
    template<typename T> bool operator()(const T& a, const T& b) const
    {
        if (rec) {
            Rec& r = *rec;
            r.add(4, id(a), id(b));
            if (r.t.cmps++ == r.at && !r.in_proj) r.disturb();
        }
        return c->order(k(a), k(b));
    }
    static u64 id(int x) { return (u64)x; }
    template<typename T> static u64 id(const T& e) { return (u64)e.id; }
    static int k(int x) { return x; }
    template<typename T> static int k(const T& e) { return e.key; }
};
struct LogProj
{
    const Case* c;
    template<typename T> int operator()(const T& e) const
    {
        if (rec) {
            Rec& r = *rec;
            r.add(3, (u64)e.id, 0);
            if (r.t.projs++ == r.at && r.in_proj) r.disturb();
        }
        return gen::proj_apply(c->mode, e.key);
    }
};

// Leaves other bytes in the memory that the next calls find uninitialised
static void __attribute__((noinline)) dirty_stack(unsigned char b)
{
    volatile unsigned char* p = (volatile unsigned char*)alloca(1 << 16);
    for (int i = 0; i < 1 << 16; ++i) p[i] = b;
}
static void dirty_heap(unsigned char b)
{
    mallopt(M_PERTURB, b);
    void* p[24];
    for (int i = 0; i < 24; ++i) { p[i] = std::malloc((std::size_t)16 << (i % 12)); std::memset(p[i], b, (std::size_t)16 << (i % 12)); }
    for (int i = 0; i < 24; ++i) std::free(p[i]);
}

template<typename T> using Vec = std::vector<T>;
template<typename T> using List = std::list<T>;
template<typename T> using FList = std::forward_list<T>;

// the rest of the elements, at both ends of the storage, moves the range to another address
template<typename C>
Trace run(const std::function<void(C&, std::size_t, std::size_t)>& call, const Case& c, int pad, Rec& r)
{
    using T = typename C::value_type;
    C v;
    if constexpr (std::is_same<C, FList<T>>::value) {
        for (std::size_t i = c.keys.size(); i-- > 0;) v.emplace_front(c.keys[i], (int)i);
        pad = 0;
    } else {
        if constexpr (std::is_same<C, Vec<T>>::value) v.reserve(c.keys.size() + 2 * pad); else pad = 0;
        for (int i = 0; i < pad; ++i) v.emplace_back(i * 7919 % 100, -100 - i);
        for (std::size_t i = 0; i < c.keys.size(); ++i) v.emplace_back(c.keys[i], (int)i);
        for (int i = 0; i < pad; ++i) v.emplace_back(i * 7919 % 100, -100 - i);
    }
    Rec* saved = rec;
    rec = &r;
    try { call(v, (std::size_t)pad, c.keys.size()); } catch (...) { rec = saved; throw; }
    rec = saved;
    std::size_t i = 0;
    for (auto& e: v) {
        if (i >= (std::size_t)pad && i < pad + c.keys.size()) { r.t.result.push_back(e.id); r.t.result.push_back(e.key); }
        else PBT_CHECK(e.id <= -100, "an element outside the range was changed");
        ++i;
    }
    return r.t;
}

static void expect(const Trace& got, const Trace& want, const char* name, const char* how)
{
    PBT_CHECK(got.cmps == want.cmps && got.projs == want.projs && got.moves == want.moves,
              "%s %s: %lld comparisons, %lld projections, %lld moves instead of %lld, %lld, %lld", name, how, got.cmps, got.projs, got.moves, want.cmps, want.projs, want.moves);
    PBT_CHECK(got.result == want.result, "%s %s: another result for the same input", name, how);
    PBT_CHECK(got.hash == want.hash, "%s %s: not the same operations for the same input", name, how);
}

static void call_in_threads(std::size_t n, const std::function<void(std::size_t)>& f)
{
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> th;
#ifdef TSAN     // sees races between calls that do not overlap too
    const bool spin = false;
#else
    const bool spin = true;
#endif
    for (std::size_t i = 0; i < n; ++i)
        th.emplace_back([&, i] { if (spin) { ++ready; for (int k = 0; ready < n && k < 20; ++k) std::this_thread::yield(); } f(i); });
    for (auto& t: th) t.join();
}

// A history of calls of one algorithm on two or three sequences
template<typename C>
void history(Src& src, const char* name, const std::vector<Case>& cases, const std::function<std::function<void(C&, std::size_t, std::size_t)>(const Case&)>& make,
             const std::function<void(Src&)>& other, bool threads, bool throws = true)
{
    std::vector<Trace> ref;
    for (auto& c: cases) { Rec r; ref.push_back(run<C>(make(c), c, 0, r)); }
#ifdef TSAN
    int steps = 1;
#else
    int steps = 1 + (int)src.below(4);
#endif
    for (int s = 0; s < steps; ++s) {
        std::size_t w = src.below(cases.size()), w2 = src.below(cases.size());
        int pad = src.below(2) ? 0 : (int)src.below(9);
        auto again = [&](std::size_t i, int p, const char* how) { Rec r; expect(run<C>(make(cases[i]), cases[i], p, r), ref[i], name, how); };
#ifdef TSAN     // the instrumented harness is for the threads
        switch (5) {
#else
        switch (src.below(7)) {
#endif
            case 0: src.note("again(%zu,%d) ", w, pad); again(w, pad, "called again"); break;
            case 1: {
                int b = (int)src.below(256);
                src.note("dirty(%d,%zu,%d) ", b, w, pad);
                dirty_heap((unsigned char)b); dirty_stack((unsigned char)b);
                again(w, pad, "with other values in unused memory");
                break;
            }
            case 2: src.note("other,again(%zu) ", w); other(src); again(w, pad, "after other calls"); break;
            case 3: {   // one call, or two, inside a comparison or a projection of a call
                bool in_proj = src.below(3) == 0;
                long long total = in_proj ? ref[w].projs : ref[w].cmps;
                if (!total) break;
                long long at = (long long)src.below((u64)total), at2 = src.below(2) ? (long long)src.below((u64)std::max(1ll, ref[w2].cmps)) : -1;
                src.note("nested(%zu in %s %lld of %zu, then %lld) ", w2, in_proj ? "projection" : "comparison", at, w, at2);
                Rec r, inner, inner2;
                r.at = at; r.in_proj = in_proj; inner.at = at2;
                bool called = false;
                r.disturb = [&] { called = true; expect(run<C>(make(cases[w2]), cases[w2], pad, inner), ref[w2], name, "called by the functions of another call"); };
                inner.disturb = [&] { expect(run<C>(make(cases[w]), cases[w], 0, inner2), ref[w], name, "called two levels deep"); };
                Trace t = run<C>(make(cases[w]), cases[w], 0, r);
                PBT_CHECK(called, "%s: fewer operations than the first time", name);
                expect(t, ref[w], name, "with a call inside its functions");
                break;
            }
            case 4: {   // a call that fails halfway
                if (!ref[w2].cmps || !throws) break;
                long long at = (long long)src.below((u64)ref[w2].cmps);
                src.note("throw(%zu,%lld),again(%zu) ", w2, at, w);
                Rec r; r.at = at; r.disturb = [] { throw Stop{}; };
                bool thrown = false;
                try { run<C>(make(cases[w2]), cases[w2], pad, r); } catch (Stop&) { thrown = true; }
                PBT_CHECK(thrown, "%s: fewer operations than the first time", name);
                again(w, 0, "after a call stopped by an exception");
                break;
            }
            default: {
                if (!threads) { again(w, pad, "called again"); break; }
                std::size_t n = 2 + src.below(2);
                src.note("threads(%zu) ", n);
                std::vector<Trace> got(n);
                call_in_threads(n, [&](std::size_t i) {
                    const Case& c = cases[(w + i) % cases.size()];
                    Rec r;
                    got[i] = run<C>(make(c), c, 0, r);
                });
                for (std::size_t i = 0; i < n; ++i) expect(got[i], ref[(w + i) % cases.size()], name, "next to calls in other threads");
            }
        }
    }
}

static std::vector<Case> draw_cases(Src& src, const char* name, std::size_t max_n, std::size_t size = (std::size_t)-1)
{
    std::vector<Case> cs;
    src.note("%s ", name);
    std::size_t n = 2 + src.below(2);
    bool nt = false;
    for (std::size_t i = 0; i < n; ++i) {
        Case c;
        c.order = gen::order(src);
        c.mode = (int)src.below(gen::n_projs);
        c.keys = td::to_int(gen::keys(src, i ? std::min<std::size_t>(max_n, 120) : max_n));
        if (size != (std::size_t)-1) { c.keys.resize(size); for (std::size_t k = 0; k < size; ++k) if (!c.keys[k]) c.keys[k] = (int)(k * 5 % 7); }
        coarsen(src, c);
        src.note("order=%d/%d proj=%d ", c.order.mode, c.order.param, c.mode);
        src.note_seq("keys", c.keys);
        nt |= c.keys.size() >= 2 && !std::is_sorted(c.keys.begin(), c.keys.end(), [&](int a, int b) { return c.less(a, b); });
        cs.push_back(std::move(c));
    }
    classify_n(src, cs[0].keys);
    src.nontrivial_if(nt);
    td::call_limit = ~0ull;
    return cs;
}

// unrelated calls
static void others(Src& src)
{
    std::vector<int> v; int n = (int)src.below(300); u64 s = src.below(1000);
    for (int i = 0; i < n; ++i) v.push_back((int)(pbt::mix(s, (u64)i) % 1000));
    auto w = v, x = v;
    cs::pdq_sort(v.begin(), v.end());
    cs::merge_sort(w.begin(), w.end(), std::greater<>{});
    std::list<int> l(x.begin(), x.end());
    cs::verge_sort(l.begin(), l.end());
}

template<typename S, typename C>
void t_sort(Src& src, const char* name, bool quad)
{
    static const S s{};
    auto cases = draw_cases(src, name, quad ? 150 : 400);
    bool range = src.below(2), noproj = src.below(3) == 0;
    src.note("%s%s", range ? "range " : "", noproj ? "noproj " : "");
    std::string nm = name;
    // the metrics are documented not to be thread-safe
    bool threads = nm.find("comparisons<") == nm.npos && nm.find("projections<") == nm.npos && nm.find("counting<") == nm.npos;
    // the sort member functions of the lists of the standard library do not survive exceptions
    bool throws = std::is_same<C, Vec<typename C::value_type>>::value || (nm.find("self_sort") == nm.npos && nm != "default");
    history<C>(src, name, cases, [&](const Case& c) {
        return std::function<void(C&, std::size_t, std::size_t)>([&s, &c, range, noproj](C& v, std::size_t pad, std::size_t n) {
            auto b = std::next(v.begin(), (std::ptrdiff_t)pad), e = std::next(b, (std::ptrdiff_t)n);
            if (noproj) { if (range && !pad) s(v, LogCmp{&c}); else s(b, e, LogCmp{&c}); }
            else { if (range && !pad) s(v, LogCmp{&c}, LogProj{&c}); else s(b, e, LogCmp{&c}, LogProj{&c}); }
        });
    }, others, threads, throws);
}

// Fixed-size sorters
template<typename S, int N>
void t_fixed(Src& src, const char* name)
{
    static const S s{};
    auto cases = draw_cases(src, name, 20, N);
    history<Vec<El>>(src, name, cases, [&](const Case& c) {
        return std::function<void(Vec<El>&, std::size_t, std::size_t)>([&s, &c](Vec<El>& v, std::size_t pad, std::size_t n) {
            auto b = v.begin() + (std::ptrdiff_t)pad;
            s(b, b + (std::ptrdiff_t)n, LogCmp{&c}, LogProj{&c});
        });
    }, others, true);
}

// Measures: all the threads read the same sequence
template<typename P>
void t_probe(Src& src, const char* name)
{
    static const P p{};
    auto cases = draw_cases(src, name, 120);
    bool list = src.below(2);
    using V = std::vector<ElD>;
    std::vector<V> vs(cases.size());
    for (std::size_t i = 0; i < cases.size(); ++i) for (std::size_t k = 0; k < cases[i].keys.size(); ++k) vs[i].emplace_back(cases[i].keys[k], (int)k);
    std::vector<FList<ElD>> ls(cases.size());
    for (std::size_t i = 0; i < cases.size(); ++i) for (std::size_t k = cases[i].keys.size(); k-- > 0;) ls[i].emplace_front(cases[i].keys[k], (int)k);
    auto call = [&](std::size_t i, Rec& r) {
        Rec* saved = rec;
        rec = &r;
        r.t.result.push_back(-1);
        try {
            if (list) r.t.result[0] = (int)p(std::as_const(ls[i]), LogCmp{&cases[i]}, LogProj{&cases[i]});
            else r.t.result[0] = (int)p(vs[i].cbegin(), vs[i].cend(), LogCmp{&cases[i]}, LogProj{&cases[i]});
        } catch (...) { rec = saved; throw; }
        rec = saved;
        return r.t;
    };
    std::vector<Trace> ref;
    for (std::size_t i = 0; i < cases.size(); ++i) { Rec r; ref.push_back(call(i, r)); }
    for (int s = 1 + (int)src.below(3); s > 0; --s) {
        std::size_t w = src.below(cases.size()), w2 = src.below(cases.size());
#ifdef TSAN
        switch (3) {
#else
        switch (src.below(4)) {
#endif
            case 0: {
                int b = (int)src.below(256);
                src.note("dirty(%d) ", b);
                dirty_heap((unsigned char)b); dirty_stack((unsigned char)b);
                Rec r; expect(call(w, r), ref[w], name, "with other values in unused memory");
                break;
            }
            case 1: {
                if (!ref[w].cmps) break;
                long long at = (long long)src.below((u64)ref[w].cmps);
                bool thr = src.below(3) == 0;
                src.note("%s(%zu in comparison %lld of %zu) ", thr ? "throw" : "nested", w2, at, w);
                Rec r, inner;
                r.at = at;
                r.disturb = [&] { if (thr) throw Stop{}; expect(call(w2, inner), ref[w2], name, "called by the functions of another call"); };
                try { expect(call(w, r), ref[w], name, "with a call inside its functions"); } catch (Stop&) {}
                Rec r2; expect(call(w, r2), ref[w], name, "called again");
                break;
            }
            default: {
                src.note("threads ");
                std::vector<Trace> got(3);
                call_in_threads(3, [&](std::size_t i) { Rec r; got[i] = call(i < 2 ? w : w2, r); });
                for (std::size_t i = 0; i < 3; ++i) expect(got[i], ref[i < 2 ? w : w2], name, "next to calls in other threads");
            }
        }
    }
}

// Any function of shared constant data: called again, and by several threads at once
template<typename R, typename F>
void same_everywhere(Src& src, const char* name, F f)
{
    const R ref = f();
    int b = (int)src.below(256);
    dirty_heap((unsigned char)b); dirty_stack((unsigned char)b);
    PBT_CHECK(f() == ref, "%s: not the same result the second time", name);
    std::vector<R> got(3);
    call_in_threads(3, [&](std::size_t i) { got[i] = f(); });
    for (auto& g: got) PBT_CHECK(g == ref, "%s: not the same result next to calls in other threads", name);
}

template<typename S>
void t_permutations(Src& src, const char* name)
{
    auto cases = draw_cases(src, name, 200);
    const Case& c = cases[0];
    std::vector<Plain> data; fill(data, c.keys);
    const auto& v = data;
    static const su::sorted_indices<S> si{}; static const su::sorted_iterators<S> st{};
    auto cmp = [&c](int a, int b) { return c.order(a, b); };
    auto proj = [&c](const Plain& p) { return gen::proj_apply(c.mode, p.key); };
    using R = std::vector<long long>;
    same_everywhere<R>(src, name, [&] { auto i = si(v, cmp, proj); return R(i.begin(), i.end()); });
    same_everywhere<R>(src, name, [&] { R r; for (auto i: st(v, cmp, proj)) r.push_back(i - v.begin()); return r; });
    same_everywhere<R>(src, name, [&] { auto w = v; auto i = si(w, cmp, proj); su::apply_permutation(w, i); R r; for (auto& e: w) r.push_back(e.id); return r; });
}

// Type-specific sorters
template<typename K> K value(int k)
{
    if constexpr (std::is_same<K, std::string>::value) { u64 h = pbt::mix((u64)k, 7); std::string s; for (int i = 0; i < k % 23 % 9; ++i) { s += (char)('a' + h % 3); h /= 3; } return s + std::to_string(k % 50); }
    else return (K)(k * (sizeof(K) > 4 ? 1000003ll : 1));
}
template<typename S, typename K, bool Projects>
void t_typed(Src& src, const char* name)
{
    static const S s{};
    bool big = src.below(3) == 0;
    auto cases = draw_cases(src, name, big ? 2500 : 300);
    if (!Projects) for (auto& c: cases) for (auto& k: c.keys) k %= 3000;    // counting_sorter: memory for the span of the values
    struct Row { K k; int id; };
    using R = std::vector<int>;
    bool tables = Projects && src.below(3) != 0;
    auto sort = [&](std::size_t i) {
        R r;
        if constexpr (Projects) if (tables) {
            std::vector<Row> v;
            for (std::size_t j = 0; j < cases[i].keys.size(); ++j) v.push_back({value<K>(cases[i].keys[j]), (int)j});
            s(v, &Row::k);
            for (auto& e: v) r.push_back(e.id);
            return r;
        }
        std::vector<K> v;
        for (int k: cases[i].keys) v.push_back(value<K>(k));
        s(v);
        for (auto& e: v) r.push_back((int)std::hash<K>{}(e));
        return r;
    };
    std::vector<R> ref;
    for (std::size_t i = 0; i < cases.size(); ++i) ref.push_back(sort(i));
    for (std::size_t i = 0; i < cases.size(); ++i) {
        dirty_heap((unsigned char)src.below(256)); dirty_stack((unsigned char)src.below(256));
        PBT_CHECK(sort(i) == ref[i], "%s: another result for the same input", name);
    }
    std::vector<R> got(3);
    call_in_threads(3, [&](std::size_t i) { got[i] = sort(i % cases.size()); });
    for (std::size_t i = 0; i < 3; ++i) PBT_CHECK(got[i] == ref[i % cases.size()], "%s: another result next to calls in other threads", name);
}

// Comparators
template<typename Cmp, typename T>
void t_compare(Src& src, const char* name)
{
    static const Cmp cmp{};
    auto cases = draw_cases(src, name, 40);
    std::vector<T> v;
    for (auto& c: cases) for (int k: c.keys)
        if constexpr (std::is_same<T, double>::value) v.push_back(k % 7 ? k * 0.25 : k % 2 ? -0.0 : 0.0);
        else v.push_back(value<std::string>(k) + (k % 3 ? "Ab" : "aB") + std::to_string(k % 7) + (k % 5 ? "" : "x"));
    using R = std::vector<bool>;
    same_everywhere<R>(src, name, [&] { R r; for (std::size_t i = 1; i < v.size(); ++i) { r.push_back(cmp(v[i - 1], v[i])); r.push_back(cmp(v[i], v[i - 1])); } return r; });
}

template<int I, typename S, typename Cat, bool D, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        using T = std::conditional_t<D, ElD, El>;
        pbt::add_test(std::string(name) + "/vector", 1200, 16000, [name](Src& s) { t_sort<S, Vec<T>>(s, name, Quad); });
        if constexpr (std::is_same<Cat, fwd_tag>::value) pbt::add_test(std::string(name) + "/forward_list", 500, 7000, [name](Src& s) { t_sort<S, FList<T>>(s, name, Quad); });
        if constexpr (!std::is_same<Cat, ra_tag>::value) pbt::add_test(std::string(name) + "/list", 500, 7000, [name](Src& s) { t_sort<S, List<T>>(s, name, Quad); });
    }
}

// template: nothing is instantiated for the other parts
template<int I, typename A> void part(const char* name, int quick, A)
{
    if constexpr (I % NPARTS == PART) pbt::add_test(name, quick, quick * 20, [name](Src& s) { A::call(s, name); });
}
template<typename S, int N> struct Fixed { static void call(Src& s, const char* n) { t_fixed<S, N>(s, n); } };
template<typename P> struct Probe { static void call(Src& s, const char* n) { t_probe<P>(s, n); } };
template<typename S> struct Perm { static void call(Src& s, const char* n) { t_permutations<S>(s, n); } };
template<typename S, typename K, bool P> struct Typed { static void call(Src& s, const char* n) { t_typed<S, K, P>(s, n); } };
template<typename C, typename T> struct Compare { static void call(Src& s, const char* n) { t_compare<C, T>(s, n); } };

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, false, QUAD>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, true, QUAD>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false, true>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#define A(NAME, QUICK, ...) part<__COUNTER__ - base - 1>(NAME, QUICK, __VA_ARGS__{});
#define F(S, N) A(#S "<" #N ">", 300, Fixed<cs::S<N>, N>)
    F(sorting_network_sorter, 7) F(sorting_network_sorter, 16) F(low_comparisons_sorter, 5) F(low_comparisons_sorter, 13) F(low_moves_sorter, 4) F(low_moves_sorter, 9)
    F(merge_exchange_network_sorter, 11) F(odd_even_merge_network_sorter, 8)
#define P(NAME) A("probe " #NAME, 600, Probe<std::decay_t<decltype(cs::probe::NAME)>>)
    P(block) P(dis) P(enc) P(exc) P(ham) P(inv) P(max) P(mono) P(osc) P(rem) P(runs) P(sus)
#define Q(S) A("permutations " #S, 400, Perm<cs::S>)
    Q(heap_sorter) Q(merge_sorter) Q(pdq_sorter) Q(slab_sorter)
#define V(S, TYPE, PROJ) A(#S " " #TYPE, 400, Typed<cs::S, TYPE, PROJ>)
    using std::string; using ll = long long;
    V(ska_sorter, int, true) V(ska_sorter, double, true) V(ska_sorter, string, true) V(ska_sorter, ll, true)
    V(spread_sorter, int, true) V(spread_sorter, double, true) V(spread_sorter, string, true) V(float_spread_sorter, float, true)
    V(integer_spread_sorter, ll, true) V(string_spread_sorter, string, true) V(counting_sorter, int, false)
    // comparison sorters, on values whose known comparisons select other code
    V(pdq_sorter, int, true) V(pdq_sorter, double, true) V(pdq_sorter, string, true) V(verge_sorter, int, true) V(default_sorter, double, true)
    V(std_sorter, int, true) V(wiki_sorter<>, int, true) V(grail_sorter<>, ll, true) V(slab_sorter, int, true) V(tim_sorter, string, true) V(drop_merge_sorter, int, true)
    V(quick_merge_sorter, double, true) V(smooth_sorter, int, true) V(split_sorter, ll, true) V(spin_sorter, string, true) V(heap_sorter, int, true)
#define O(NAME, T) A("compare " #NAME, 300, Compare<std::decay_t<decltype(cs::NAME)>, T>)
    O(natural_less, string) O(case_insensitive_less, string) O(total_less, double) O(weak_less, double) O(partial_less, double)
}
