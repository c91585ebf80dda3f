// C06: allocation failures. Every call either completes with the right result or reports
// std::bad_alloc with all of the elements valid; documented algorithms never report it.
#include "alloc.h"
#include "elemd.h"
#include "sortcheck.h"
#include <cpp-sort/probes.h>

using namespace sc;
using td::ElemD;

struct Plan { al::Mode mode; u64 param, seed; };

// count: allocations of an undisturbed run; biggest: its largest request
inline Plan draw_plan(Src& src, u64 count, u64 biggest)
{
    Plan p{al::from_kth, 0, 1};
    switch (src.below(6)) {
        case 0: p = {al::from_kth, 0, 1}; src.classify("no memory at all"); break;
        case 1: p = {al::kth, src.below(count + 1), 1}; src.classify("one allocation fails"); break;
        case 2: p = {al::from_kth, src.below(count + 1), 1}; src.classify("memory runs out"); break;
        case 3: {
            u64 limit = biggest ? src.below(biggest + 1) : 0;
            if (src.below(2)) limit = limit >> src.below(10);    // small budgets
            p = {al::above_size, limit, 1}; src.classify("only small blocks available");
            break;
        }
        case 4: p = {al::random_subset, src.below(1024), src.bits() | 1}; src.classify("random failures"); break;
        case 5: p = {al::below_size, biggest ? src.below(biggest + 1) : 0, 1}; src.classify("small blocks fail"); break;
    }
    src.note("failures: mode %d param %llu (of %llu allocations, biggest %llu bytes) ", p.mode, (unsigned long long)p.param,
             (unsigned long long)count, (unsigned long long)biggest);
    return p;
}

template<typename C, typename S, typename T, typename Call>
void run(Src& src, const char* name, const Case& c, bool stable, bool never, Call call)
{
    u64 count, biggest;
    {
        C v; fill<T>(v, c.keys);
        S s{};
        al::start_peak();
        call(s, v);
        count = al::total_allocs; biggest = al::biggest;
    }
    Plan p = draw_plan(src, count, biggest);
    C v; fill<T>(v, c.keys);
    i64 elems = td::live_elems, blocks = al::live_blocks, bytes = al::live_bytes;
    bool bad = false;
    u64 refused;
    td::call_count = 0;
    td::call_limit = 200000 + 400ull * c.keys.size() * c.keys.size();
    {
        S s{};
        al::arm(p.mode, p.param, p.seed);
        try { call(s, v); al::disarm(); }
        catch (const std::bad_alloc&) { al::disarm(); bad = true; }
        catch (...) { al::disarm(); pbt::fail("%s: an exception other than std::bad_alloc reports the lack of memory", name); }
        refused = al::refused;
    }
    i64 e2 = td::live_elems, b2 = al::live_blocks, y2 = al::live_bytes;
    src.nontrivial_if(refused > 0);
    src.classify(!refused ? "nothing refused" : bad ? "refused: bad_alloc" : "refused: completed");
    if (bad) {
        PBT_CHECK(refused > 0, "%s: std::bad_alloc although no allocation failed", name);
        PBT_CHECK(!never, "%s: std::bad_alloc although documented as never throwing it", name);
    }
    PBT_CHECK(e2 == elems, "%s: %lld live elements instead of %lld after %s", name, (long long)e2, (long long)elems, bad ? "std::bad_alloc" : "the call");
    PBT_CHECK(b2 == blocks && y2 == bytes, "%s: %lld memory blocks (%lld bytes) leaked", name, (long long)(b2 - blocks), (long long)(y2 - bytes));
    std::size_t n = 0;
    for (auto& x: v) {
        ++n;
        PBT_CHECK(x.alive(), "%s: an element of the range is not alive after %s", name, bad ? "std::bad_alloc" : "the call");
        PBT_CHECK(bad || x.readable(), "%s: an element of the range is moved-from after the call", name);
    }
    PBT_CHECK(n == c.keys.size(), "%s: %zu elements instead of %zu after %s", name, n, c.keys.size(), bad ? "std::bad_alloc" : "the call");
    if (!bad) verify(v.begin(), v.end(), c, name, stable);
    else {
        // the range can be refilled and sorted
        std::size_t i = 0;
        for (auto& x: v) { x = T(c.keys[i], (int)i); ++i; }
        S s{};
        call(s, v);
        verify(v.begin(), v.end(), c, name);
    }
}

template<typename S, typename Cat, typename T, bool Quad, bool Stable, bool Never>
void t_mem(Src& src, const char* name)
{
    int where = (int)src.below(4);
    bool ecmp = src.below(2);
    Case c = draw(src, Quad ? 150 : pbt::g_thorough ? 5000 : 1800);
    if (src.chance(1, 4)) coarsen(src, c);
    src.note("%s where=%d ", name, where);
    auto call = [&](S& s, auto& v) {
        if (ecmp) s(v, c.ecmp());
        else s(v.begin(), v.end(), c.cmp(), c.proj());
    };
    if (where == 0) return run<std::vector<T>, S, T>(src, name, c, Stable, Never, call);
    if (where == 1) return run<std::deque<T>, S, T>(src, name, c, Stable, Never, call);
    if constexpr (std::is_same<Cat, fwd_tag>::value) {
        if (where == 2) return run<std::forward_list<T>, S, T>(src, name, c, Stable, Never, call);
        return run<std::list<T>, S, T>(src, name, c, Stable, Never, call);
    }
    else if constexpr (std::is_same<Cat, bi_tag>::value) run<std::list<T>, S, T>(src, name, c, Stable, Never, call);
    else run<std::vector<T>, S, T>(src, name, c, Stable, Never, call);
}

// Measures: right value or std::bad_alloc
template<typename P, typename C>
void t_probe(Src& src, const char* name, bool never)
{
    Case c = draw(src, 500);
    src.note("probe %s ", name);
    C v; fill<Plain>(v, c.keys);
    al::start_peak();
    long long expected = (long long)P{}(v.begin(), v.end(), c.cmp(), c.proj());
    Plan p = draw_plan(src, al::total_allocs, al::biggest);
    i64 blocks = al::live_blocks, bytes = al::live_bytes;
    bool bad = false;
    long long got = 0;
    al::arm(p.mode, p.param, p.seed);
    try { got = (long long)P{}(v.begin(), v.end(), c.cmp(), c.proj()); al::disarm(); }
    catch (const std::bad_alloc&) { al::disarm(); bad = true; }
    src.nontrivial_if(al::refused > 0);
    src.classify(!al::refused ? "probe: nothing refused" : bad ? "probe refused: bad_alloc" : "probe refused: completed");
    PBT_CHECK(!bad || al::refused > 0, "probe::%s: std::bad_alloc although no allocation failed", name);
    PBT_CHECK(!bad || !never, "probe::%s: std::bad_alloc although it has a documented variant without extra memory", name);
    PBT_CHECK(bad || got == expected, "probe::%s: %lld when memory lacks, %lld otherwise", name, got, expected);
    PBT_CHECK(al::live_blocks == blocks && al::live_bytes == bytes, "probe::%s: memory leaked", name);
    verify_untouched(v.begin(), v.end(), c, name);
}
template<typename P>
void add_p(const char* name, bool never)
{
    char* nm = strdup(name);
    pbt::add_test(std::string("probe ") + name + "/fwd", 2000, 40000, [=](Src& s) { t_probe<P, std::forward_list<Plain>>(s, nm, never); });
    pbt::add_test(std::string("probe ") + name + "/bidir", 2000, 40000, [=](Src& s) { t_probe<P, std::list<Plain>>(s, nm, never); });
    pbt::add_test(std::string("probe ") + name + "/ra", 2000, 40000, [=](Src& s) { t_probe<P, std::vector<Plain>>(s, nm, never); });
}

constexpr bool eq(const char* a, const char* b)
{
    while (*a && *a == *b) { ++a; ++b; }
    return *a == *b;
}
constexpr bool never_throws(const char* name)
{
    const char* list[] = {"d_ary_heap2", "d_ary_heap3", "d_ary_heap5", "d_ary_heap8", "grail", "heap", "insertion", "merge", "pdq",
                          "quick_merge", "quick", "selection", "smooth", "split", "std", "wiki0", "wiki512", "wiki20", "block64",
                          "grail16", "grail512", "split<quick_merge>", "split<poplar>", "container_aware<merge>", "container_aware<selection>",
                          "counting<quick>"};
    for (auto* s: list) if (eq(s, name) && !eq(s, "split<poplar>")) return true;
    return false;
}

template<int I, typename S, typename Cat, typename T, bool Quad, bool Stable, bool Never>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART)
        pbt::add_test(name, 4000, 80000, [name](Src& s) { t_mem<S, Cat, T, Quad, Stable, Never>(s, name); });
}

namespace cs = cppsort;
void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, Elem, QUAD, STABLE, never_throws(NAME)>(NAME);
    COMPARISON_SORTERS(X)
#undef X
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, ElemD, QUAD, STABLE, never_throws(NAME)>(NAME);
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, Elem, false, STABLE, never_throws(NAME)>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#define A(...) if constexpr ((__COUNTER__ - base - 1) % NPARTS == PART) __VA_ARGS__
#define P(NAME, NEVER) A((add_p<std::decay_t<decltype(cs::probe::NAME)>>(#NAME, NEVER)));
    P(block, false) P(dis, true) P(enc, false) P(exc, false) P(ham, false) P(inv, false) P(max, false) P(mono, true) P(osc, true)
    P(par, true) P(rem, false) P(runs, true) P(sus, false)
}
