// C07: numbers of comparisons, projections and moves against the documented worst case, on
// structured inputs and against an antagonistic comparison.
#include "ops.h"
#include "bounds.h"

using namespace ops;

template<typename S, typename C>
void t_worst(Src& src, const char* name, const char* where, const bounds::Worst& b, bool quad, bool no_memory)
{
    int mode = (int)src.below(3);
    std::size_t hi = quad ? 800 : no_memory ? 3000 : mode == 2 ? 3000 : pbt::g_thorough ? 60000 : 12000;
    auto keys = td::to_int(gen::keys_n(src, 64, hi));
    double n = (double)keys.size(), unit = quad ? n * n : no_memory ? n * lg(n) * lg(n) : n * lg(n);
    src.note("%s %s mode=%d ", name, where, mode);
    src.note_seq("keys", keys);
    src.nontrivial_if(mode == 2 || !std::is_sorted(keys.begin(), keys.end()));
    src.classify(mode == 2 ? "antagonistic comparison" : "structured input");
    src.classify(n < 256 ? "n<256" : n < 1024 ? "n<1024" : n < 4096 ? "n<4096" : "n>=4096");
    u64 lim = (u64)(60 * (b.cmps + b.moves + b.projs + 20) * unit + 100000);
    auto r = measure<S, C>(keys, mode, name, lim, no_memory);
    calibrate(name, (std::string(where) + " c").c_str(), r.cmps / unit, keys.size());
    calibrate(name, (std::string(where) + " p").c_str(), r.projs / unit, keys.size());
    calibrate(name, (std::string(where) + " m").c_str(), r.moves / unit, keys.size());
    if (calibrating()) return;
    PBT_CHECK(r.cmps <= b.cmps * unit, "%s on a %s: %.0f comparisons for %.0f elements, more than %.2f %s", name, where, r.cmps, n, b.cmps, quad ? "n^2" : no_memory ? "n log2(n)^2" : "n log2 n");
    PBT_CHECK(r.projs <= b.projs * unit, "%s on a %s: %.0f projections for %.0f elements, more than %.2f %s", name, where, r.projs, n, b.projs, quad ? "n^2" : no_memory ? "n log2(n)^2" : "n log2 n");
    PBT_CHECK(r.moves <= b.moves * unit, "%s on a %s: %.0f moves for %.0f elements, more than %.2f %s", name, where, r.moves, n, b.moves, quad ? "n^2" : no_memory ? "n log2(n)^2" : "n log2 n");
}

template<int I, typename S, typename Cat, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        auto add = [&](const char* where, auto c) {
            using C = typename decltype(c)::type;
            auto b = bounds::worst(name, where);
            if (b.cmps != 0 || calibrating())
                pbt::add_test(std::string(name) + "/" + where, 1500, 12000, [=](Src& s) { t_worst<S, C>(s, name, where, b, Quad, false); });
        };
        add("vector", bounds::id<std::vector<M>>{});
        if constexpr (!std::is_same<Cat, ra_tag>::value) add("list", bounds::id<std::list<M>>{});
        if constexpr (std::is_same<Cat, fwd_tag>::value) add("forward_list", bounds::id<std::forward_list<M>>{});
    }
}

// documented to degrade to O(n log^2 n) when no memory is available (verge: O(n log n log log n))
template<int I, typename S, typename Cat>
void maybe_no_memory(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        auto add = [&](const char* where, auto c) {
            using C = typename decltype(c)::type;
            auto b = bounds::worst(name, where);
            pbt::add_test(std::string(name) + "/" + where, 800, 8000, [=](Src& s) { t_worst<S, C>(s, name, where, b, false, true); });
        };
        add("vector", bounds::id<std::vector<M>>{});
        if constexpr (!std::is_same<Cat, ra_tag>::value) add("list", bounds::id<std::list<M>>{});
        if constexpr (std::is_same<Cat, fwd_tag>::value) add("forward_list", bounds::id<std::forward_list<M>>{});
    }
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, QUAD>(NAME);
    COMPARISON_SORTERS(X)
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false>(NAME);
    ADAPTED_SORTERS(X)
#undef X
#ifndef BRANCHLESS
    maybe_no_memory<1, cppsort::merge_sorter, fwd_tag>("merge, no memory");
    maybe_no_memory<2, cppsort::verge_sorter, bi_tag>("verge, no memory");
    maybe_no_memory<3, cppsort::quick_merge_sorter, fwd_tag>("quick_merge, no memory");
    maybe_no_memory<0, cppsort::split_adapter<cppsort::merge_sorter>, bi_tag>("split<merge>, no memory");
#endif
}
