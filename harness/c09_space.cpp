// C09: auxiliary memory (heap bytes allocated at once, number of allocations, stack depth).
#include "ops.h"
#include "bounds.h"

using namespace ops;

// sorters documented with O(1), O(log n) or O(log^2 n) auxiliary memory, or whose buffer is part of
// the stack: nothing may be proportional to n
static bool in_place(const char* name)
{
    for (const char* x: {"d_ary_heap2", "d_ary_heap3", "d_ary_heap5", "d_ary_heap8", "grail", "grail16", "grail512", "heap", "insertion",
                         "pdq", "quick_merge", "quick", "selection", "smooth", "std", "wiki0", "wiki20", "wiki512", "block64",
                         "counting<quick>", "projections<wiki>", "default"})
        if (!std::strcmp(x, name)) return true;
    return false;
}

// number of elements of the dynamic buffers
static double dynamic_elements(const char* name, double n)
{
    std::string s = name;
    if (s == "grail_dyn_half" || s == "wiki_dyn_half") return n / 2;
    if (s == "grail_dyn_sqrt" || s == "wiki_dyn_sqrt") return std::sqrt(n);
    if (s == "grail_dyn_log") return std::log2(n);
    return -1;
}

template<typename S, typename C>
void t_space(Src& src, const char* name, const char* where, bounds::Space b, bool quad)
{
    int mode = (int)src.below(3);
    if (std::strstr(name, "insertion") || std::strstr(name, "selection")) quad = true;
    std::size_t hi = quad ? 800 : mode == 2 ? 3000 : pbt::g_thorough ? 60000 : 12000;
    auto keys = td::to_int(gen::keys_n(src, 64, hi));
    double n = (double)keys.size();
    src.note("%s %s mode=%d ", name, where, mode);
    src.note_seq("keys", keys);
    src.nontrivial_if(mode == 2 || !std::is_sorted(keys.begin(), keys.end()));
    src.classify(mode == 2 ? "antagonistic comparison" : "structured input");
    auto r = measure<S, C>(keys, mode, name, ~u64(0));
    calibrate(name, (std::string(where) + " b").c_str(), r.bytes / n, keys.size());
    calibrate(name, (std::string(where) + " s").c_str(), r.stack / lg(n), keys.size());
    calibrate(name, (std::string(where) + " a").c_str(), (double)r.allocs / n, keys.size());
    double dyn = dynamic_elements(name, n);
    src.classify(r.allocs ? "allocates" : "no allocation");
    if (in_place(name))
        PBT_CHECK(r.allocs == 0, "%s on a %s: %llu allocations (%lld bytes) for %.0f elements although documented as in-place", name, where, (unsigned long long)r.allocs, (long long)r.bytes, n);
    if (!std::strcmp(name, "poplar"))
        PBT_CHECK(r.bytes <= 60 * lg(n), "poplar: %lld bytes allocated at once for %.0f elements, more than 60 log2 n", (long long)r.bytes, n);
    if (dyn >= 0)
        PBT_CHECK(r.bytes <= (dyn + 1) * sizeof(M) + 64, "%s on a %s: %lld bytes allocated at once for %.0f elements and a buffer of %.0f", name, where, (long long)r.bytes, n, dyn);
    if (calibrating()) return;
    if (!in_place(name) && dyn < 0)
        PBT_CHECK(r.bytes <= b.bytes * n + 2048, "%s on a %s: %lld bytes allocated at once for %.0f elements, more than %.1f n", name, where, (long long)r.bytes, n, b.bytes);
    PBT_CHECK(r.stack <= b.stack * lg(n) + 4096, "%s on a %s: %td bytes of stack for %.0f elements, more than %.0f log2 n", name, where, r.stack, n, b.stack);
}

// containers whose dedicated algorithms are O(1) or O(log n)
template<typename S, typename C>
void t_list(Src& src, const char* name, bool linear)
{
    auto keys = td::to_int(gen::keys_n(src, 0, linear ? 12000 : 600));
    int mode = (int)src.below(2);
    src.note("%s mode=%d ", name, mode);
    src.note_seq("keys", keys);
    src.nontrivial_if(!std::is_sorted(keys.begin(), keys.end()));
    auto r = measure<S, C>(keys, mode, name, ~u64(0));
    PBT_CHECK(r.allocs == 0, "%s: %llu allocations although documented as in-place", name, (unsigned long long)r.allocs);
    PBT_CHECK(r.moves == 0, "%s: %.0f moves although nodes are relinked", name, r.moves);
    PBT_CHECK(r.stack <= 16384 + 400 * lg((double)keys.size()), "%s: %td bytes of stack for %zu elements", name, r.stack, keys.size());
}

template<int I, typename S, typename Cat, bool Quad>
void maybe(const char* name)
{
    if constexpr (I % NPARTS == PART) {
        auto add = [&](const char* where, auto c) {
            using C = typename decltype(c)::type;
            auto b = bounds::space(name, where);
            if (b.stack != 0 || calibrating())
                pbt::add_test(std::string(name) + "/" + where, 600, 8000, [=](Src& s) { t_space<S, C>(s, name, where, b, Quad); });
        };
        add("vector", bounds::id<std::vector<M>>{});
        if constexpr (!std::is_same<Cat, ra_tag>::value) add("list", bounds::id<std::list<M>>{});
        if constexpr (std::is_same<Cat, fwd_tag>::value) add("forward_list", bounds::id<std::forward_list<M>>{});
    }
}

void register_tests()
{
    enum { base = __COUNTER__ };
#define X(NAME, TYPE, CAT, STABLE, QUAD) maybe<__COUNTER__ - base - 1, TYPE, CAT, QUAD>(NAME);
    COMPARISON_SORTERS(X)
    BUFFERED_SORTERS(X)
#undef X
#define X(NAME, CAT, STABLE, ...) maybe<__COUNTER__ - base - 1, __VA_ARGS__, CAT, false>(NAME);
    ADAPTED_SORTERS(X)
#undef X
    if (PART == 0) {
        namespace cs = cppsort;
        pbt::add_test("container_aware<insertion>/list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::insertion_sorter>, std::list<M>>(s, "container_aware<insertion> on a list", false); });
        pbt::add_test("container_aware<insertion>/forward_list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::insertion_sorter>, std::forward_list<M>>(s, "container_aware<insertion> on a forward_list", false); });
        pbt::add_test("container_aware<selection>/list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::selection_sorter>, std::list<M>>(s, "container_aware<selection> on a list", false); });
        pbt::add_test("container_aware<selection>/forward_list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::selection_sorter>, std::forward_list<M>>(s, "container_aware<selection> on a forward_list", false); });
        pbt::add_test("container_aware<merge>/list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::merge_sorter>, std::list<M>>(s, "container_aware<merge> on a list", true); });
        pbt::add_test("container_aware<merge>/forward_list", 400, 6000, [](Src& s) { t_list<cs::container_aware_adapter<cs::merge_sorter>, std::forward_list<M>>(s, "container_aware<merge> on a forward_list", true); });
    }
}
