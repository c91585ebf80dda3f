// Generated by tools/bounds.py from calibration runs: do not edit.
#ifndef BOUNDS_H_
#define BOUNDS_H_
#include <cstring>
namespace bounds
{
template<typename T> struct id { using type = T; };
// maxima per n log2 n (n^2 for the quadratic sorters, n log2(n)^2 without memory)
struct Worst { double cmps, projs, moves; };
inline Worst worst(const char* name, const char* where)
{
    static const struct { const char *name, *where; Worst w; } t[] = {
        {"adaptive_shivers", "vector", {1.7, 2.7, 7.4}},
        {"block64", "vector", {2.2, 4.1, 7.2}},
        {"cartesian_tree", "forward_list", {2.9, 5.2, 0.8}},
        {"cartesian_tree", "list", {2.8, 5.0, 0.8}},
        {"cartesian_tree", "vector", {2.9, 5.0, 0.8}},
        {"comparisons<pdq>_branchless", "vector", {3.4, 5.0, 3.4}},
        {"comparisons<splay>", "forward_list", {2.3, 2.4, 0.8}},
        {"comparisons<splay>", "list", {2.2, 2.3, 0.8}},
        {"comparisons<splay>", "vector", {2.3, 2.4, 0.8}},
        {"container_aware<merge>", "forward_list", {1.8, 3.2, 0.3}},
        {"container_aware<merge>", "list", {1.8, 3.2, 0.3}},
        {"container_aware<merge>", "vector", {5.3, 5.9, 5.9}},
        {"counting<quick>", "forward_list", {12.2, 15.5, 7.0}},
        {"counting<quick>", "list", {11.7, 13.5, 5.2}},
        {"counting<quick>", "vector", {11.7, 13.5, 5.1}},
        {"d_ary_heap2", "vector", {4.2, 8.2, 8.5}},
        {"d_ary_heap3", "vector", {3.8, 7.4, 6.0}},
        {"d_ary_heap5", "vector", {3.9, 7.5, 4.9}},
        {"d_ary_heap8", "vector", {4.7, 9.1, 4.2}},
        {"default", "forward_list", {12.2, 15.5, 7.0}},
        {"default", "list", {11.7, 13.5, 5.1}},
        {"default", "vector", {3.4, 5.0, 2.6}},
        {"drop_merge", "list", {4.0, 6.9, 5.7}},
        {"drop_merge", "vector", {3.9, 6.8, 6.2}},
        {"drop_merge<heap>", "list", {4.4, 8.5, 7.0}},
        {"drop_merge<heap>", "vector", {4.4, 8.5, 7.0}},
        {"drop_merge<out_of_place<spin>>", "list", {11.3, 14.3, 14.8}},
        {"drop_merge<out_of_place<spin>>", "vector", {11.5, 14.6, 14.8}},
        {"grail", "vector", {4.6, 5.6, 12.4}},
        {"grail16", "vector", {4.6, 5.6, 11.3}},
        {"grail512", "vector", {4.6, 5.6, 10.6}},
        {"grail_dyn_half", "vector", {4.5, 5.5, 10.1}},
        {"grail_dyn_log", "vector", {4.6, 5.6, 11.5}},
        {"grail_dyn_sqrt", "vector", {4.5, 5.6, 11.5}},
        {"heap", "vector", {2.3, 4.2, 3.1}},
        {"hybrid<merge,heap>", "forward_list", {2.4, 4.5, 5.3}},
        {"hybrid<merge,heap>", "list", {5.0, 5.7, 5.7}},
        {"hybrid<merge,heap>", "vector", {2.3, 4.3, 3.2}},
        {"hybrid<selection,insertion,drop_merge>", "vector", {3.0, 3.9, 3.2}},
        {"indirect<heap>", "forward_list", {2.4, 4.3, 0.7}},
        {"indirect<heap>", "list", {2.2, 4.2, 0.7}},
        {"indirect<heap>", "vector", {2.3, 4.3, 0.7}},
        {"indirect<merge>", "forward_list", {5.0, 5.8, 0.7}},
        {"indirect<merge>", "list", {5.2, 5.8, 0.7}},
        {"indirect<merge>", "vector", {4.9, 5.6, 0.7}},
        {"indirect<stable<poplar>>", "forward_list", {6.1, 11.8, 0.7}},
        {"indirect<stable<poplar>>", "list", {6.0, 11.8, 0.7}},
        {"indirect<stable<poplar>>", "vector", {5.9, 11.4, 0.7}},
        {"insertion", "list", {1.1, 1.1, 1.1}},
        {"insertion", "vector", {1.1, 1.1, 1.1}},
        {"make_stable<slab>", "list", {10.0, 19.7, 5.3}},
        {"make_stable<slab>", "vector", {10.2, 20.1, 5.2}},
        {"mel", "forward_list", {2.3, 3.6, 0.8}},
        {"mel", "list", {2.4, 3.6, 0.8}},
        {"mel", "vector", {2.3, 3.6, 0.8}},
        {"merge", "forward_list", {2.4, 4.6, 5.4}},
        {"merge", "list", {5.0, 5.8, 5.7}},
        {"merge", "vector", {4.9, 5.7, 5.6}},
        {"merge, no memory", "forward_list", {0.6, 0.9, 1.4}},
        {"merge, no memory", "list", {1.1, 1.2, 1.3}},
        {"merge, no memory", "vector", {1.1, 1.2, 1.2}},
        {"merge_insertion", "vector", {1.7, 2.1, 5.9}},
        {"out_of_place<smooth>", "forward_list", {4.6, 8.9, 6.3}},
        {"out_of_place<smooth>", "list", {4.6, 8.9, 6.3}},
        {"out_of_place<smooth>", "vector", {4.6, 8.9, 6.2}},
        {"out_of_place<tim>", "forward_list", {1.7, 2.7, 8.0}},
        {"out_of_place<tim>", "list", {1.7, 2.8, 8.4}},
        {"out_of_place<tim>", "vector", {1.7, 2.8, 7.8}},
        {"out_of_place<verge<pdq>>", "forward_list", {3.2, 4.6, 3.2}},
        {"out_of_place<verge<pdq>>", "list", {3.2, 4.6, 3.2}},
        {"out_of_place<verge<pdq>>", "vector", {3.2, 4.6, 3.0}},
        {"pdq", "vector", {3.4, 4.9, 3.2}},
        {"pdq, no memory", "vector", {0.8, 1.0, 0.7}},
        {"pdq_branchless", "vector", {3.4, 5.0, 3.4}},
        {"poplar", "vector", {4.1, 6.5, 4.4}},
        {"projections<wiki>", "vector", {3.8, 6.2, 14.6}},
        {"quick", "forward_list", {12.2, 15.4, 7.1}},
        {"quick", "list", {11.7, 13.5, 5.2}},
        {"quick", "vector", {11.7, 13.5, 5.4}},
        {"quick, no memory", "forward_list", {1.4, 1.7, 0.9}},
        {"quick, no memory", "list", {1.4, 1.5, 1.0}},
        {"quick, no memory", "vector", {1.4, 1.5, 0.9}},
        {"quick_merge", "forward_list", {8.9, 14.2, 5.1}},
        {"quick_merge", "list", {7.8, 9.2, 5.5}},
        {"quick_merge", "vector", {3.9, 6.1, 5.1}},
        {"quick_merge, no memory", "forward_list", {1.6, 2.4, 0.8}},
        {"quick_merge, no memory", "list", {1.1, 1.2, 1.0}},
        {"quick_merge, no memory", "vector", {0.9, 1.3, 0.8}},
        {"schwartz<indirect<merge>>", "forward_list", {4.9, 0.6, 0.8}},
        {"schwartz<indirect<merge>>", "list", {4.9, 0.6, 0.8}},
        {"schwartz<indirect<merge>>", "vector", {5.0, 0.6, 0.8}},
        {"schwartz<merge>", "forward_list", {4.9, 0.6, 10.2}},
        {"schwartz<merge>", "list", {4.9, 0.6, 10.2}},
        {"schwartz<merge>", "vector", {5.0, 0.6, 10.2}},
        {"schwartz<pdq>", "vector", {3.4, 0.6, 4.6}},
        {"schwartz<pdq>_branchless", "vector", {3.4, 0.6, 5.7}},
        {"schwartz<tim>", "vector", {1.7, 0.6, 13.4}},
        {"selection", "forward_list", {1.1, 1.9, 0.4}},
        {"selection", "list", {1.1, 1.9, 0.4}},
        {"selection", "vector", {1.1, 1.9, 0.4}},
        {"self_sort<mel>", "forward_list", {2.4, 3.6, 0.8}},
        {"self_sort<mel>", "list", {2.4, 3.6, 0.8}},
        {"self_sort<mel>", "vector", {2.4, 3.6, 0.8}},
        {"slab", "list", {6.2, 9.2, 3.0}},
        {"slab", "vector", {6.4, 9.7, 3.2}},
        {"smooth", "vector", {4.5, 8.7, 5.8}},
        {"spin", "vector", {9.4, 9.9, 9.8}},
        {"splay", "forward_list", {2.3, 2.4, 0.8}},
        {"splay", "list", {2.3, 2.4, 0.8}},
        {"splay", "vector", {2.3, 2.4, 0.8}},
        {"split", "vector", {3.0, 4.0, 2.8}},
        {"split, no memory", "vector", {0.8, 0.9, 0.7}},
        {"split<merge>, no memory", "list", {1.1, 1.2, 1.3}},
        {"split<merge>, no memory", "vector", {1.1, 1.3, 1.2}},
        {"split<poplar>", "vector", {4.5, 7.2, 4.5}},
        {"split<quick_merge>", "list", {4.2, 5.3, 5.2}},
        {"split<quick_merge>", "vector", {3.4, 5.0, 5.2}},
        {"stable<pdq>", "vector", {5.9, 11.4, 5.0}},
        {"stable<quick>", "forward_list", {16.5, 32.7, 8.6}},
        {"stable<quick>", "list", {16.5, 32.7, 9.1}},
        {"stable<quick>", "vector", {16.5, 32.8, 9.1}},
        {"stable<verge<heap>>", "vector", {3.8, 7.3, 4.3}},
        {"stable<verge>, no memory", "vector", {0.3, 0.4, 0.3}},
        {"std", "vector", {5.3, 10.3, 3.3}},
        {"tim", "vector", {1.7, 2.7, 7.5}},
        {"verge", "list", {5.2, 6.4, 4.9}},
        {"verge", "vector", {3.2, 4.6, 3.3}},
        {"verge, no memory", "list", {1.0, 1.2, 0.9}},
        {"verge, no memory", "vector", {0.8, 1.0, 0.7}},
        {"verge<merge>", "list", {5.0, 5.9, 5.7}},
        {"verge<merge>", "vector", {4.9, 5.6, 5.6}},
        {"verge<smooth>", "vector", {4.4, 8.4, 5.6}},
        {"verge_branchless", "list", {5.3, 6.4, 5.5}},
        {"verge_branchless", "vector", {3.2, 4.6, 3.4}},
        {"wiki0", "vector", {3.9, 6.1, 14.1}},
        {"wiki20", "vector", {2.4, 4.3, 10.0}},
        {"wiki512", "vector", {2.0, 3.7, 4.8}},
        {"wiki_dyn_half", "vector", {2.2, 3.8, 4.4}},
        {"wiki_dyn_sqrt", "vector", {2.8, 4.6, 7.3}},
    };
    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where)) return e.w;
    return {0, 0, 0};
}
// maxima per n; none: nothing claimed
struct Best { double cmps, moves; };
inline Best best(const char* name, const char* where, const char* kind)
{
    static const struct { const char *name, *where, *kind; Best b; } t[] = {
        {"adaptive_shivers", "vector", "displaced", {5.3, 6.2}},
        {"adaptive_shivers", "vector", "encroaching", {8.3, 39.9}},
        {"adaptive_shivers", "vector", "equal", {1.6, 0.3}},
        {"adaptive_shivers", "vector", "mixed_runs", {8.9, 16.6}},
        {"adaptive_shivers", "vector", "reversed", {1.6, 2.3}},
        {"adaptive_shivers", "vector", "runs", {8.8, 16.6}},
        {"adaptive_shivers", "vector", "sorted", {1.6, 0.3}},
        {"adaptive_shivers", "vector", "swaps", {6.8, 9.2}},
        {"block64", "vector", "displaced", {10.2, 25.3}},
        {"block64", "vector", "equal", {4.2, 0.3}},
        {"block64", "vector", "reversed", {6.0, 43.3}},
        {"block64", "vector", "sorted", {4.9, 9.2}},
        {"block64", "vector", "swaps", {11.1, 38.0}},
        {"cartesian_tree", "forward_list", "displaced", {6.5, 3.5}},
        {"cartesian_tree", "forward_list", "equal", {1.6, 3.0}},
        {"cartesian_tree", "forward_list", "mixed_runs", {9.2, 3.5}},
        {"cartesian_tree", "forward_list", "reversed", {1.6, 3.0}},
        {"cartesian_tree", "forward_list", "runs", {10.0, 3.5}},
        {"cartesian_tree", "forward_list", "sorted", {1.6, 3.0}},
        {"cartesian_tree", "forward_list", "swaps", {7.3, 3.5}},
        {"cartesian_tree", "list", "displaced", {6.6, 3.5}},
        {"cartesian_tree", "list", "equal", {1.6, 3.0}},
        {"cartesian_tree", "list", "mixed_runs", {9.2, 3.5}},
        {"cartesian_tree", "list", "reversed", {1.6, 3.0}},
        {"cartesian_tree", "list", "runs", {10.0, 3.5}},
        {"cartesian_tree", "list", "sorted", {1.6, 3.0}},
        {"cartesian_tree", "list", "swaps", {7.1, 3.5}},
        {"cartesian_tree", "vector", "displaced", {6.5, 3.5}},
        {"cartesian_tree", "vector", "equal", {1.6, 3.0}},
        {"cartesian_tree", "vector", "mixed_runs", {9.5, 3.5}},
        {"cartesian_tree", "vector", "reversed", {1.6, 3.0}},
        {"cartesian_tree", "vector", "runs", {10.0, 3.5}},
        {"cartesian_tree", "vector", "sorted", {1.6, 3.0}},
        {"cartesian_tree", "vector", "swaps", {7.1, 3.5}},
        {"comparisons<pdq>_branchless", "vector", "equal", {3.1, 0.5}},
        {"comparisons<pdq>_branchless", "vector", "reversed", {6.4, 4.0}},
        {"comparisons<pdq>_branchless", "vector", "sorted", {13.1, 1.6}},
        {"comparisons<splay>", "forward_list", "displaced", {5.4, 3.5}},
        {"comparisons<splay>", "forward_list", "encroaching", {3.9, 3.5}},
        {"comparisons<splay>", "forward_list", "equal", {1.6, 3.0}},
        {"comparisons<splay>", "forward_list", "mixed_runs", {10.9, 3.5}},
        {"comparisons<splay>", "forward_list", "reversed", {1.6, 3.0}},
        {"comparisons<splay>", "forward_list", "sorted", {1.6, 3.0}},
        {"comparisons<splay>", "forward_list", "swaps", {6.1, 3.5}},
        {"comparisons<splay>", "list", "displaced", {5.3, 3.5}},
        {"comparisons<splay>", "list", "encroaching", {3.9, 3.5}},
        {"comparisons<splay>", "list", "equal", {1.6, 3.0}},
        {"comparisons<splay>", "list", "mixed_runs", {11.0, 3.5}},
        {"comparisons<splay>", "list", "reversed", {1.6, 3.0}},
        {"comparisons<splay>", "list", "sorted", {1.6, 3.0}},
        {"comparisons<splay>", "list", "swaps", {6.3, 3.5}},
        {"comparisons<splay>", "vector", "displaced", {5.4, 3.5}},
        {"comparisons<splay>", "vector", "encroaching", {3.9, 3.5}},
        {"comparisons<splay>", "vector", "equal", {1.6, 3.0}},
        {"comparisons<splay>", "vector", "mixed_runs", {11.2, 3.5}},
        {"comparisons<splay>", "vector", "reversed", {1.6, 3.0}},
        {"comparisons<splay>", "vector", "sorted", {1.6, 3.0}},
        {"comparisons<splay>", "vector", "swaps", {6.1, 3.5}},
        {"counting<quick>", "forward_list", "equal", {3.1, 0.3}},
        {"counting<quick>", "list", "equal", {3.1, 0.3}},
        {"counting<quick>", "vector", "equal", {3.1, 0.3}},
        {"drop_merge", "list", "displaced", {3.8, 4.0}},
        {"drop_merge", "list", "equal", {1.6, 0.3}},
        {"drop_merge", "list", "sorted", {1.6, 0.3}},
        {"drop_merge", "list", "swaps", {4.4, 4.9}},
        {"drop_merge", "vector", "displaced", {3.7, 3.9}},
        {"drop_merge", "vector", "equal", {1.6, 0.3}},
        {"drop_merge", "vector", "sorted", {1.6, 0.3}},
        {"drop_merge", "vector", "swaps", {4.1, 4.4}},
        {"drop_merge<heap>", "list", "displaced", {3.8, 4.2}},
        {"drop_merge<heap>", "list", "equal", {1.6, 0.3}},
        {"drop_merge<heap>", "list", "sorted", {1.6, 0.3}},
        {"drop_merge<heap>", "list", "swaps", {4.4, 5.0}},
        {"drop_merge<heap>", "vector", "displaced", {3.7, 3.8}},
        {"drop_merge<heap>", "vector", "equal", {1.6, 0.3}},
        {"drop_merge<heap>", "vector", "sorted", {1.6, 0.3}},
        {"drop_merge<heap>", "vector", "swaps", {4.0, 4.5}},
        {"drop_merge<insertion>", "list", "displaced", {3.7, 3.7}},
        {"drop_merge<insertion>", "list", "equal", {1.6, 0.3}},
        {"drop_merge<insertion>", "list", "sorted", {1.6, 0.3}},
        {"drop_merge<insertion>", "list", "swaps", {4.2, 4.3}},
        {"drop_merge<insertion>", "vector", "displaced", {3.8, 4.0}},
        {"drop_merge<insertion>", "vector", "equal", {1.6, 0.3}},
        {"drop_merge<insertion>", "vector", "sorted", {1.6, 0.3}},
        {"drop_merge<insertion>", "vector", "swaps", {4.1, 4.3}},
        {"drop_merge<out_of_place<spin>>", "list", "displaced", {3.7, 3.9}},
        {"drop_merge<out_of_place<spin>>", "list", "equal", {1.6, 0.3}},
        {"drop_merge<out_of_place<spin>>", "list", "sorted", {1.6, 0.3}},
        {"drop_merge<out_of_place<spin>>", "list", "swaps", {4.3, 4.8}},
        {"drop_merge<out_of_place<spin>>", "vector", "displaced", {3.7, 3.9}},
        {"drop_merge<out_of_place<spin>>", "vector", "equal", {1.6, 0.3}},
        {"drop_merge<out_of_place<spin>>", "vector", "sorted", {1.6, 0.3}},
        {"drop_merge<out_of_place<spin>>", "vector", "swaps", {4.3, 5.1}},
        {"insertion", "list", "displaced", {7.6, 8.8}},
        {"insertion", "list", "equal", {1.6, 0.3}},
        {"insertion", "list", "sorted", {1.6, 0.3}},
        {"insertion", "vector", "displaced", {9.0, 10.3}},
        {"insertion", "vector", "equal", {1.6, 0.3}},
        {"insertion", "vector", "sorted", {1.6, 0.3}},
        {"make_stable<slab>", "list", "encroaching", {4.3, 3.5}},
        {"make_stable<slab>", "list", "equal", {3.0, 3.0}},
        {"make_stable<slab>", "list", "reversed", {4.3, 3.0}},
        {"make_stable<slab>", "list", "sorted", {3.0, 3.0}},
        {"make_stable<slab>", "vector", "encroaching", {4.3, 3.5}},
        {"make_stable<slab>", "vector", "equal", {3.0, 3.0}},
        {"make_stable<slab>", "vector", "reversed", {4.3, 3.0}},
        {"make_stable<slab>", "vector", "sorted", {3.0, 3.0}},
        {"mel", "forward_list", "displaced", {8.8, 3.5}},
        {"mel", "forward_list", "encroaching", {2.7, 3.5}},
        {"mel", "forward_list", "equal", {1.6, 3.0}},
        {"mel", "forward_list", "mixed_runs", {11.5, 3.5}},
        {"mel", "forward_list", "reversed", {3.0, 3.0}},
        {"mel", "forward_list", "runs", {10.1, 3.5}},
        {"mel", "forward_list", "sorted", {1.6, 3.0}},
        {"mel", "forward_list", "swaps", {8.8, 3.5}},
        {"mel", "list", "displaced", {8.7, 3.5}},
        {"mel", "list", "encroaching", {2.7, 3.5}},
        {"mel", "list", "equal", {1.6, 3.0}},
        {"mel", "list", "mixed_runs", {11.4, 3.5}},
        {"mel", "list", "reversed", {3.0, 3.0}},
        {"mel", "list", "runs", {10.1, 3.5}},
        {"mel", "list", "sorted", {1.6, 3.0}},
        {"mel", "list", "swaps", {8.7, 3.5}},
        {"mel", "vector", "displaced", {8.7, 3.5}},
        {"mel", "vector", "encroaching", {2.7, 3.5}},
        {"mel", "vector", "equal", {1.6, 3.0}},
        {"mel", "vector", "mixed_runs", {11.7, 3.5}},
        {"mel", "vector", "reversed", {3.0, 3.0}},
        {"mel", "vector", "runs", {10.1, 3.5}},
        {"mel", "vector", "sorted", {1.6, 3.0}},
        {"mel", "vector", "swaps", {9.3, 3.5}},
        {"out_of_place<smooth>", "forward_list", "equal", {5.7, 3.0}},
        {"out_of_place<smooth>", "forward_list", "sorted", {5.7, 3.0}},
        {"out_of_place<smooth>", "forward_list", "swaps", {9.6, 8.2}},
        {"out_of_place<smooth>", "list", "equal", {5.7, 3.0}},
        {"out_of_place<smooth>", "list", "sorted", {5.7, 3.0}},
        {"out_of_place<smooth>", "list", "swaps", {10.0, 8.6}},
        {"out_of_place<smooth>", "vector", "equal", {5.7, 3.0}},
        {"out_of_place<smooth>", "vector", "sorted", {5.7, 3.0}},
        {"out_of_place<smooth>", "vector", "swaps", {9.5, 8.1}},
        {"out_of_place<tim>", "forward_list", "displaced", {5.8, 9.9}},
        {"out_of_place<tim>", "forward_list", "encroaching", {8.3, 42.6}},
        {"out_of_place<tim>", "forward_list", "equal", {1.6, 3.0}},
        {"out_of_place<tim>", "forward_list", "mixed_runs", {8.6, 19.9}},
        {"out_of_place<tim>", "forward_list", "reversed", {1.6, 5.0}},
        {"out_of_place<tim>", "forward_list", "runs", {8.4, 19.7}},
        {"out_of_place<tim>", "forward_list", "sorted", {1.6, 3.0}},
        {"out_of_place<tim>", "forward_list", "swaps", {6.7, 12.1}},
        {"out_of_place<tim>", "list", "displaced", {5.4, 9.8}},
        {"out_of_place<tim>", "list", "encroaching", {8.3, 42.8}},
        {"out_of_place<tim>", "list", "equal", {1.6, 3.0}},
        {"out_of_place<tim>", "list", "mixed_runs", {8.8, 19.9}},
        {"out_of_place<tim>", "list", "reversed", {1.6, 5.0}},
        {"out_of_place<tim>", "list", "runs", {8.5, 19.9}},
        {"out_of_place<tim>", "list", "sorted", {1.6, 3.0}},
        {"out_of_place<tim>", "list", "swaps", {7.0, 12.7}},
        {"out_of_place<tim>", "vector", "displaced", {5.2, 10.1}},
        {"out_of_place<tim>", "vector", "encroaching", {8.3, 42.9}},
        {"out_of_place<tim>", "vector", "equal", {1.6, 3.0}},
        {"out_of_place<tim>", "vector", "mixed_runs", {8.9, 20.5}},
        {"out_of_place<tim>", "vector", "reversed", {1.6, 5.0}},
        {"out_of_place<tim>", "vector", "runs", {9.1, 20.8}},
        {"out_of_place<tim>", "vector", "sorted", {1.6, 3.0}},
        {"out_of_place<tim>", "vector", "swaps", {7.0, 12.9}},
        {"out_of_place<verge<pdq>>", "forward_list", "displaced", {8.3, 10.5}},
        {"out_of_place<verge<pdq>>", "forward_list", "equal", {1.6, 3.0}},
        {"out_of_place<verge<pdq>>", "forward_list", "reversed", {1.6, 5.0}},
        {"out_of_place<verge<pdq>>", "forward_list", "sorted", {1.6, 3.0}},
        {"out_of_place<verge<pdq>>", "list", "displaced", {8.5, 10.4}},
        {"out_of_place<verge<pdq>>", "list", "equal", {1.6, 3.0}},
        {"out_of_place<verge<pdq>>", "list", "reversed", {1.6, 5.0}},
        {"out_of_place<verge<pdq>>", "list", "sorted", {1.6, 3.0}},
        {"out_of_place<verge<pdq>>", "vector", "displaced", {8.9, 9.9}},
        {"out_of_place<verge<pdq>>", "vector", "equal", {1.6, 3.0}},
        {"out_of_place<verge<pdq>>", "vector", "reversed", {1.6, 5.0}},
        {"out_of_place<verge<pdq>>", "vector", "sorted", {1.6, 3.0}},
        {"pdq", "vector", "equal", {3.1, 0.5}},
        {"pdq", "vector", "reversed", {4.5, 2.6}},
        {"pdq", "vector", "sorted", {10.2, 1.1}},
        {"pdq_branchless", "vector", "equal", {3.1, 0.5}},
        {"pdq_branchless", "vector", "reversed", {6.4, 4.0}},
        {"pdq_branchless", "vector", "sorted", {12.4, 1.7}},
        {"projections<wiki>", "vector", "equal", {8.8, 0.3}},
        {"projections<wiki>", "vector", "reversed", {8.3, 47.2}},
        {"projections<wiki>", "vector", "sorted", {10.8, 21.0}},
        {"quick", "forward_list", "equal", {3.1, 0.3}},
        {"quick", "list", "equal", {3.1, 0.3}},
        {"quick", "vector", "equal", {3.1, 0.3}},
        {"quick_merge", "list", "equal", {10.6, 0.4}},
        {"quick_merge", "list", "reversed", {13.1, 13.8}},
        {"quick_merge", "list", "sorted", {12.6, 0.6}},
        {"quick_merge", "vector", "equal", {12.7, 1.8}},
        {"quick_merge", "vector", "reversed", {12.4, 3.5}},
        {"quick_merge", "vector", "sorted", {12.5, 1.4}},
        {"schwartz<pdq>", "vector", "equal", {3.1, 0.5}},
        {"schwartz<pdq>", "vector", "reversed", {4.5, 2.6}},
        {"schwartz<pdq>", "vector", "sorted", {11.5, 1.3}},
        {"schwartz<pdq>_branchless", "vector", "equal", {3.1, 0.5}},
        {"schwartz<pdq>_branchless", "vector", "reversed", {6.4, 5.1}},
        {"schwartz<pdq>_branchless", "vector", "sorted", {12.4, 1.9}},
        {"schwartz<tim>", "vector", "displaced", {5.3, 9.7}},
        {"schwartz<tim>", "vector", "encroaching", {8.3, 70.6}},
        {"schwartz<tim>", "vector", "equal", {1.6, 0.3}},
        {"schwartz<tim>", "vector", "mixed_runs", {8.7, 30.5}},
        {"schwartz<tim>", "vector", "reversed", {1.6, 2.3}},
        {"schwartz<tim>", "vector", "runs", {8.6, 28.4}},
        {"schwartz<tim>", "vector", "sorted", {1.6, 0.3}},
        {"schwartz<tim>", "vector", "swaps", {7.2, 13.9}},
        {"self_sort<mel>", "forward_list", "displaced", {7.9, 3.5}},
        {"self_sort<mel>", "forward_list", "encroaching", {2.7, 3.5}},
        {"self_sort<mel>", "forward_list", "equal", {1.6, 3.0}},
        {"self_sort<mel>", "forward_list", "mixed_runs", {11.4, 3.5}},
        {"self_sort<mel>", "forward_list", "reversed", {3.0, 3.0}},
        {"self_sort<mel>", "forward_list", "runs", {10.2, 3.5}},
        {"self_sort<mel>", "forward_list", "sorted", {1.6, 3.0}},
        {"self_sort<mel>", "forward_list", "swaps", {8.8, 3.5}},
        {"self_sort<mel>", "list", "displaced", {8.3, 3.5}},
        {"self_sort<mel>", "list", "encroaching", {2.7, 3.5}},
        {"self_sort<mel>", "list", "equal", {1.6, 3.0}},
        {"self_sort<mel>", "list", "mixed_runs", {11.5, 3.5}},
        {"self_sort<mel>", "list", "reversed", {3.0, 3.0}},
        {"self_sort<mel>", "list", "runs", {10.1, 3.5}},
        {"self_sort<mel>", "list", "sorted", {1.6, 3.0}},
        {"self_sort<mel>", "list", "swaps", {9.2, 3.5}},
        {"self_sort<mel>", "vector", "displaced", {8.6, 3.5}},
        {"self_sort<mel>", "vector", "encroaching", {2.7, 3.5}},
        {"self_sort<mel>", "vector", "equal", {1.6, 3.0}},
        {"self_sort<mel>", "vector", "mixed_runs", {11.4, 3.5}},
        {"self_sort<mel>", "vector", "reversed", {3.0, 3.0}},
        {"self_sort<mel>", "vector", "runs", {10.1, 3.5}},
        {"self_sort<mel>", "vector", "sorted", {1.6, 3.0}},
        {"self_sort<mel>", "vector", "swaps", {9.3, 3.5}},
        {"slab", "list", "displaced", {9.1, 3.5}},
        {"slab", "list", "encroaching", {2.7, 3.5}},
        {"slab", "list", "equal", {1.6, 3.0}},
        {"slab", "list", "mixed_runs", {11.7, 3.5}},
        {"slab", "list", "reversed", {3.0, 3.0}},
        {"slab", "list", "runs", {10.2, 3.5}},
        {"slab", "list", "sorted", {1.6, 3.0}},
        {"slab", "list", "swaps", {9.5, 3.5}},
        {"slab", "vector", "displaced", {8.4, 3.5}},
        {"slab", "vector", "encroaching", {2.7, 3.5}},
        {"slab", "vector", "equal", {1.6, 3.0}},
        {"slab", "vector", "mixed_runs", {11.6, 3.5}},
        {"slab", "vector", "reversed", {3.0, 3.0}},
        {"slab", "vector", "runs", {10.1, 3.5}},
        {"slab", "vector", "sorted", {1.6, 3.0}},
        {"slab", "vector", "swaps", {9.1, 3.5}},
        {"smooth", "vector", "equal", {5.7, 0.3}},
        {"smooth", "vector", "sorted", {5.7, 0.3}},
        {"smooth", "vector", "swaps", {9.6, 4.9}},
        {"spin", "vector", "displaced", {10.3, 13.9}},
        {"spin", "vector", "equal", {5.0, 8.4}},
        {"spin", "vector", "sorted", {5.0, 8.4}},
        {"spin", "vector", "swaps", {11.4, 13.9}},
        {"splay", "forward_list", "displaced", {5.5, 3.5}},
        {"splay", "forward_list", "encroaching", {4.0, 3.5}},
        {"splay", "forward_list", "equal", {1.6, 3.0}},
        {"splay", "forward_list", "mixed_runs", {11.2, 3.5}},
        {"splay", "forward_list", "reversed", {1.6, 3.0}},
        {"splay", "forward_list", "sorted", {1.6, 3.0}},
        {"splay", "forward_list", "swaps", {6.1, 3.5}},
        {"splay", "list", "displaced", {5.9, 3.5}},
        {"splay", "list", "encroaching", {3.9, 3.5}},
        {"splay", "list", "equal", {1.6, 3.0}},
        {"splay", "list", "mixed_runs", {11.1, 3.5}},
        {"splay", "list", "reversed", {1.6, 3.0}},
        {"splay", "list", "sorted", {1.6, 3.0}},
        {"splay", "list", "swaps", {6.2, 3.5}},
        {"splay", "vector", "displaced", {5.5, 3.5}},
        {"splay", "vector", "encroaching", {3.9, 3.5}},
        {"splay", "vector", "equal", {1.6, 3.0}},
        {"splay", "vector", "mixed_runs", {11.5, 3.5}},
        {"splay", "vector", "reversed", {1.6, 3.0}},
        {"splay", "vector", "sorted", {1.6, 3.0}},
        {"splay", "vector", "swaps", {6.0, 3.5}},
        {"split", "vector", "equal", {3.0, 4.3}},
        {"split", "vector", "reversed", {5.9, 2.6}},
        {"split", "vector", "sorted", {3.0, 4.3}},
        {"split<poplar>", "vector", "equal", {3.0, 4.3}},
        {"split<poplar>", "vector", "sorted", {3.0, 4.3}},
        {"split<quick_merge>", "list", "equal", {3.0, 4.3}},
        {"split<quick_merge>", "list", "sorted", {3.0, 4.3}},
        {"split<quick_merge>", "vector", "equal", {3.0, 4.3}},
        {"split<quick_merge>", "vector", "sorted", {3.0, 4.3}},
        {"stable<pdq>", "vector", "equal", {5.8, 0.3}},
        {"stable<pdq>", "vector", "reversed", {7.3, 2.6}},
        {"stable<pdq>", "vector", "sorted", {5.2, 0.3}},
        {"stable<verge<heap>>", "vector", "equal", {1.6, 0.3}},
        {"stable<verge<heap>>", "vector", "reversed", {1.6, 2.3}},
        {"stable<verge<heap>>", "vector", "sorted", {1.6, 0.3}},
        {"tim", "vector", "displaced", {5.3, 7.3}},
        {"tim", "vector", "encroaching", {8.3, 39.0}},
        {"tim", "vector", "equal", {1.6, 0.3}},
        {"tim", "vector", "mixed_runs", {8.7, 17.2}},
        {"tim", "vector", "reversed", {1.6, 2.3}},
        {"tim", "vector", "runs", {9.2, 18.2}},
        {"tim", "vector", "sorted", {1.6, 0.3}},
        {"tim", "vector", "swaps", {6.8, 9.9}},
        {"verge", "list", "displaced", {9.8, 7.9}},
        {"verge", "list", "equal", {1.6, 0.3}},
        {"verge", "list", "reversed", {1.6, 2.3}},
        {"verge", "list", "sorted", {1.6, 0.3}},
        {"verge", "vector", "displaced", {8.8, 7.1}},
        {"verge", "vector", "equal", {1.6, 0.3}},
        {"verge", "vector", "reversed", {1.6, 2.3}},
        {"verge", "vector", "sorted", {1.6, 0.3}},
        {"verge<merge>", "list", "displaced", {7.3, 6.7}},
        {"verge<merge>", "list", "equal", {1.6, 0.3}},
        {"verge<merge>", "list", "reversed", {1.6, 2.3}},
        {"verge<merge>", "list", "sorted", {1.6, 0.3}},
        {"verge<merge>", "list", "swaps", {10.1, 8.9}},
        {"verge<merge>", "vector", "displaced", {6.9, 7.1}},
        {"verge<merge>", "vector", "equal", {1.6, 0.3}},
        {"verge<merge>", "vector", "reversed", {1.6, 2.3}},
        {"verge<merge>", "vector", "runs", {10.7, 11.3}},
        {"verge<merge>", "vector", "sorted", {1.6, 0.3}},
        {"verge<merge>", "vector", "swaps", {9.1, 9.3}},
        {"verge<smooth>", "vector", "displaced", {9.0, 7.0}},
        {"verge<smooth>", "vector", "equal", {1.6, 0.3}},
        {"verge<smooth>", "vector", "reversed", {1.6, 2.3}},
        {"verge<smooth>", "vector", "sorted", {1.6, 0.3}},
        {"verge_branchless", "list", "displaced", {11.5, 10.1}},
        {"verge_branchless", "list", "equal", {1.6, 0.3}},
        {"verge_branchless", "list", "reversed", {1.6, 2.3}},
        {"verge_branchless", "list", "sorted", {1.6, 0.3}},
        {"verge_branchless", "vector", "displaced", {10.1, 8.7}},
        {"verge_branchless", "vector", "equal", {1.6, 0.3}},
        {"verge_branchless", "vector", "reversed", {1.6, 2.3}},
        {"verge_branchless", "vector", "sorted", {1.6, 0.3}},
        {"wiki0", "vector", "equal", {8.7, 0.3}},
        {"wiki0", "vector", "reversed", {8.3, 44.5}},
        {"wiki0", "vector", "sorted", {11.2, 19.8}},
        {"wiki20", "vector", "displaced", {10.8, 56.1}},
        {"wiki20", "vector", "equal", {5.0, 0.3}},
        {"wiki20", "vector", "reversed", {6.6, 45.6}},
        {"wiki20", "vector", "sorted", {5.7, 14.4}},
        {"wiki512", "vector", "displaced", {10.1, 19.5}},
        {"wiki512", "vector", "equal", {3.8, 0.3}},
        {"wiki512", "vector", "reversed", {5.3, 37.1}},
        {"wiki512", "vector", "sorted", {4.2, 4.1}},
        {"wiki512", "vector", "swaps", {10.8, 26.0}},
        {"wiki_dyn_half", "vector", "displaced", {9.5, 15.9}},
        {"wiki_dyn_half", "vector", "equal", {3.8, 0.3}},
        {"wiki_dyn_half", "vector", "mixed_runs", {11.7, 34.4}},
        {"wiki_dyn_half", "vector", "reversed", {5.5, 30.5}},
        {"wiki_dyn_half", "vector", "sorted", {4.5, 4.0}},
        {"wiki_dyn_half", "vector", "swaps", {11.1, 17.3}},
        {"wiki_dyn_sqrt", "vector", "displaced", {11.3, 27.2}},
        {"wiki_dyn_sqrt", "vector", "equal", {4.7, 0.3}},
        {"wiki_dyn_sqrt", "vector", "reversed", {6.5, 42.6}},
        {"wiki_dyn_sqrt", "vector", "sorted", {5.5, 7.6}},
    };
    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where) && !std::strcmp(e.kind, kind)) return e.b;
    return {0, 0};
}
// heap bytes per element, stack bytes per log2 n
struct Space { double bytes, stack; };
inline Space space(const char* name, const char* where)
{
    static const struct { const char *name, *where; Space s; } t[] = {
        {"adaptive_shivers", "vector", {7.5, 527}},
        {"block64", "vector", {0.3, 837}},
        {"cartesian_tree", "forward_list", {70.6, 335}},
        {"cartesian_tree", "list", {70.4, 335}},
        {"cartesian_tree", "vector", {70.4, 335}},
        {"comparisons<splay>", "forward_list", {51.5, 181}},
        {"comparisons<splay>", "list", {51.5, 181}},
        {"comparisons<splay>", "vector", {51.5, 191}},
        {"container_aware<merge>", "forward_list", {0.3, 504}},
        {"container_aware<merge>", "list", {0.3, 483}},
        {"container_aware<merge>", "vector", {9.9, 581}},
        {"container_aware<selection>", "forward_list", {0.3, 111}},
        {"container_aware<selection>", "list", {0.3, 133}},
        {"container_aware<selection>", "vector", {0.3, 133}},
        {"counting<quick>", "forward_list", {0.3, 2505}},
        {"counting<quick>", "list", {0.3, 1998}},
        {"counting<quick>", "vector", {0.3, 2027}},
        {"d_ary_heap2", "vector", {0.3, 197}},
        {"d_ary_heap3", "vector", {0.3, 207}},
        {"d_ary_heap5", "vector", {0.3, 197}},
        {"d_ary_heap8", "vector", {0.3, 207}},
        {"default", "forward_list", {0.3, 2020}},
        {"default", "list", {0.3, 2420}},
        {"default", "vector", {0.3, 682}},
        {"drop_merge", "list", {37.8, 691}},
        {"drop_merge", "vector", {38.4, 717}},
        {"drop_merge<heap>", "list", {38.7, 292}},
        {"drop_merge<heap>", "vector", {37.8, 303}},
        {"drop_merge<insertion>", "list", {38.6, 207}},
        {"drop_merge<insertion>", "vector", {37.8, 217}},
        {"drop_merge<out_of_place<spin>>", "list", {45.0, 580}},
        {"drop_merge<out_of_place<spin>>", "vector", {45.1, 588}},
        {"grail", "vector", {0.3, 613}},
        {"grail16", "vector", {0.3, 623}},
        {"grail512", "vector", {0.3, 3365}},
        {"grail_dyn_half", "vector", {6.7, 645}},
        {"grail_dyn_log", "vector", {1.1, 645}},
        {"grail_dyn_sqrt", "vector", {1.9, 634}},
        {"heap", "vector", {0.3, 229}},
        {"hybrid<merge,heap>", "forward_list", {10.1, 573}},
        {"hybrid<merge,heap>", "list", {9.9, 576}},
        {"hybrid<merge,heap>", "vector", {0.3, 197}},
        {"hybrid<selection,insertion,drop_merge>", "forward_list", {0.3, 133}},
        {"hybrid<selection,insertion,drop_merge>", "list", {0.3, 133}},
        {"hybrid<selection,insertion,drop_merge>", "vector", {6.7, 711}},
        {"indirect<heap>", "forward_list", {25.9, 441}},
        {"indirect<heap>", "list", {25.9, 441}},
        {"indirect<heap>", "vector", {13.5, 303}},
        {"indirect<merge>", "forward_list", {45.1, 773}},
        {"indirect<merge>", "list", {45.1, 773}},
        {"indirect<merge>", "vector", {22.7, 648}},
        {"indirect<stable<poplar>>", "forward_list", {55.7, 879}},
        {"indirect<stable<poplar>>", "list", {55.7, 879}},
        {"indirect<stable<poplar>>", "vector", {42.9, 559}},
        {"insertion", "list", {0.3, 122}},
        {"insertion", "vector", {0.3, 122}},
        {"make_stable<slab>", "list", {115.5, 1082}},
        {"make_stable<slab>", "vector", {115.5, 1073}},
        {"mel", "forward_list", {57.9, 378}},
        {"mel", "list", {57.9, 378}},
        {"mel", "vector", {57.6, 378}},
        {"merge", "forward_list", {10.1, 578}},
        {"merge", "list", {9.9, 581}},
        {"merge", "vector", {9.9, 586}},
        {"merge_insertion", "vector", {70.7, 1327}},
        {"out_of_place<smooth>", "forward_list", {13.1, 417}},
        {"out_of_place<smooth>", "list", {13.1, 417}},
        {"out_of_place<smooth>", "vector", {13.1, 417}},
        {"out_of_place<tim>", "forward_list", {20.3, 555}},
        {"out_of_place<tim>", "list", {20.3, 555}},
        {"out_of_place<tim>", "vector", {20.3, 555}},
        {"out_of_place<verge<pdq>>", "forward_list", {20.3, 698}},
        {"out_of_place<verge<pdq>>", "list", {20.5, 758}},
        {"out_of_place<verge<pdq>>", "vector", {20.2, 695}},
        {"pdq", "vector", {0.3, 741}},
        {"poplar", "vector", {4.5, 346}},
        {"projections<wiki>", "vector", {0.3, 597}},
        {"quick", "forward_list", {0.3, 2020}},
        {"quick", "list", {0.3, 2420}},
        {"quick", "vector", {0.3, 2180}},
        {"quick_merge", "forward_list", {0.3, 544}},
        {"quick_merge", "list", {0.3, 583}},
        {"quick_merge", "vector", {0.3, 470}},
        {"schwartz<indirect<merge>>", "forward_list", {48.3, 644}},
        {"schwartz<indirect<merge>>", "list", {48.3, 644}},
        {"schwartz<indirect<merge>>", "vector", {48.3, 654}},
        {"schwartz<merge>", "forward_list", {40.3, 556}},
        {"schwartz<merge>", "list", {40.3, 556}},
        {"schwartz<merge>", "vector", {40.3, 552}},
        {"schwartz<pdq>", "vector", {25.9, 632}},
        {"schwartz<tim>", "vector", {36.3, 569}},
        {"selection", "forward_list", {0.3, 122}},
        {"selection", "list", {0.3, 122}},
        {"selection", "vector", {0.3, 122}},
        {"self_sort<mel>", "forward_list", {57.9, 367}},
        {"self_sort<mel>", "list", {57.9, 367}},
        {"self_sort<mel>", "vector", {57.6, 367}},
        {"slab", "list", {64.3, 1041}},
        {"slab", "vector", {64.3, 981}},
        {"smooth", "vector", {0.3, 293}},
        {"spin", "vector", {7.4, 488}},
        {"splay", "forward_list", {51.5, 186}},
        {"splay", "list", {51.5, 186}},
        {"splay", "vector", {51.5, 186}},
        {"split", "vector", {6.7, 724}},
        {"split<poplar>", "vector", {6.7, 463}},
        {"split<quick_merge>", "list", {6.7, 452}},
        {"split<quick_merge>", "vector", {6.7, 516}},
        {"stable<pdq>", "vector", {25.9, 1298}},
        {"stable<quick>", "forward_list", {25.9, 2466}},
        {"stable<quick>", "list", {25.9, 2469}},
        {"stable<quick>", "vector", {25.9, 2438}},
        {"stable<verge<heap>>", "vector", {25.9, 495}},
        {"std", "vector", {0.3, 1487}},
        {"tim", "vector", {7.5, 538}},
        {"verge", "list", {7.4, 666}},
        {"verge", "vector", {7.5, 746}},
        {"verge<merge>", "list", {9.9, 643}},
        {"verge<merge>", "vector", {9.9, 655}},
        {"verge<smooth>", "vector", {7.4, 442}},
        {"wiki0", "vector", {0.3, 517}},
        {"wiki20", "vector", {0.3, 559}},
        {"wiki512", "vector", {0.3, 3205}},
        {"wiki_dyn_half", "vector", {6.7, 581}},
        {"wiki_dyn_sqrt", "vector", {1.9, 596}},
    };
    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where)) return e.s;
    return {0, 0};
}
}
#endif
