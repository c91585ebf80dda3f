// The comparison sorters of the library, with their documented guarantees.
#ifndef SORTERS_H_
#define SORTERS_H_

#include <iterator>
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/utility/functional.h>

#ifndef PART
#   define PART 0
#   define NPARTS 1
#endif

namespace su = cppsort::utility;
using fwd_tag = std::forward_iterator_tag;
using bi_tag = std::bidirectional_iterator_tag;
using ra_tag = std::random_access_iterator_tag;

#ifdef BRANCHLESS
// the sorters with a dedicated algorithm for the comparisons and projections marked as branchless
#define COMPARISON_SORTERS(X) \
    X("pdq_branchless", cppsort::pdq_sorter, ra_tag, false, false) \
    X("verge_branchless", cppsort::verge_sorter, bi_tag, false, false)
#define BUFFERED_SORTERS(X)
#define ADAPTED_SORTERS(X) \
    X("schwartz<pdq>_branchless", ra_tag, false, cppsort::schwartz_adapter<cppsort::pdq_sorter>) \
    X("comparisons<pdq>_branchless", ra_tag, false, cppsort::metrics::comparisons<cppsort::pdq_sorter>)
#else
// X(name, type, documented iterator category, always stable, quadratic)
// sorters that only need movable elements
#define COMPARISON_SORTERS(X) \
    X("adaptive_shivers", cppsort::adaptive_shivers_sorter, ra_tag, true, false) \
    X("cartesian_tree", cppsort::cartesian_tree_sorter, fwd_tag, false, false) \
    X("d_ary_heap2", cppsort::d_ary_heap_sorter<2>, ra_tag, false, false) \
    X("d_ary_heap3", cppsort::d_ary_heap_sorter<3>, ra_tag, false, false) \
    X("d_ary_heap5", cppsort::d_ary_heap_sorter<5>, ra_tag, false, false) \
    X("d_ary_heap8", cppsort::d_ary_heap_sorter<8>, ra_tag, false, false) \
    X("default", cppsort::default_sorter, fwd_tag, false, false) \
    X("drop_merge", cppsort::drop_merge_sorter, bi_tag, false, false) \
    X("grail", cppsort::grail_sorter<>, ra_tag, true, false) \
    X("heap", cppsort::heap_sorter, ra_tag, false, false) \
    X("insertion", cppsort::insertion_sorter, bi_tag, true, true) \
    X("mel", cppsort::mel_sorter, fwd_tag, false, false) \
    X("merge_insertion", cppsort::merge_insertion_sorter, ra_tag, false, false) \
    X("merge", cppsort::merge_sorter, fwd_tag, true, false) \
    X("pdq", cppsort::pdq_sorter, ra_tag, false, false) \
    X("poplar", cppsort::poplar_sorter, ra_tag, false, false) \
    X("quick_merge", cppsort::quick_merge_sorter, fwd_tag, false, false) \
    X("quick", cppsort::quick_sorter, fwd_tag, false, false) \
    X("selection", cppsort::selection_sorter, fwd_tag, false, true) \
    X("slab", cppsort::slab_sorter, bi_tag, false, false) \
    X("smooth", cppsort::smooth_sorter, ra_tag, false, false) \
    X("spin", cppsort::spin_sorter, ra_tag, true, false) \
    X("splay", cppsort::splay_sorter, fwd_tag, true, false) \
    X("split", cppsort::split_sorter, ra_tag, false, false) \
    X("std", cppsort::std_sorter, ra_tag, false, false) \
    X("tim", cppsort::tim_sorter, ra_tag, true, false) \
    X("verge", cppsort::verge_sorter, bi_tag, false, false) \
    X("wiki0", cppsort::wiki_sorter<su::fixed_buffer<0>>, ra_tag, true, false)

// buffered variants that need default-constructible elements
#define BUFFERED_SORTERS(X) \
    X("wiki512", cppsort::wiki_sorter<>, ra_tag, true, false) \
    X("wiki20", cppsort::wiki_sorter<su::fixed_buffer<20>>, ra_tag, true, false) \
    X("wiki_dyn_half", cppsort::wiki_sorter<su::dynamic_buffer<su::half>>, ra_tag, true, false) \
    X("wiki_dyn_sqrt", cppsort::wiki_sorter<su::dynamic_buffer<su::sqrt>>, ra_tag, true, false) \
    X("block64", cppsort::block_sorter<su::fixed_buffer<64>>, ra_tag, true, false) \
    X("grail16", cppsort::grail_sorter<su::fixed_buffer<16>>, ra_tag, true, false) \
    X("grail512", cppsort::grail_sorter<su::fixed_buffer<512>>, ra_tag, true, false) \
    X("grail_dyn_half", cppsort::grail_sorter<su::dynamic_buffer<su::half>>, ra_tag, true, false) \
    X("grail_dyn_sqrt", cppsort::grail_sorter<su::dynamic_buffer<su::sqrt>>, ra_tag, true, false) \
    X("grail_dyn_log", cppsort::grail_sorter<su::dynamic_buffer<su::log>>, ra_tag, true, false)

// Adapters and stacks of adapters: weakest iterator category they take, stability
// X(name, category, stable, type...)
#define ADAPTED_SORTERS(X) \
    X("stable<pdq>", ra_tag, true, cppsort::stable_adapter<cppsort::pdq_sorter>) \
    X("stable<quick>", fwd_tag, true, cppsort::stable_adapter<cppsort::quick_sorter>) \
    X("make_stable<slab>", bi_tag, true, cppsort::make_stable<cppsort::slab_sorter>) \
    X("stable<verge<heap>>", ra_tag, true, cppsort::stable_adapter<cppsort::verge_adapter<cppsort::heap_sorter>>) \
    X("verge<smooth>", ra_tag, false, cppsort::verge_adapter<cppsort::smooth_sorter>) \
    X("verge<merge>", bi_tag, false, cppsort::verge_adapter<cppsort::merge_sorter>) \
    X("drop_merge<heap>", bi_tag, false, cppsort::drop_merge_adapter<cppsort::heap_sorter>) \
    X("drop_merge<insertion>", bi_tag, false, cppsort::drop_merge_adapter<cppsort::insertion_sorter>) \
    X("split<poplar>", ra_tag, false, cppsort::split_adapter<cppsort::poplar_sorter>) \
    X("split<quick_merge>", bi_tag, false, cppsort::split_adapter<cppsort::quick_merge_sorter>) \
    X("indirect<heap>", fwd_tag, false, cppsort::indirect_adapter<cppsort::heap_sorter>) \
    X("indirect<merge>", fwd_tag, true, cppsort::indirect_adapter<cppsort::merge_sorter>) \
    X("out_of_place<smooth>", fwd_tag, false, cppsort::out_of_place_adapter<cppsort::smooth_sorter>) \
    X("out_of_place<tim>", fwd_tag, true, cppsort::out_of_place_adapter<cppsort::tim_sorter>) \
    X("schwartz<merge>", fwd_tag, true, cppsort::schwartz_adapter<cppsort::merge_sorter>) \
    X("schwartz<pdq>", ra_tag, false, cppsort::schwartz_adapter<cppsort::pdq_sorter>) \
    X("schwartz<tim>", ra_tag, true, cppsort::schwartz_adapter<cppsort::tim_sorter>) \
    X("counting<quick>", fwd_tag, false, cppsort::counting_adapter<cppsort::quick_sorter>) \
    X("hybrid<merge,heap>", fwd_tag, false, cppsort::hybrid_adapter<cppsort::merge_sorter, cppsort::heap_sorter>) \
    X("hybrid<selection,insertion,drop_merge>", fwd_tag, false, cppsort::hybrid_adapter<cppsort::selection_sorter, cppsort::insertion_sorter, cppsort::split_sorter>) \
    X("self_sort<mel>", fwd_tag, false, cppsort::self_sort_adapter<cppsort::mel_sorter>) \
    X("container_aware<selection>", fwd_tag, false, cppsort::container_aware_adapter<cppsort::selection_sorter>) \
    X("container_aware<merge>", fwd_tag, true, cppsort::container_aware_adapter<cppsort::merge_sorter>) \
    X("indirect<stable<poplar>>", fwd_tag, true, cppsort::indirect_adapter<cppsort::stable_adapter<cppsort::poplar_sorter>>) \
    X("schwartz<indirect<merge>>", fwd_tag, true, cppsort::schwartz_adapter<cppsort::indirect_adapter<cppsort::merge_sorter>>) \
    X("out_of_place<verge<pdq>>", fwd_tag, false, cppsort::out_of_place_adapter<cppsort::verge_adapter<cppsort::pdq_sorter>>) \
    X("drop_merge<out_of_place<spin>>", bi_tag, false, cppsort::drop_merge_adapter<cppsort::out_of_place_adapter<cppsort::spin_sorter>>) \
    X("comparisons<splay>", fwd_tag, true, cppsort::metrics::comparisons<cppsort::splay_sorter>) \
    X("projections<wiki>", ra_tag, true, cppsort::metrics::projections<cppsort::wiki_sorter<su::fixed_buffer<0>>>)

#endif // BRANCHLESS

#endif
