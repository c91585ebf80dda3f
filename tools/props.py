"""Single source of properties.jsonl and of the texts in MANIFEST.json (see tools/gen.py)."""
I = "include/cpp-sort/"
P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe):
    P[pid] = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f if not f.startswith("docs/") else f for f in files],
            "mechanism": [{"name": n, "where": w if w.startswith("docs/") else I + w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    }


prop("C01", "Every comparison sorter yields a sorted permutation",
     "Calling any comparison sorter of the library on any range, with any strict weak ordering and any projection, "
     "leaves in that range exactly the elements it held before, ordered so that no projected element compares less "
     "than its predecessor. Nothing outside of the range is read or written.",
     ["inputs", "configurations"],
     "all sequences (any length, value distribution, duplicates), all strict weak orders, projections, element types, "
     "containers and buffer policies, for all comparison sorters",
     "The suite runs each sorter on a handful of fixed sizes (mostly 35 to 491) and about ten patterns; the block "
     "merging, galloping, pivot fallback and small-size branches depend on sizes, duplicates and run layouts it never forms.",
     ["sorters", "detail", "adapters/drop_merge_adapter.h", "adapters/split_adapter.h", "adapters/verge_adapter.h"],
     [("pattern-defeating quicksort partitioning and fallbacks", "detail/pdqsort.h"),
      ("block merge with in-place buffers", "detail/wiki_sort.h, detail/grail_sort.h"),
      ("galloping merges", "detail/timsort.h"),
      ("merging with whatever buffer is available", "detail/inplace_merge.h, detail/recmerge_forward.h"),
      ("heaps, trees and slabs", "detail/smoothsort.h, detail/poplar_sort.h, detail/splaysort.h, detail/slabsort.h, detail/melsort.h")],
     ["contents of the range after the call", "elements next to the range"])

prop("C02", "Stable sorters and adapters never reorder equivalent elements",
     "Every sorter documented as stable or advertised as stable by the library's stability traits, every sorter "
     "wrapped to be made stable, and every combination of adapters that advertises stability keeps equivalent "
     "elements in their original relative order. Stability traits never claim stability for a call that may reorder equivalent elements.",
     ["inputs", "configurations"],
     "all sequences with equivalent elements, orders and projections, for every stable sorter, stable wrapper and "
     "adapter combination advertising stability",
     "Stability is tested on a few shuffled sequences of one size; instabilities hide in rarely taken merge, run-reversal and buffer branches.",
     ["adapters/stable_adapter.h", "sorter_traits.h", "sorters", "detail", "stable_sort.h"],
     [("comparison of (key, original position) pairs", "adapters/stable_adapter.h"),
      ("is_stable and is_always_stable traits", "sorter_traits.h"),
      ("strictly descending run detection", "detail/timsort.h, detail/vergesort.h, detail/boost_common/util/insert.h"),
      ("stable partition in the stable run-adaptive merge", "detail/stable_partition.h")],
     ["(key, original index) sequence after the call", "trait values"])

prop("C03", "Sorters only need the iterator category and operations they document",
     "A sorter accepts any range whose iterators satisfy its documented iterator category, and nothing stronger: it never "
     "dereferences outside of the range, never moves an iterator out of it, and never needs post-increment, a "
     "default-constructible or copyable element, or a difference type larger than what the range requires.",
     ["inputs", "configurations"],
     "all sequences, on checked iterators of the weakest documented category, with wide and narrow difference types",
     "The suite checks categories at compile time and sizes near a few constants; one-past-the-end reads and out-of-range "
     "iterator arithmetic depend on run layouts and are invisible on a vector.",
     ["sorters", "adapters", "detail", "sorter_facade.h"],
     [("category dispatch", "sorter_traits.h, adapters/hybrid_adapter.h"),
      ("forward and bidirectional variants of the algorithms", "detail/inplace_merge.h, detail/quicksort.h, detail/vergesort.h")],
     ["iterator operations performed", "result of the call"])

prop("C04", "Element lifetimes are respected: no loss, duplicate, leak or double destruction",
     "While sorting, no element is read or moved from after it was moved from, destroyed or before it was constructed, no live "
     "element is overwritten without having been moved elsewhere, and every temporary element is destroyed exactly once. After the call the "
     "number of live elements and allocated bytes is what it was before. The same holds of the copies of iterators, comparisons and projections made by "
     "the sorters, which are not used once moved from, even when an exception stops the call.",
     ["inputs", "configurations"],
     "all sequences of tracked non-trivial elements (move-only, self-referencing, allocating), for all sorters, fixed-size sorters and adapters",
     "The move-only test wraps a few fixed-size runs; a wrong hole, buffer length or destruction count only shows on particular merges and sizes.",
     ["detail", "adapters", "utility/buffer.h", "utility/adapter_storage.h"],
     [("guarded temporary buffers", "detail/memory.h, detail/immovable_vector.h, detail/fixed_size_list.h"),
      ("moves through buffers", "detail/merge_move.h, detail/boost_common/util/merge.h")],
     ["element constructor, assignment and destructor history", "live element and allocation counts"])

prop("C05", "Exceptions from user code leave all elements valid and present",
     "When a comparison, a projection or an element move throws at any point of a sort, the exception reaches the caller, "
     "every element of the range is still alive and destroyed exactly once, nothing leaks, and the range can be sorted again successfully if it "
     "is refilled. When only comparisons or projections throw, sorting through indirection leaves the range exactly as it was.",
     ["fault_sequences", "inputs"],
     "every index of the comparison, projection or move that throws, on all sequences, for all sorters and adapters",
     "The suite injects throwing moves at one random point of one size; each sorter has hundreds of distinct interruption points.",
     ["detail", "adapters/indirect_adapter.h", "adapters/schwartz_adapter.h", "adapters/stable_adapter.h"],
     [("scope guards and destruct_n deleters", "detail/memory.h, detail/scope_exit.h"),
      ("lists of buffered elements", "detail/fixed_size_list.h, detail/immovable_vector.h"),
      ("cleanup after failure", "detail/drop_merge_sort.h, detail/slabsort.h, detail/splaysort.h")],
     ["state of every element after the exception", "live elements and allocations", "exception identity"])

prop("C06", "Memory exhaustion never corrupts, leaks or goes unreported",
     "When any memory allocation made during a sort or a presortedness measurement fails, either the call completes with the correct result (always the case for the algorithms "
     "documented to run without extra memory) or it reports std::bad_alloc; in both cases every element of the range is still a valid object, the range can be refilled and sorted "
     "again, and nothing leaks. Algorithms documented as not throwing std::bad_alloc never do.",
     ["fault_sequences", "inputs"],
     "every subset of failing allocations of the form: k-th only, all from the k-th, all above a size, random subsets; on all sequences",
     "The memory exhaustion tests exhaust the heap completely on one size; partially available memory selects the intermediate algorithms.",
     ["detail/memory.h", "detail/inplace_merge.h", "detail/merge_sort.h", "detail/stable_partition.h", "sorters", "probes"],
     [("temporary buffers that may be smaller than requested", "detail/memory.h"),
      ("bufferless fallbacks", "detail/recmerge_forward.h, detail/recmerge_bidirectional.h, detail/symmerge.h, detail/stable_partition.h")],
     ["exception identity", "contents of the range", "live elements and allocated blocks"])

prop("C07", "Worst-case complexity guarantees hold for every input",
     "The number of comparisons, moves and projections of a sorter never exceeds a fixed multiple of its documented worst case "
     "for any input, adversarial ones included.",
     ["inputs"],
     "all sequences including structured adversaries and antagonistic comparators deciding lazily against the algorithm",
     "No test counts operations on adversarial inputs; a quadratic regression keeps every functional test green.",
     ["detail", "sorters", "docs/Sorters.md"],
     [("introspective limits", "detail/pdqsort.h, detail/introselect.h, detail/quick_merge_sort.h"),
      ("median of medians fallback", "detail/quicksort.h, detail/introselect.h"),
      ("balanced merges", "detail/timsort.h, detail/vergesort.h, detail/merge_sort.h"),
      ("depth limits and fallbacks", "detail/drop_merge_sort.h, detail/slabsort.h, detail/melsort.h")],
     ["number of comparisons, projections and moves"])

prop("C08", "Adaptive sorters stay adaptive to presortedness",
     "Sorters documented with a linear best case sort sequences that are already sorted - and the other best cases documented for them - with a number of "
     "comparisons and moves linear in the size, and inputs with little disorder according to the measure they adapt to cost close to linear work. "
     "The bound does not depend on the values.",
     ["inputs"],
     "all sizes of sorted, all-equal, reverse-sorted or nearly sorted sequences for which a best case is documented",
     "No test counts operations; losing adaptivity changes nothing visible in results.",
     ["detail", "sorters", "docs/Sorters.md"],
     [("run detection", "detail/timsort.h, detail/vergesort.h, detail/wiki_sort.h, detail/boost_common/util/insert.h"),
      ("early exits on sorted input", "detail/pdqsort.h, detail/quicksort.h, detail/quick_merge_sort.h"),
      ("dropping out-of-place elements", "detail/drop_merge_sort.h, detail/split_sort.h")],
     ["number of comparisons and moves"])

prop("C09", "Auxiliary memory stays within the documented bounds",
     "Sorters documented as O(1) or in-place never allocate from the heap, and the others never have more auxiliary memory allocated at once than a fixed multiple of "
     "their documented amount, for any input. Buffers given to buffered sorters bound the memory they use.",
     ["inputs", "configurations"],
     "all sequences and sizes, for every sorter and buffer policy",
     "Only bad_alloc behaviour is tested; growth of auxiliary memory is invisible to functional tests.",
     ["detail/memory.h", "utility/buffer.h", "detail", "sorters", "docs/Sorters.md"],
     [("buffer policies", "utility/buffer.h"), ("temporary buffers", "detail/memory.h"),
      ("node pools", "detail/fixed_size_list.h, detail/immovable_vector.h")],
     ["bytes allocated at once", "allocation count"])

prop("C10", "The radix sorters (ska) agree with comparison sorting on all supported keys",
     "The ska radix sorter sorts any range whose projected keys are supported integers, booleans, characters, floating point numbers, strings, "
     "tuples, pairs or index-able sequences of them, into the permutation a comparison sort with the natural order of the keys yields.",
     ["inputs", "configurations"],
     "all key types (including nested tuples and string-like sequences, negative, extreme and repeated values), sizes and projections",
     "The suite samples one shuffled range per key type; the byte-wise recursion depends on counts per bucket, thresholds at 128 and 1024 elements and common prefixes.",
     ["sorters/ska_sorter.h", "detail/ska_sort.h"],
     [("order-preserving key transforms", "detail/ska_sort.h"), ("American flag and ska byte passes", "detail/ska_sort.h"),
      ("fallback to a comparison sort for small partitions", "detail/ska_sort.h")],
     ["contents of the range after the call"])

prop("C11", "The spread sorters agree with comparison sorting on all supported keys",
     "The integer, float and string spread sorters and the one grouping them sort any range whose projected keys they support, ascending or descending where "
     "documented, into the permutation a comparison sort yields.",
     ["inputs", "configurations"],
     "all integer widths and signs, finite and infinite floating point values, narrow and wide strings with arbitrary bytes and shared prefixes, sizes, projections",
     "The suite samples a few random ranges; bin computation, minimal sort sizes and prefix skipping depend on value ranges and sizes never formed.",
     ["sorters/spread_sorter", "detail/spreadsort"],
     [("range-based binning", "detail/spreadsort/detail/integer_sort.h"), ("float to integer casts", "detail/spreadsort/detail/float_sort.h"),
      ("common prefix skipping", "detail/spreadsort/detail/string_sort.h")],
     ["contents of the range after the call"])

prop("C12", "Counting sorter sorts all integer ranges, in either direction",
     "The counting sorter turns any range of integers into the ascending (or, with a greater comparison, descending) sequence of the same multiset, whatever "
     "the minimum and maximum, for every integer type.",
     ["inputs", "configurations"],
     "all integer types and value ranges (within available memory), sequences, directions and iterator categories",
     "One test with a fixed range of positive and negative values; extremes, sign handling and sizes are unsampled.",
     ["sorters/counting_sorter.h", "detail/counting_sort.h"],
     [("histogram relative to the minimum", "detail/counting_sort.h"), ("sortedness shortcut", "detail/minmax_element_and_is_sorted.h")],
     ["contents of the range after the call"])

prop("C13", "Aggregating adapters dispatch as documented and forward results",
     "The aggregate of several sorters always calls the sorter documented for the iterator category, arguments and element types at hand, nested aggregates "
     "behaving as if flattened; the self-sorting adapter calls the container's own sort when there is one accepting the arguments and the wrapped sorter otherwise. Whatever "
     "adapters are stacked, the wrapped sorter's result is returned and its state is used.",
     ["configurations", "inputs"],
     "all combinations of sorters with different categories and call constraints, nested aggregates, containers and call forms",
     "The suite checks a few hand-written combinations.",
     ["adapters/hybrid_adapter.h", "adapters/self_sort_adapter.h", "sorter_traits.h", "utility/adapter_storage.h"],
     [("category-ranked overloads", "adapters/hybrid_adapter.h"), ("member sort detection", "adapters/self_sort_adapter.h"),
      ("sorter storage", "utility/adapter_storage.h")],
     ["which sorter was called", "value returned"])

prop("C14", "Sorter adapters preserve sorting and keep their specific promises",
     "Any adapter applied to any compatible sorter still turns every range into a sorted permutation. The specific promises hold for all inputs: indirect sorting "
     "moves elements at most 3n/2 times, Schwartzian sorting projects each element once, small-array sorting picks the fixed-size sorter for covered sizes, "
     "counting returns the exact number of comparisons.",
     ["inputs", "configurations"],
     "all sequences, orders and projections for every documented adapter and sorter pairing, stacks of adapters included",
     "Each pairing is tested on one shuffled range; cycles in permutations, dropped elements and run layouts vary with the input.",
     ["adapters", "detail/indiesort.h", "detail/drop_merge_sort.h", "detail/split_sort.h", "detail/vergesort.h", "detail/schwartz_small_array.h"],
     [("cycle-leader permutation of iterators", "adapters/indirect_adapter.h, detail/indiesort.h"),
      ("decorated elements", "adapters/schwartz_adapter.h, utility/adapter_storage.h, detail/associate_iterator.h"),
      ("out-of-place storage", "adapters/out_of_place_adapter.h")],
     ["contents of the range", "number of moves and projections", "reported comparisons"])

prop("C15", "Container-aware sorting relinks lists correctly and keeps iterators valid",
     "Sorting a list or forward list through the container-aware adapter yields the same stable or unstable guarantees as on ranges, keeps the same nodes (no element is moved, copied, "
     "destroyed), and leaves the container structurally valid with the same size. If user code throws, the container keeps all of its elements.",
     ["inputs", "fault_sequences", "configurations"],
     "all list contents, orders, projections and throwing points for the list algorithms provided",
     "One shuffled list per sorter is tested.",
     ["detail/container_aware", "adapters/container_aware_adapter.h"],
     [("splice-based insertion, merge, mel and selection sorts", "detail/container_aware/merge_sort.h, detail/container_aware/insertion_sort.h, detail/container_aware/mel_sort.h, detail/container_aware/selection_sort.h")],
     ["order and addresses of nodes", "list links and size"])

prop("C16", "Fixed-size sorters sort every input of their size within documented costs",
     "Every documented fixed-size sorter of size N sorts every sequence of N elements for any order and projection, within its documented number of "
     "comparisons or moves, in every element type. Stability advertised for a fixed-size sorter holds.",
     ["inputs", "configurations"],
     "every 0-1 sequence and every permutation up to a size, random ones beyond, for every size of every fixed-size sorter",
     "Tests run one shuffled array per size; a wrong comparator pair can leave nearly all inputs sorted.",
     ["fixed", "detail/sorting_network", "detail/low_comparisons", "detail/low_moves", "utility/sorting_networks.h"],
     [("unrolled networks", "detail/sorting_network"), ("decision trees", "detail/low_comparisons, detail/low_moves"),
      ("generated networks", "fixed/odd_even_merge_network_sorter.h, fixed/merge_exchange_network_sorter.h")],
     ["array after the call", "number of comparisons and moves"])

prop("C17", "Published sorting networks are valid, equivalent and as small as documented",
     "The index pairs published for every network size sort every input when applied as compare-exchanges, with the documented number of "
     "compare-exchanges and in-range indices, and the utilities applying pairs give the same result as the sorter.",
     ["inputs", "configurations"],
     "every 0-1 input for small sizes, all 0-1 inputs with random and structured patterns for larger sizes, for all networks",
     "Tests sample random arrays; the 0-1 principle needs every 0-1 input.",
     ["utility/sorting_networks.h", "fixed", "detail/sorting_network"],
     [("index pair tables", "detail/sorting_network"), ("swap_index_pairs", "utility/sorting_networks.h")],
     ["index pair values", "array after application"])

prop("C18", "Measures of presortedness return their mathematical value",
     "Every measure of presortedness returns, for any sequence, order and projection, exactly the value of its documented definition, on the weakest documented iterator category.",
     ["inputs", "configurations"],
     "all sequences with and without duplicates, orders, projections and iterator categories, against direct reference computations",
     "Tests check a few hand-computed sequences; the efficient algorithms differ from definitions in ties, plateaus and merges.",
     ["probes", "detail/count_inversions.h", "detail/longest_non_descending_subsequence.h", "detail/is_p_sorted.h"],
     [("merge-based inversion counting", "detail/count_inversions.h"), ("patience-like subsequence search", "detail/longest_non_descending_subsequence.h"),
      ("cycle counting", "probes/exc.h")],
     ["returned value"])

prop("C19", "Measures of presortedness satisfy their axioms and never modify the input",
     "Every measure is 0 on sorted input, never exceeds the maximum it advertises for a size (which some input reaches), only depends on relative order, "
     "respects the documented partial order and bounds relating measures, and leaves the sequence unmodified.",
     ["inputs"],
     "all sequences; all permutations of small sizes for tightness of the maxima",
     "Relations are checked on a few shuffled sequences; extremes need exhaustive enumeration.",
     ["probes", "docs/Measures-of-presortedness.md"],
     [("max_for_size", "probes"), ("read-only algorithms on iterators", "probes")],
     ["returned values", "sequence after the call"])

prop("C20", "Total, weak and partial orders are lawful on every value",
     "The total, weak and partial comparators are strict weak orderings (total: IEEE totalOrder for floating point, all NaNs of a sign being equivalent) over all values of each supported type, NaNs of all signs and payloads, "
     "signed zeros and infinities included, and each is consistent with the built-in order where that is defined; greater is the mirror of less.",
     ["inputs"],
     "all pairs and triples of bit patterns of float, double and long double and of integers, enumerations of special values included",
     "Tests sort one list of special values; lawfulness ranges over triples of bit patterns.",
     ["comparators/total_less.h", "comparators/total_greater.h", "comparators/weak_less.h", "comparators/weak_greater.h", "comparators/partial_less.h", "comparators/partial_greater.h", "detail/floating_point_weight.h", "detail/three_way_compare.h"],
     [("floating point classes and weights", "detail/floating_point_weight.h"), ("sign and bit based ordering", "comparators/total_less.h")],
     ["comparison results"])

prop("C21", "Natural and case-insensitive orders are lawful and match their definition",
     "Natural order compares maximal digit runs by numeric value and other characters by value, case-insensitive order compares characters after lower-casing; both "
     "are strict weak orders on all sequences of characters and depend only on the compared sequences.",
     ["inputs", "configurations"],
     "all pairs and triples of strings (all bytes, digits, leading zeros, prefixes, empty), string-like types, and locales for case-insensitive order",
     "Tests sort a few names; equal-length digit runs, zeros and prefixes never meet.",
     ["comparators/natural_less.h", "comparators/case_insensitive_less.h"],
     [("digit run parsing", "comparators/natural_less.h"), ("lexicographic comparison of lower-cased characters", "comparators/case_insensitive_less.h")],
     ["comparison results"])

prop("C22", "Comparator combinators satisfy their algebra",
     "Flipping swaps arguments, negation negates, flipping or negating twice returns an equivalent or the original function, flips and negations "
     "pass through each other and through projections, and a projected comparator compares projections, for any arguments.",
     ["inputs", "configurations"],
     "all argument pairs for library, standard and user function objects, states and value categories",
     "Tests check a couple of int pairs.",
     ["comparators/flip.h", "comparators/not_fn.h", "comparators/projection_compare.h"],
     [("type-level simplifications", "comparators/flip.h, comparators/not_fn.h"), ("argument forwarding", "comparators/projection_compare.h")],
     ["result of the composed function"])

prop("C23", "All call forms of a sorter are equivalent",
     "For every sorter and adapter, calling with a range or a pair of iterators, with or without comparison and projection (a single function of either role recognised as such), with lvalue, "
     "temporary-view or array arguments, and through the generic sort functions gives the same ordering and return value.",
     ["inputs", "configurations"],
     "all call forms, sequences, comparison and projection kinds for every sorter",
     "Tests compare few call forms for few sorters on one sequence.",
     ["sorter_facade.h", "sort.h", "stable_sort.h", "refined.h"],
     [("facade overload set", "sorter_facade.h"), ("refined functions", "refined.h")],
     ["contents of the range", "value returned"])

prop("C24", "Metrics report exactly the operations performed",
     "The metrics adapters return exactly the number of comparisons, moves or projections that the wrapped sorter performed, leave the range sorted as the wrapped sorter would, and compose; "
     "metric values and tags behave as the arithmetic values they wrap.",
     ["inputs", "configurations"],
     "all sequences, for every sorter, metric and call form, against independent counters",
     "Tests check exact counts for two sorters on one sequence.",
     ["metrics", "utility/metrics_tools.h", "adapters/counting_adapter.h", "detail/comparison_counter.h"],
     [("instrumented comparison and projection", "metrics/comparisons.h, metrics/projections.h"), ("instrumented elements", "metrics/moves.h"),
      ("metric wrappers", "utility/metrics_tools.h")],
     ["value returned", "independently counted operations"])

prop("C25", "Sorted indices, sorted iterators and permutations are exact",
     "For any sorter, sequence, comparison and projection, sorted_indices and sorted_iterators return the positions of all the elements in sorted order (in stable order when the sorter is "
     "stable), called on the sorter they were given, without moving or modifying any element; apply_permutation puts in each position the element which its index designates, for any permutation, "
     "index type and movable element, so that applying sorted_indices sorts the sequence.",
     ["inputs", "configurations"],
     "all sequences and permutations, for all sorters, orders, projections, iterator categories, element and index types",
     "Tests use one or two sequences for each utility.",
     ["utility/apply_permutation.h", "utility/sorted_indices.h", "utility/sorted_iterators.h"],
     [("cycle-based permutation application", "utility/apply_permutation.h"), ("indirect orders", "utility/sorted_indices.h, utility/sorted_iterators.h")],
     ["returned indices and iterators", "contents of the range"])

prop("C26", "Proxy iterators with customised move and swap are sorted correctly",
     "Sorters documented to support customised moves and swaps only exchange elements through these customisation points, so ranges behind proxy iterators are sorted "
     "consistently, all underlying columns included.",
     ["inputs", "configurations"],
     "all sequences behind iterators whose reference is a proxy or whose move and swap are customised, for all sorters supporting it",
     "One test on one sequence, of a few sizes.",
     ["utility/iter_move.h", "detail", "detail/associate_iterator.h"],
     [("iter_move and iter_swap customisation points", "utility/iter_move.h")],
     ["columns behind the proxy after the call", "customisation point calls"])

prop("C27", "Any callable form of comparison and projection gives the same result",
     "Comparisons and projections may be function pointers, member pointers, stateful or mutable function objects, take their parameters by value or (non-const, for comparisons) reference and return values, references or anything convertible to bool: the "
     "sorter compiles, uses the given object's behaviour and yields the same sorted order.",
     ["configurations", "inputs"],
     "all callable forms for every sorter, fixed-size sorter, adapter and probe, over all sequences",
     "Tests compile a few forms and run one sequence of one size, without checking the values produced.",
     ["utility/as_function.h", "detail", "sorters"],
     [("conversion to function objects", "utility/as_function.h")],
     ["contents of the range", "compilation"])

prop("C28", "Function objects, buffers and small tools match their specification",
     "Projections composed with | apply one after the other, keep references, value categories, state and transparency; as_projection and as_comparison expose exactly one overload with the "
     "behaviour of the wrapped callable; identity, indirect, half, log, sqrt, as_function and function_constant return their documented values; buffers have the size asked by their policy and store "
     "elements faithfully; adapter_storage holds and calls the given object; size and make_integer_range match what iterating gives.",
     ["inputs", "configurations"],
     "all callables, values, buffer sizes and operations, ranges",
     "Each tool has at most one test with one or two values; composed and stateful callables, odd sizes and empty ranges are not covered.",
     ["utility/functional.h", "utility/buffer.h", "utility/adapter_storage.h", "utility/size.h", "utility/make_integer_range.h", "utility/as_function.h"],
     [("projection composition and overload selection", "utility/functional.h"), ("buffer providers", "utility/buffer.h"), ("storage of sorters", "utility/adapter_storage.h")],
     ["values returned", "calls of the wrapped objects"])

prop("C29", "Measures of presortedness stay within their documented time and memory",
     "Whatever the sequence, a measure of presortedness never makes more comparisons, projections or iterator moves than a fixed multiple of its documented complexity, and never allocates more than a fixed "
     "multiple of its documented memory (nothing for those documented O(1)), on every iterator category; dis and osc keep the documented complexity of their fallbacks when no memory is available.",
     ["inputs", "fault_sequences"],
     "all sequences, orders, iterator categories, with and without available memory",
     "No test counts the operations or the memory of a measure; a quadratic regression keeps every functional test green.",
     ["probes", "detail/count_inversions.h", "detail/longest_non_descending_subsequence.h", "detail/is_p_sorted.h", "docs/Measures-of-presortedness.md"],
     [("merge-based and binary search algorithms", "detail/count_inversions.h"), ("linear time or memory-less selection in dis", "probes/dis.h"), ("oscillation counting with quadratic fallback", "probes/osc.h")],
     ["number of comparisons, projections, iterator moves", "allocated bytes"])

prop("C30", "Sorting is deterministic, reentrant and free of shared state",
     "For a given input, every sorter, adapter, fixed-size sorter, measure, permutation tool and comparator always performs the exact same sequence of comparisons, projections and moves with the same "
     "result: whatever calls came before (including calls stopped by an exception), wherever the elements lie, whatever uninitialised memory holds, from inside the comparison or projection of another "
     "call, and in several threads at once over a shared function object (metrics excepted), without a data race.",
     ["inputs", "histories", "schedules"],
     "all inputs, all histories of earlier calls, memory contents, nesting depths, thread schedules",
     "Tests call each sorter once, in one thread, and look at the result only: hidden state, randomised pivots, address-dependent choices and static buffers pass them.",
     ["sorters", "adapters", "detail", "fixed", "probes", "comparators", "docs/Home.md"],
     [("sorting algorithms and their buffers", "detail"), ("adapters with buffers and trees", "adapters"), ("stateless function objects shared by all callers", "utility/static_const.h")],
     ["sequence of comparisons, projections, moves", "result", "data races"])

prop("C31", "The traits agree with the calls that compile and sort",
     "For every sorter and adapter, a comparison or a projection that fits the elements (function object, generic function, pointer to data member, pointer to member function, or a "
     "comparison that takes projected values) is accepted on ranges, temporary ranges and iterators, and the call sorts accordingly; is_projection, is_sorter and the is_*_sorter traits "
     "are true for exactly the combinations of functions that fit the elements, and no combination is ambiguous or a hard error.",
     ["inputs", "configurations"],
     "all sorters and adapters, element types with and without an order, functions and pairs of functions that fit or not, sequences",
     "Tests static_assert a few traits on a few sorters and call them with vectors of int; a wrong constraint only shows up with an element type, a function and a sorter nobody combined.",
     ["sorter_traits.h", "sorter_facade.h", "sorters", "adapters", "docs/Sorter-traits.md", "docs/Sorter-facade.md"],
     [("definition of the traits", "sorter_traits.h"), ("overloads generated for comparisons and projections", "sorter_facade.h"), ("constraints of the implementations", "sorters")],
     ["traits", "accepted calls", "order of the result"])

prop("C32", "Sorting does not depend on what the elements are made of",
     "Any movable element type sorts correctly, whatever its special member functions (trivial, written by the user, deleted, without a default constructor), size and alignment, greedy "
     "constructors, conversions or operators of its own, or standard library type: memory is only used as an element between its construction and its single destruction, at a suitably aligned "
     "address, elements are only moved (never wrapped, sliced, or copied in place of their moves), and no operator of theirs is used in place of the given comparison.",
     ["inputs", "configurations"],
     "all movable element types, all sorters, adapters, buffers, fixed-size sorters and permutation tools, sequences",
     "Tests sort integers, doubles, strings and a few wrappers; optimisations selected by type traits are only taken, or wrong, for combinations of special members nobody wrote a test for.",
     ["detail/move.h", "detail/rotate.h", "detail/memory.h", "detail/drop_merge_sort.h", "detail/immovable_vector.h", "detail/fixed_size_list.h", "utility/buffer.h", "sorters", "adapters"],
     [("raw buffers, destruction and moves selected by traits", "detail/memory.h"), ("rotations selected by traits", "detail/rotate.h"), ("buffers of live elements", "utility/buffer.h")],
     ["lifetime and alignment of elements", "order of the result"])
