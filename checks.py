"""Which harness units decide which property."""
R_SORT = ("a case is one sorter call on a generated range (26 structured key distributions, sizes weighted to "
          "the algorithms' thresholds, 8 families of strict weak orders, 5 projections); non-trivial: at least two "
          "elements, not already sorted; distinct: hash of all the recorded choices")

CHECKS = {
    "C01": {
        "technique": "property-based testing: structured generators, permutation-and-order oracle, shrinking",
        "note": "Every comparison sorter on generated ranges, sizes 0..5000 (thorough: 20000), with library and libstdc++ assertions on. "
                "Assumes user comparisons are strict weak orders.",
        "rule": R_SORT,
        "units": [{"src": "c01_sort.cpp", "parts": 8, "flags": "audit"},
                  {"src": "c01_sort.cpp", "parts": 8, "flags": "release", "std": "c++20", "defs": ["-DSCALARS"], "tag": "scalars"},
                  {"src": "c01_sort.cpp", "parts": 1, "flags": "audit", "defs": ["-DBRANCHLESS"], "tag": "branchless"}],
    },
    "C02": {
        "technique": "property-based testing: (key, original position) oracle for stability, trait against behaviour, shrinking",
        "note": "Stable sorters, make_stable/stable_adapter/stable_t of every sorter, adapter stacks, fixed-size sorters, indirect utilities; stability required when documented or "
                "when is_stable says so. Assumes user comparisons are strict weak orders.",
        "rule": "a case is one sorter call on a generated sequence with few distinct keys, a random order and projection; non-trivial: unsorted and at least two equivalent elements",
        "units": [{"src": "c02_stable.cpp", "parts": 8},
                  {"src": "c02_stable.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5}],
    },
    "C03": {
        "technique": "property-based testing: checked iterators of the weakest documented category with ptrdiff_t and int8_t difference types, move-only elements, shrinking",
        "note": "All sorters, adapter stacks, fixed-size sorters and measures behind iterators that fail on any out-of-range move, dereference or cross-range comparison and lack "
                "post-increment; int8_t difference types for up to 127 elements.",
        "rule": "a case is one call on a generated range behind checked iterators; non-trivial: at least two elements and not sorted (measures: three elements)",
        "units": [{"src": "c03_iterators.cpp", "parts": 8}],
    },
    "C04": {
        "technique": "property-based testing: instrumented elements and allocator (lifetime model) over generated inputs, shrinking",
        "note": "All sorters, adapter stacks, fixed-size sorters and type-specific sorters over tracked move-only elements and checked allocations (size, overrun, leak).",
        "rule": "a case is one sorter call on a generated range of tracked elements; non-trivial: at least two elements, not already sorted",
        "units": [{"src": "c04_lifetime.cpp", "parts": 8}, {"src": "c04_objects.cpp", "parts": 8},
                  {"src": "c04_lifetime.cpp", "parts": 1, "defs": ["-DBRANCHLESS"], "tag": "branchless"}],
    },
    "C05": {
        "technique": "property-based testing with fault injection: exception at a generated comparison, projection or move; lifetime and leak oracle, shrinking",
        "note": "Each case first counts the operations of the call, then throws from one of them (comparisons and projections, or moves). Default construction, iterators and destructors do not throw.",
        "rule": "a case is one generated range plus one interruption point; non-trivial: the exception is actually thrown and there are at least two elements",
        "units": [{"src": "c05_exceptions.cpp", "parts": 8},
                  {"src": "c05_exceptions.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5},
                  {"src": "c05_exceptions.cpp", "parts": 1, "defs": ["-DBRANCHLESS"], "tag": "branchless"}],
    },
    "C06": {
        "technique": "property-based testing with fault injection: generated allocation failure plans; completion-or-bad_alloc oracle with lifetime and leak checks, shrinking",
        "note": "Failure plans: everything, k-th, from the k-th, above or below a size, random subsets. Fallbacks of std::stable_sort excluded. Elements do not allocate.",
        "rule": "a case is one generated range plus one failure plan; non-trivial: at least one allocation was refused",
        "units": [{"src": "c06_memory.cpp", "parts": 8}],
    },
    "C07": {
        "technique": "property-based testing: operation-counting elements and functions, structured and antagonistic (lazily decided) orders, bound oracle, shrinking",
        "note": "Comparisons, projections and moves per n log2 n (n^2 for the quadratic sorters, n log2(n)^2 for the merges without memory), with bounds 1.6 times the "
                "highest ratio calibrated on the current tree; n in 64..12000 (thorough 60000). Combinations documented or composed to be quadratic excluded.",
        "rule": "a case is one sorter call with counted operations; non-trivial: unsorted input or antagonistic comparison",
        "units": [{"src": "c07_worst_case.cpp", "parts": 8},
                  {"src": "c07_worst_case.cpp", "parts": 1, "defs": ["-DBRANCHLESS"], "tag": "branchless"}],
    },
    "C08": {
        "technique": "property-based testing: operation counts on generated sorted, equal, reversed, few-runs, few-displaced and encroaching sequences, bound oracle, shrinking",
        "note": "Comparisons and moves per n, bounds 1.35 to 1.6 times the highest ratio calibrated on the current tree, for the sorters documented with a linear best case, sizes 256 to 12000 (thorough 60000). "
                "quick_sorter claims linear time for equal elements only.",
        "rule": "a case is one sorter call on a sequence of one of the best-case families; all are non-trivial",
        "units": [{"src": "c08_adaptive.cpp", "parts": 8},
                  {"src": "c08_adaptive.cpp", "parts": 1, "defs": ["-DBRANCHLESS"], "tag": "branchless"}],
    },
    "C09": {
        "technique": "property-based testing: instrumented allocator and stack probes over generated and antagonistic inputs, bound oracle, shrinking",
        "note": "No heap allocation for the sorters documented as O(1), log n or log^2 n; dynamic buffers bounded by their policy; other sorters and stack depth bounded by calibrated multiples of n and log n.",
        "rule": "a case is one sorter call with measured memory; non-trivial: unsorted input or antagonistic comparison",
        "units": [{"src": "c09_space.cpp", "parts": 8}],
    },
    "C10": {
        "technique": "property-based testing: typed key generators, differential against std::stable_sort on keys, shrinking",
        "note": "48 key types (integers incl. 128 bits and booleans, characters, floats, strings, tuples, pairs, arrays, nested lists), plain values, projected and moved-only forms, "
                "sizes around the thresholds of 128 and 1024. NaNs excluded.",
        "rule": "a case is one call on generated keys of one type with a generated shape (shared prefixes, few values, extremes); non-trivial: at least two elements, not already sorted",
        "units": [{"src": "c10_ska.cpp", "parts": 8}],
    },
    "C11": {
        "technique": "property-based testing: typed key generators, differential against std::sort on keys, address and undefined behaviour sanitizers, shrinking",
        "note": "All integer and character types up to 64 bits, float, double, strings and string views in both directions, through the specific sorters and the aggregate one, with projections "
                "by reference and by value and move-only elements; 7 cases in 8 have at least the 1000 elements from which the algorithms differ from a comparison sort. NaNs and 2-byte wide strings excluded.",
        "rule": "a case is one call on generated keys of one type; non-trivial: not already sorted and at least 1000 elements",
        "units": [{"src": "c11_spread.cpp", "parts": 8, "flags": "asan"},
                  {"src": "c11_spread.cpp", "parts": 2, "flags": "asan", "std": "c++20", "defs": ["-DSTRINGS"], "tag": "cpp20"}],
    },
    "C12": {
        "technique": "property-based testing: generated integer types, offsets, spans and iterator categories, differential against std::sort, undefined behaviour sanitizer and checked allocations, shrinking",
        "note": "17 integer types up to 128 bits; spans up to 300000 values at any offset up to the extremes, plus spans no memory can cover (std::bad_alloc with the range intact, or an already sorted range).",
        "rule": "a case is one call on one container in one direction; non-trivial: not already sorted",
        "units": [{"src": "c12_counting.cpp", "parts": 4, "flags": "ubsan"},
                  {"src": "c12_counting.cpp", "parts": 4, "flags": "release", "std": "c++20", "tag": "cpp20"}],
    },
    "C13": {
        "technique": "property-based testing: generated sorter aggregates, nestings, call constraints, containers and call forms; model of the dispatch as oracle, instrumented sorters, shrinking",
        "note": "48 generated aggregates of 2 to 5 instrumented sorters (categories, accepted elements and arguments, states), 32 adapters and stacks around stateful sorters, containers with each of the 64 combinations "
                "of sort and stable_sort methods, standard lists. Adapter types are fixed at compile time; arguments, states and contents are generated.",
        "rule": "a case is one call of one aggregate or stack; non-trivial: at least two elements (aggregates: all)",
        "units": [{"src": "c13_dispatch.cpp", "parts": 8},
                  {"src": "c13_dispatch.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5}],
    },
    "C14": {
        "technique": "property-based testing: generated inputs for every adapter and sorter pairing, permutation-and-order oracle plus operation-count oracles, shrinking",
        "note": "7 adapters around each of the comparison sorters, 24 deeper stacks, and small_array_adapter with several domains for arrays of 0 to 23 elements. Indirect sorting: moves at most one more than the length of "
                "each cycle of the permutation; Schwartzian: one projection per element; counting: comparisons counted independently.",
        "rule": "a case is one call of one adapter stack; non-trivial: at least two elements, not already sorted",
        "units": [{"src": "c14_adapters.cpp", "parts": 8},
                  {"src": "c14_adapters.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5}],
    },
    "C15": {
        "technique": "property-based testing: lists of immovable nodes with stateful allocators; structural and stability oracles, generated interruption points and allocation failures, shrinking",
        "note": "The 4 sorters with list algorithms on std::list and std::forward_list, all call forms, exceptions from comparisons and projections, bad_alloc; dispatch to functions found by argument-dependent "
                "lookup for all 16 sets of such functions. mel_sorter only claims to be unstable.",
        "rule": "a case is one list plus at most one interruption; non-trivial: unsorted list, or an exception really thrown (dispatch: all)",
        "units": [{"src": "c15_lists.cpp", "parts": 4}],
    },
    "C16": {
        "technique": "property-based testing: exhaustive 0-1 sequences and permutations of small sizes, generated inputs beyond; order, permutation and cost oracles; states-set evaluation of the recorded networks; shrinking",
        "note": "All sizes 0-13, 0-64, and a selection up to 128 for the unbounded families; documented comparison and move weights recomputed for sizes up to 9 and estimated (6.5 standard deviations) for 9 to 13; "
                "networks recorded from the sorter are evaluated on all 0-1 inputs. Size 2 of low_moves_sorter: 3 moves (documentation: 2).",
        "rule": "a case is one input of one sorter, or a whole enumeration (permutations, network); non-trivial: not already sorted",
        "units": [{"src": "c16_fixed.cpp", "parts": 8, "std": "c++20"}],
    },
    "C17": {
        "technique": "property-based testing: 0-1 principle over all inputs (grouped by intermediate state), generated arrays for the differential against the sorters, shrinking",
        "note": "Networks of sizes 0 to 64 (Batcher's up to 128): pair counts, index ranges and types, all 0-1 inputs evaluated for every network, swap_index_pairs and force_unroll against the sorter, and for random sequences of pairs.",
        "rule": "a case is one network (structure, 0-1 principle) or one array; non-trivial: not already sorted",
        "units": [{"src": "c17_networks.cpp", "parts": 8, "cc": "clang++"}],
    },
    "C18": {
        "technique": "property-based testing: exhaustive small sequences and generated sequences, orders, projections and iterators against quadratic reference definitions; failing allocations; shrinking",
        "note": "All sequences of up to 6 elements (7 in the thorough tier), generated ones up to 900; 7 kinds of sequences, 9 call forms. Exc with equivalent elements: bounds (true minimum for small "
                "disorder); Block: range over the orders of equivalent elements.",
        "rule": "a case is one sequence and one call form (exhaustive test: all measures); non-trivial: not sorted",
        "units": [{"src": "c18_probes.cpp", "parts": 4}],
    },
    "C19": {
        "technique": "property-based testing: metamorphic relations and documented inequalities over exhaustive permutations and generated sequences, shrinking",
        "note": "All permutations of up to 8 elements (9 in the thorough tier) for the maxima and the relations; sizes 0 to 299 for the sequences documented to reach the maximum; generated sequences up to 5000 elements.",
        "rule": "a case is one sequence (maxima of all permutations: one size); non-trivial: not sorted (sorted test: more than one element)",
        "units": [{"src": "c19_axioms.cpp", "parts": 4}],
    },
    "C20": {
        "technique": "property-based testing: generated bit patterns against a model of totalOrder and of the weak order, laws on triples, exhaustive narrow types and special values, shrinking",
        "note": "17 integer types (narrow ones exhaustively), float, double and extended long double; quiet and signaling NaNs are documented as equivalent. User types through argument-dependent lookup.",
        "rule": "a case is one triple of values, one pair of special values with all third ones, or one sorted sequence; non-trivial: first two values differ, more than one element",
        "units": [{"src": "c20_orders.cpp", "parts": 4}],
    },
    "C21": {
        "technique": "property-based testing: generated related strings against a token model and a folding model, laws on triples, bounds-checked iterators, generated locale facets, shrinking",
        "note": "Strings up to 20 characters over all bytes with dense digits and zeros, all pairs of strings of up to 3 (thorough: 4) characters of an alphabet of 6; 9 types of sequences; custom ctype facets.",
        "rule": "a case is one triple of strings, or one sequence of strings to sort; non-trivial: not all equal, more than one",
        "units": [{"src": "c21_strings.cpp", "parts": 1, "flags": "asan"}],
    },
    "C22": {
        "technique": "property-based testing: algebraic laws of the combinators on generated functions, arguments, value categories and states, shrinking",
        "note": "Flips, negations and projections of library, standard and user function objects, function and member pointers, with call logs to check arguments and value categories.",
        "rule": "a case is one set of arguments and function states; non-trivial: the two arguments are not equivalent",
        "units": [{"src": "c22_combinators.cpp", "parts": 2, "flags": "asan"},
                  {"src": "c22_combinators.cpp", "parts": 2, "std": "c++20", "tag": "cpp20", "scale": 0.5}],
    },
    "C23": {
        "technique": "property-based testing: differential between the call forms of each sorter on generated inputs, model of the forwarding of sorter_facade, shrinking",
        "note": "All comparison sorters and adapter stacks (up to 14 call forms per combination of functions), arrays and function pointers for 14 sorters, type-specific "
                "sorters, sort/stable_sort, refined functions, and facades over 6 partial implementations, in C++17 and C++20.",
        "rule": "a case is one generated range sorted through every call form applicable to one combination of functions; non-trivial: at least two elements, not already sorted",
        "units": [{"src": "c23_calls.cpp", "parts": 8},
                  {"src": "c23_calls.cpp", "parts": 1, "std": "c++20", "defs": ["-DCPP20"], "tag": "cpp20"}],
    },
    "C24": {
        "technique": "property-based testing: counting elements, comparisons and projections against the reported metrics, differential with the bare sorter, shrinking",
        "note": "comparisons, projections and moves of every comparison sorter and 8 adapter stacks, over vectors and lists; compositions and counter types for 8 sorters; "
                "operators of metric and accessors of metrics against the raw values. Exact equality, elements of equal size.",
        "rule": "a case is one generated range sorted by a sorter alone and through a metric; non-trivial: at least two elements, not already sorted",
        "units": [{"src": "c24_metrics.cpp", "parts": 8},
                  {"src": "c24_metrics.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5}],
    },
    "C25": {
        "technique": "property-based testing: generated sequences and permutations against the definition of the result, round trip through apply_permutation, tracked and bounds-checked elements, shrinking",
        "note": "26 sorters and adapter stacks, 3 radix sorters, a stateful sorter; vectors, deques, lists, constant sequences, temporary views, 32-bit difference types, move-only elements; "
                "7 index types, all permutations of up to 7 elements and generated ones of up to 150.",
        "rule": "a case is one sequence or permutation; non-trivial: at least 4 elements among which equivalent ones, or at least 3 displaced elements",
        "units": [{"src": "c25_permutations.cpp", "parts": 8},
                  {"src": "c25_permutations.cpp", "parts": 8, "std": "c++14", "tag": "cpp14", "scale": 0.5}],
    },
    "C28": {
        "technique": "property-based testing: direct evaluation of generated compositions, models of buffers under generated operations, call logs, exhaustive tables, shrinking",
        "note": "16 shapes of chained projections, ambiguous and ref-qualified callables, integer and floating point values of all magnitudes, 5 fixed and 6 dynamic buffers with up to 5000 elements, "
                "152 integer ranges, under AddressSanitizer and UndefinedBehaviorSanitizer.",
        "rule": "a case is one set of values and a sequence of operations on one tool; non-trivial: values for which neighbouring definitions differ (see harness)",
        "units": [{"src": "c28_utilities.cpp", "parts": 2, "flags": "asan"},
                  {"src": "c28_utilities.cpp", "parts": 2, "std": "c++20", "tag": "cpp20", "scale": 0.5}],
    },
    "C26": {
        "technique": "property-based testing: model of a two-column table behind generated proxy iterators (dangling and misuse detected), permutation-and-order oracle, shrinking",
        "note": "All sorters but std_sorter, adapter stacks, fixed-size sorters, measures, permutation tools and radix sorters over rows behind proxies with dedicated iter_move and iter_swap, iter_move alone, "
                "or nothing dedicated; vector<bool>; reverse iterators. Proxies that refuse copies, tracked elements. Elements behind iterators with real references that refuse any move or swap but those of their iterators.",
        "rule": "a case is one call over one generated table; non-trivial: at least two rows, not sorted (measures: three)",
        "units": [{"src": "c26_proxies.cpp", "parts": 8}, {"src": "c26_references.cpp", "parts": 8}],
    },
    "C27": {
        "technique": "property-based testing: generated sequences sorted through 12 combinations of callable forms checking their own use, permutation-and-order oracle, shrinking",
        "note": "Function pointers and references, pointers to members, generic, mutable, final and stateful objects that detect their use after a move, std::function, std::ref, "
                "non-const reference parameters, results convertible to bool; all sorters, adapter stacks, list algorithms, fixed-size and radix sorters, measures, permutation tools. Callables only "
                "usable as lvalues and move-only callables excluded.",
        "rule": "a case is one call over one generated sequence with one combination of callables; non-trivial: at least two elements, not sorted",
        "units": [{"src": "c27_callables.cpp", "parts": 8}],
    },
    "C29": {
        "technique": "property-based testing: counted comparisons, projections, iterator moves and allocated bytes over generated sequences against the documented growth rates, shrinking",
        "note": "All measures on forward, bidirectional and random-access iterators, up to 30000 elements (120000 in the thorough tier); without memory for dis, osc, mono and runs. Constants calibrated "
                "on the current tree, times 2 (iterator moves: 3).",
        "rule": "a case is one call over one sequence; non-trivial: not sorted",
        "units": [{"src": "c29_probe_costs.cpp", "parts": 1}],
    },
    "C30": {
        "technique": "property-based testing: generated histories of calls (repeated, moved, nested, interrupted, concurrent, with dirtied memory) whose traces of operations must equal the first, ThreadSanitizer, shrinking",
        "note": "All sorters, buffers and adapter stacks on vectors, lists and forward lists, 8 fixed-size sorters, measures, permutation tools, radix sorters, 5 comparators. A trace logs every comparison, "
                "projection and move. Calls in threads under ThreadSanitizer too; metrics are documented not to be thread-safe and only used in one thread.",
        "rule": "a case is one history over two or three sequences; non-trivial: one of them has at least two elements and is not sorted",
        "units": [{"src": "c30_determinism.cpp", "parts": 8},
                  {"src": "c30_determinism.cpp", "parts": 8, "flags": "tsan", "scale": 0.3}],
    },
    "C31": {
        "technique": "property-based testing: table of functions x element types x sorters, traits and accepted calls against a model of what the language lets one call, accepted calls run on generated keys, shrinking",
        "note": "Traits are checked at each case; each case then makes one of the accepted calls (through the range or the iterators) on generated keys. Only the traits are required to refuse functions that do not fit: "
                "nothing documents that the call operators themselves do. Containers rotate over the sorters.",
        "rule": "a case is one sequence of keys and one accepted combination of functions; non-trivial: three elements or more, not sorted",
        "units": [{"src": "c31_traits.cpp", "parts": 16}],
    },
    "C32": {
        "technique": "property-based testing: element types enumerated by their special members, alignments, conversions and standard types, lifetime and permutation oracle over generated inputs, shrinking",
        "note": "15 combinations of trivial/user-written/deleted special members (constructions and destructions registered by address, self-pointers, sources poisoned by user-written moves), copy-only, greedy, misleading "
                "operators, polymorphic, over-aligned (64, 128), large and 15 standard types, over all sorters, buffers, adapter stacks, networks and apply_permutation. C++20 is only used to write the elements.",
        "rule": "a case is one sequence of elements given to one sorter; non-trivial: not sorted",
        "units": [{"src": "c32_elements.cpp", "parts": 40, "std": "gnu++20"}],
    },
}
