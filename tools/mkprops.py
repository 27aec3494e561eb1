#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A brand ties every trusted particle to exactly one container",
 "An index, range, iterator or pointer particle obtained inside one scope is accepted only by the container of that scope (or a twin of it), and neither the particle nor the container can leave the scope's closure. No safe operation creates a particle whose brand does not come from a container or particle it was given, and the brands of two scopes can never be unified, shortened or lengthened by subtyping.",
 ["programs"], "every program that uses the public API: all types carrying a brand, all public functions and trait implementations, all feature configurations",
 "The quantifier is over programs that must be rejected by the compiler; the existing compile-fail tests sample eight programs (four of which do not run on current compilers) and a unit test cannot contain code that does not compile.",
 ["src/lib.rs", "src/container.rs", "src/indexing.rs", "src/pointer.rs"],
 [("invariant brand marker", "src/lib.rs Id"), ("higher-ranked closure", "src/container.rs scope"), ("private fields and private unsafe constructors", "src/lib.rs Index, Range; src/pointer.rs PIndex, PRange, PSlice")])

prop("C02", "Index and range particles are always within their container",
 "Every index, range, range iterator or subdivision obtained or updated through the safe API denotes positions inside its container: an index is at most the container's length, and a range has start <= end <= length. This holds for every input, every sequence of operations and every container length up to isize::MAX, also in release builds where arithmetic wraps around.",
 ["inputs", "histories"], "all argument values of all safe public operations on Container, Index, Range, RangeIter and Subdivide, for valid incoming particles, all lengths up to isize::MAX, with and without overflow checks",
 "Tests run a handful of small slices in a debug build; the guarantee is for all lengths, indices and offsets, including those where usize arithmetic wraps in release builds.",
 ["src/lib.rs", "src/container.rs", "src/indexing.rs"],
 [("vetting comparisons", "src/container.rs vet, vet_range"), ("unsafe private constructors", "src/lib.rs Index::new, Range::from"), ("range algebra", "src/indexing.rs")],
 [("index", "absolute position", "src/lib.rs Index"), ("start,end", "half-open interval", "src/lib.rs Range")])

prop("C03", "A NonEmpty proof is only ever attached to something nonempty",
 "Every range whose type says NonEmpty has start < end, and every index whose type says NonEmpty is a position strictly below the container's length, so that it can be dereferenced. The proof is never gained by conversion, joining, splitting or stepping unless the resulting interval really contains an element.",
 ["inputs", "histories"], "all operations returning or updating NonEmpty-typed index particles, for every combination of proof parameters of the inputs and all values",
 "A wrong proof type compiles and behaves well for the sampled ranges; only an empty or one-element range in the wrong position exposes it.",
 ["src/proof.rs", "src/indexing.rs", "src/container.rs", "src/lib.rs"],
 [("emptiness test before tagging", "src/indexing.rs Range::nonempty"), ("proof addition", "src/proof.rs ProofAdd"), ("proof-preserving operations", "src/indexing.rs split_in_half, join, join_cover, first, upper_middle, advance")])

prop("C04", "Unchecked element accesses stay inside the container's storage",
 "Whenever safe code indexes, slices, scans, swaps, rotates or zips a container through trusted particles, or runs one of the provided algorithms, every element the library touches without a bounds check lies inside the storage the container was created with. This includes raw-pointer arithmetic, which never leaves the storage (one past the end allowed).",
 ["inputs", "histories"], "every unchecked access in the crate, for all particles valid for the container, all lengths and all closure results",
 "An access one past the end usually reads adjacent memory and passes; tests use small slices and do not run under a memory checker.",
 ["src/container.rs", "src/container_traits.rs", "src/algorithms.rs", "src/pointer.rs"],
 [("get_unchecked / from_raw_parts / ptr::copy sites", "src/container.rs, src/container_traits.rs, src/algorithms.rs, src/pointer.rs")])

prop("C05", "Mutation needs exclusive access to mutable storage",
 "Elements are written, or mutable references and mutable slices to them handed out, only by operations that take the container by exclusive reference and whose storage itself permits mutation; a container over a shared slice can never be used to modify it. References handed out by a container never outlive the borrow of the container they came from, and the two slices handed out together by index_twice never overlap.",
 ["programs", "inputs"], "all public operations for every storage type, and all pairs of ranges for the two-slice access",
 "The programs that must be rejected cannot be unit tests, and existing tests only mutate through &mut slices, never try to mutate through a shared one.",
 ["src/container.rs", "src/pointer.rs", "src/container_traits.rs"],
 [("GetUncheckedMut / ContiguousMut bounds", "src/container.rs, src/pointer.rs"), ("order check of the two ranges", "src/container.rs index_twice")])

prop("C06", "A container never becomes shorter while its brand is alive",
 "While particles of a brand exist, no operation reduces the length of a container carrying that brand; growing (push, insert) is possible only after switching to index-only mode, adds exactly one element, keeps all outstanding indices in bounds, and push returns the index of the pushed element. Containers over storage that can grow cannot be cloned and cannot be, or get, twins; twins always have equal length.",
 ["histories", "programs"], "all operation sequences on all storage types; all programs that try to clone or twin growable storage or to use pointers after switching to index-only mode",
 "One test pushes twice to one vector; forbidden programs cannot be unit tests and invalidation appears only with an index held across a length change.",
 ["src/container.rs", "src/container_traits.rs"],
 [("FixedLength marker", "src/container_traits.rs FixedLength"), ("OnlyIndex mode", "src/container.rs push, insert, only_index"), ("length comparison", "src/container.rs make_twin")])

prop("C07", "Vetting accepts exactly the valid indices and ranges",
 "vet(i) succeeds exactly when i is below the length, vet_range(a..b) exactly when a <= b <= length, contains(i) exactly when start <= i < end, nonempty() exactly when the range has an element, join exactly when the second range starts where the first ends, index_twice exactly when the first range ends at or before the start of the second, and make_twin exactly when the lengths agree. On success the result denotes precisely the requested positions; on failure nothing is changed.",
 ["inputs"], "all integer arguments up to usize::MAX and all ranges and lengths",
 "The tests check a few values around the ends of one small slice; acceptance must be exact for every value.",
 ["src/container.rs", "src/indexing.rs"],
 [("comparisons guarding construction", "src/container.rs vet, vet_range, index_twice, make_twin; src/indexing.rs contains, nonempty, join")])

prop("C08", "Range algebra returns exactly the documented intervals",
 "Splitting operations of ranges and containers (split_in_half, split_at, split_after, split_around, before, after, range_of, frontiers, tail, init) return adjacent pieces that together cover exactly the documented part of the input, in order, with nothing lost or shared, and first, last, lower_middle, upper_middle, past_the_end return exactly the documented position. join, join_cover and join_cover_both return exactly the documented hull, and len, is_empty, start, end and as_range agree with it.",
 ["inputs"], "all ranges, indices and lengths, all proof parameters",
 "Exactness is a statement about every (start, end, index) triple; tests look at ranges of at most five elements.",
 ["src/indexing.rs", "src/container.rs"],
 [("interval arithmetic", "src/indexing.rs, src/container.rs")])

prop("C09", "Stepping moves exactly as requested or not at all",
 "forward, forward_by and backward on an index, and advance, advance_by, advance_back and advance_ on a range, move by exactly the requested amount and report success if and only if the moved particle is still valid (inside the container or range, respectively still nonempty); otherwise they report failure and leave the particle unchanged. forward_range_by moves both ends by the offset, clamped to the end. This holds for every offset up to usize::MAX, in debug and release builds alike.",
 ["inputs"], "all particles, all offsets up to usize::MAX, with and without overflow checks",
 "No test uses forward_by or a large offset; wrap-around shows only with offsets near usize::MAX in release builds.",
 ["src/container.rs", "src/indexing.rs"],
 [("step then compare", "src/container.rs forward, forward_by, backward, forward_range_by; src/indexing.rs advance*, forward_by, forward_range_by")])

prop("C10", "Scans visit elements in order and return the exact accepted run",
 "scan_from, scan_from_rev, scan_range (and the pointer scans) call the closure on consecutive elements outward from the starting point, in the documented direction, each exactly once, and stop after the first rejection or at the end of the container or range. The returned range consists of exactly the accepted elements, plus the starting element where documented; the second range of a split scan is exactly the rest.",
 ["inputs"], "all ranges, start positions and closure behaviours (any sequence of accept/reject)",
 "The closure's answers are an arbitrary sequence; the one scan test uses two predicates on five elements.",
 ["src/container.rs", "src/pointer.rs"],
 [("scan loops", "src/container.rs scan_from, scan_from_rev, scan_range; src/pointer.rs scan_tail_, scan_pointer_range, scan_pointer_range_rev")])

prop("C11", "Subdivision partitions the range evenly",
 "Iterating subdivide(n) with 1 <= n <= length yields exactly n nonempty ranges, adjacent and in order, that together cover exactly the subdivided range and whose lengths differ by at most one. With n larger than the length it yields nothing.",
 ["inputs"], "all ranges and all n",
 "The statement involves the quotient and remainder of arbitrary lengths and accumulates over n steps; tests check three small cases.",
 ["src/indexing.rs"],
 [("fractional stepping", "src/indexing.rs FracStep, Frac, Subdivide")])

prop("C12", "No element is duplicated, lost or dropped twice, even on panic",
 "swap, the rotations and every provided sorting, merging and heap algorithm only permute the elements of the slices they are given: each element value is present exactly once afterwards. The same holds at every point where user code (comparison or closure) runs, so that a panic there leaves every element owned exactly once.",
 ["inputs", "fault_sequences"], "all inputs, all element types, a panic injected at any call of user code",
 "Tests use Copy integers, for which duplication and loss of ownership are invisible, and never panic in a comparison.",
 ["src/container.rs", "src/pointer.rs", "src/algorithms.rs"],
 [("ptr::read / copy / forget sequences", "src/container.rs rotate1_up, rotate1_down; src/pointer.rs rotate1_prange; src/algorithms.rs insertion_sort_rust"), ("swap-only algorithms", "src/algorithms.rs")])

prop("C13", "Swap and rotations move exactly the elements they should",
 "swap(i, j) exchanges exactly the elements at i and j; rotating a range up by one moves its last element to the front and every other element one place up, rotating down moves the first to the back and the others one place down. Elements outside the given positions are untouched, and empty or one-element ranges change nothing.",
 ["inputs"], "all indices and ranges, including equal indices and ranges of length 0, 1 and 2",
 "Rotation down has no test at all and rotation up is only exercised through sorting integers.",
 ["src/container.rs", "src/pointer.rs"],
 [("block moves", "src/container.rs swap, rotate1_up, rotate1_down; src/pointer.rs swap_ptr, rotate1_prange")])

prop("C14", "Searches return a position bracketed by the comparisons",
 "binary_search and its variants return Ok(i) only if the comparison reported Equal for element i, and Err(i) or a lower bound i only if element i-1 compared less (or i is the beginning) and element i did not compare less (or i is the end). On input partitioned by the comparison this is the unique correct insertion point, and the returned position never exceeds the length.",
 ["inputs"], "all slices of elements of nonzero size, and all comparison functions",
 "Every length and every sequence of comparison outcomes matters; tests compare against std on a dozen elements or small random vectors.",
 ["src/algorithms.rs"],
 [("bisection loops", "src/algorithms.rs binary_search_by, binary_search_by_prange_, binary_search_by_pslice_, lower_bound, lower_bound_prange_, lower_bound_pslice_, lower_bound_raw_ptr")])

prop("C15", "Comparison and hashing of particles are coherent",
 "Indices compare, and hash, exactly as their integer positions, and ranges as the pair (start, end) in lexicographic order; the proof parameter never matters. Equality, <, <=, >, >=, partial_cmp and cmp agree with one another, and equal particles have equal hashes.",
 ["inputs"], "all pairs of particles with every combination of proof parameters",
 "Coherence is over all pairs and all operators; the test compares four ranges.",
 ["src/indexing.rs", "src/pointer.rs"],
 [("manual comparison impls", "src/indexing.rs PartialEq, PartialOrd, Ord, Hash for Index and Range; src/pointer.rs PartialEq")])

prop("C16", "Range iterators yield every index exactly once, from both ends",
 "Iterating an index or pointer range yields each of its positions exactly once, ascending from the front and descending from the back, also when both ends are mixed, and then None forever. At any time the remaining range reported by the iterator (and the exact length, where provided) is exactly the part not yet yielded.",
 ["inputs", "histories"], "all ranges and all interleavings of next and next_back",
 "Interleavings of both ends are never tested, only full forward or full reverse passes.",
 ["src/indexing.rs", "src/pointer.rs"],
 [("iterator steps", "src/indexing.rs RangeIter; src/pointer.rs PRangeIter")])

prop("C17", "Pointer particles stay within their container and their proofs hold",
 "With pointer ranges enabled and elements of nonzero size, every pointer particle obtained through the safe API points into its container (one past the end at most), every pointer range lies inside it with start <= end, and one marked NonEmpty points at, respectively contains, at least one element. This holds for every combination of input proofs and all values.",
 ["inputs", "histories"], "all safe operations on PIndex, PRange, PSlice, their iterators and the containers that accept them, all element types of nonzero size",
 "Pointer tests only sort and search; edge pointers (one past the end) are never passed to the operations that accept them.",
 ["src/pointer.rs", "src/proof.rs"],
 [("unsafe private constructors", "src/pointer.rs PIndex::new, PRange::new, PSlice::new"), ("proof conversions", "src/proof.rs Provable")])

prop("C18", "Storage adapters report their storage truthfully",
 "For slices, vectors and references to them, the reported length is the real number of elements, begin and end delimit exactly that storage, the slice view covers all of it, unchecked access number i reaches exactly element i, and pushing or inserting through an adapter changes exactly the underlying storage. Adapters for references behave exactly like the storage they refer to.",
 ["inputs"], "all implementations of the storage traits in the crate and all contents",
 "The adapters are the trusted base of every unchecked access; most are never called directly by a test.",
 ["src/container_traits.rs"],
 [("unsafe trait impls", "src/container_traits.rs")])

prop("C19", "Without use_std the crate depends on core only",
 "With default features off the crate uses nothing outside core: no allocation, no std. Switching use_std or the pointer ranges on only adds functionality; the index-based API is the same, with the same behaviour, in every feature configuration.",
 ["configurations"], "all feature configurations and all code reachable in each of them",
 "The tests always link std, and on a hosted target a no_std build happily links; they compare no configurations.",
 ["src/lib.rs", "Cargo.toml", "src/container_traits.rs"],
 [("no_std switch", "src/lib.rs"), ("feature gates", "src/lib.rs, src/container_traits.rs, src/proof.rs, src/algorithms.rs")])

prop("C20", "Thread-safety markers match what the types can do",
 "Index particles, ranges and their iterators are Send and Sync whatever their proof parameter; a container is Send, respectively Sync, exactly when its storage is. Pointer particles, which carry raw pointers, are neither Send nor Sync.",
 ["programs"], "all branded types and all storage types",
 "A missing or superfluous marker only shows in programs that do or do not compile; the test covers three types and only the positive direction.",
 ["src/lib.rs", "src/container.rs", "src/pointer.rs"],
 [("auto traits and unsafe impls", "src/lib.rs Id")])

prop("C21", "Trusted operations never panic",
 "Given valid particles, no operation on containers, indices, ranges and their iterators panics or overflows, in debug or release builds: inapplicability is reported only through Result, Option, bool or clamping. The only exceptions are panics of user code, allocation failure when growing, and subdivide(0).",
 ["inputs", "configurations"], "all safe public operations of the index and (for elements of nonzero size) pointer API, all values, containers up to isize::MAX elements, with debug assertions and overflow checks on and off",
 "A panic at an extreme value (empty range, last index, huge offset) is outside the sampled inputs.",
 ["src/container.rs", "src/indexing.rs", "src/pointer.rs", "src/lib.rs"],
 [("guards and saturating arithmetic", "src/container.rs, src/indexing.rs"), ("debug assertions", "src/lib.rs, src/pointer.rs")])

prop("C22", "Pointer ranges compute the same intervals as index ranges",
 "With pointer ranges enabled and elements of nonzero size, the operations of PRange, PSlice and PIndex and the pointer operations of containers (first, last, tail, init, middle, split_in_half, advance, advance_back, conversions, split_at_pointer, pointer_range_of, nonempty_range, distance_to, nonempty, len, is_empty) return exactly the positions their index counterparts document. PRange and PSlice convert into each other without changing the interval.",
 ["inputs"], "all pointer ranges and positions",
 "Exactness for every position and length; tests only observe end results of sorts and searches.",
 ["src/pointer.rs"],
 [("pointer arithmetic", "src/pointer.rs")])

prop("C23", "Merging validates its input and keeps data in two places only",
 "The in-place merges return an error, without having touched data or buffer, exactly when the left part is longer than the data or than the buffer; otherwise they return Ok. Buffer positions at or beyond the length of the left part are never touched. When they return Ok, the data holds exactly the elements it held before, and so does the buffer.",
 ["inputs"], "all data, split positions and buffers, all comparison outcomes",
 "The merge test uses one size and a buffer that is always long enough.",
 ["src/algorithms.rs"],
 [("length guard before the scope", "src/algorithms.rs merge_internal_indices, merge_internal_ranges")])

prop("C24", "Zips walk both ranges in lock step for the shorter length",
 "zip and zip_mut_raw call the closure exactly min(len1, len2) times, in ascending order, the k-th time with the k-th element of the first and the k-th element of the second range. The algorithms built on it (dot product, copy) touch exactly those pairs; a dot product returns the sum of their products when that fits its type.",
 ["inputs"], "all pairs of ranges, lengths and offsets (elements of nonzero size)",
 "zip_mut_raw and zip have no test at all.",
 ["src/container.rs", "src/pointer.rs", "src/algorithms.rs"],
 [("lock-step loops", "src/container.rs zip_mut_raw; src/pointer.rs zip")])

prop("C25", "Sorting and merging algorithms produce ordered output",
 "For every slice and every total order (or total preorder, the closures being its strict part) the insertion sorts and the quicksorts leave the slice in ascending order, and merge_internal_* leave the data in ascending order when they return Ok and both parts were ascending. The insertion sorts (except insertion_sort_prange_lower) and the merges are stable (equal elements keep their order), and insertion_sort2_indexes reorders its second slice exactly as the first.",
 ["inputs"], "all slices, lengths, division points and total preorders",
 "Only small random integer vectors are sorted by the tests, where equal elements cannot be told apart and rare shapes (runs of equal elements, sorted, sizes around the insertion sort threshold) are hardly met.",
 ["src/algorithms.rs"],
 [("sorting and merging algorithms", "src/algorithms.rs insertion_sort_*, quicksort_*, merge_internal_*"), ("element moves they are made of", "src/container.rs rotate1_up, scan_from_rev, swap; src/pointer.rs rotate1_prange, scan_tail_")])

prop("C26", "Every loop terminates whatever user code answers",
 "Every loop of every exported operation (scans, searches, partitions, sift-downs, merges, subdivision, iteration) is left after finitely many rounds on every input, whatever closures and comparison operators answer, even if they answer inconsistently. (User code itself is taken to return; how deep a recursion may become is not part of this.)",
 ["inputs"], "all inputs, all lengths, all answers of predicates and comparison functions",
 "Termination is a statement about all lengths and all sequences of answers; tests run a few short vectors with consistent comparisons and a hang in a rare case never shows.",
 ["src/algorithms.rs", "src/container.rs", "src/container_traits.rs"],
 [("loops of the algorithms", "src/algorithms.rs"), ("scans, searches, subdivision", "src/container.rs")])

prop("C27", "Raw-pointer use respects the aliasing rules",
 "No operation of the crate uses a pointer after a conflicting reborrow of the same storage or writes through a pointer derived from a shared reference, as the language's aliasing model defines it.",
 ["inputs", "programs"], "all operations that hold raw pointers across reborrows",
 "Violations have no visible effect at run time without an instrumented interpreter.",
 ["src/container.rs", "src/pointer.rs"],
 [("raw pointer duplication of &mut self", "src/container.rs swap, index_twice, rotate1_up; src/pointer.rs swap_ptr")])

prop("C28", "Indexing and slicing reach exactly the denoted elements",
 "Indexing a container by an index, a range, a one-sided or full range of indices, or a pointer particle yields a reference to exactly the denoted element, respectively a slice of exactly the denoted elements, and so do the two slices of index_twice; scope and scope-like constructors hand the closure a container over exactly the storage that was given and return the closure's result, calling it exactly once.",
 ["inputs"], "all particles, all lengths, all index expressions the containers accept, shared and mutable access",
 "Off-by-one and swapped-end mistakes in the slicing impls stay inside the storage and go unnoticed unless the very range is sampled; most Index/IndexMut impls have no test.",
 ["src/container.rs", "src/pointer.rs"],
 [("Index / IndexMut impls", "src/container.rs, src/pointer.rs"), ("scope", "src/container.rs scope")])

prop("C29", "heapify leaves a heap",
 "For every slice and every total preorder of its elements, after heapify no element is greater than an element at either of its child positions: v[k] <= v[2k+1] and v[k] <= v[2k+2] for every k for which those positions exist.",
 ["inputs"], "all slices, lengths and total preorders",
 "One fixed example is tested; an error in the choice of the smaller child, the stopping condition or the range of sifted positions shows only for particular shapes and lengths.",
 ["src/algorithms.rs"],
 [("sift-down loop", "src/algorithms.rs heapify")])

prop("C30", "binary searches make logarithmically many comparisons",
 "Every search of the crate (binary_search*, lower_bound* in the index-range, pointer-range, pointer-slice and raw-pointer variants) calls the comparison at most floor(log2 n) + 2 times on n > 0 elements, and never on an empty range, whatever the comparison answers.",
 ["inputs"], "all slices and ranges, lengths and comparison answers",
 "The tests only look at results on short slices; an uneven split or an endpoint that is looked at again leaves the results right and makes the search linear or longer.",
 ["src/algorithms.rs"],
 [("split points", "src/algorithms.rs binary_search_by, lower_bound*, binary_search_by_prange, binary_search_by_pslice")])

prop("C31", "The provided algorithms never panic by themselves",
 "The provided free functions (insertion sorts, quicksorts, merges, heapify, searches, copy, zip, scope) neither panic nor overflow on their own, on any input, whatever the closures and comparison operators they are given answer, in debug and release builds. The only exceptions are the lock-step sort of two slices of different lengths, the overflow of a dot product, and the debug assertion against merging an empty slice; panics of user code pass through.",
 ["inputs", "configurations"], "all inputs and lengths, all answers of predicates and comparison functions (also inconsistent ones), debug and release builds",
 "A failed unwrap, a bounds check or an underflow in a rare shape (empty part, last position, inconsistent order) is not met by a few short sample vectors.",
 ["src/algorithms.rs", "src/pointer.rs"],
 [("bounds-checked quicksort", "src/algorithms.rs quicksort_bounds"), ("unwraps and debug assertions on the way", "src/algorithms.rs, src/pointer.rs zip, src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
