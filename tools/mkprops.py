import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    assert st.count('. ')<=2,(id,st.count('. '))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
QC="The existing tests sort contiguous u32 arrays of fewer than 100 random elements (quickcheck) plus a few doc examples"
L="src/lib.rs"
p("C01","Sequential unstable sorting yields an ordered permutation",
"After any sequential unstable sort (natural order, comparator or key form) of any one-dimensional array or view, no element compares less than its predecessor, and the view holds exactly the elements it held before, each once and unaltered. This holds for every length, element size, number of ties, memory layout and total order, including inputs crafted to defeat the pivot choice.",
["inputs"],"every length, content, element type, stride sign and width, total order and API form",
QC+", which never leave the small-array paths with strides, never exhaust the bad-pivot budget (heap-sort fallback) and never reach block partitioning across more than one block.",
[L,"src/quick_sort.rs","src/partition.rs","src/heap_sort.rs","src/insertion_sort.rs"],
[("pattern-defeating quicksort recursion","src/quick_sort.rs quick_sort/recurse"),("block partition and equal partition","src/partition.rs partition_in_blocks, partition_equal"),("heap-sort fallback","src/heap_sort.rs heap_sort"),("insertion sort and partial insertion sort","src/insertion_sort.rs")],
["Slice1Ext::sort_unstable","Slice1Ext::sort_unstable_by","Slice1Ext::sort_unstable_by_key"])
p("C02","Sequential stable sorting yields the unique stable order",
"After any sequential stable sort (natural order, comparator or key form) the view holds exactly its previous elements in non-descending order, and elements that compare equal keep their original relative order. The result is therefore the one sequence fixed by the input and the order, for every length, content, run structure and memory layout.",
["inputs"],"every length, content, tie structure, natural-run structure, element type, stride and API form",
QC+", so the run stack never grows beyond a few runs, its buffer never reallocates, and merges from both sides with ties, on strided views, are barely touched.",
[L,"src/stable_sort.rs","src/merge_sort.rs","src/insertion_sort.rs"],
[("run detection, run stack and collapse rule","src/merge_sort.rs merge_sort/collapse"),("stable merge through half-size buffer","src/merge_sort.rs merge"),("short-array insertion sort","src/insertion_sort.rs insertion_sort_shift_left/right"),("buffer allocation","src/stable_sort.rs stable_sort")],
["Slice1Ext::sort","Slice1Ext::sort_by","Slice1Ext::sort_by_key"])
p("C03","Cached-key sorting is stable and calls the key function at most once each",
"Sorting by cached key, sequentially or in parallel, arranges the view in the stable order of the keys, keeping exactly the elements it held. The key function is called at most once per element and only with elements of the view. This holds for every length, also around the lengths where a wider index type is needed, and for every key type and size.",
["inputs","schedules"],"every length (notably 254..258 and 65534..65538), key type, layout, tie structure and thread count",
"The cached-key sorts have one doc example of five elements each; the index-width switch at 255/65535 elements, which depends on the key's size and alignment, and the in-place permutation cycle walk are never tested with ties or strides.",
[L],[("index width selection and index sort","src/lib.rs sort_by_cached_key sort_by_key! macro"),("parallel key evaluation and index sort","src/lib.rs par_sort_by_cached_key"),("cycle-following in-place permutation","src/lib.rs sort_by_key! loop over indices")],
["Slice1Ext::sort_by_cached_key","Slice1Ext::par_sort_by_cached_key"])
p("C04","Parallel unstable sorting yields an ordered permutation under any schedule",
"After any parallel unstable sort (natural order, comparator or key form), no element compares less than its predecessor and the view holds exactly its previous elements, whatever the number of worker threads, the stealing schedule and the delays inside the comparator. This holds for every length, content, tie structure, memory layout and total order.",
["inputs","schedules"],"every input as for the sequential sort, times every thread-pool size and work-stealing schedule",
"Quickcheck arrays stay far below the 2000-element parallel threshold and one large test sorts random contiguous data on the default pool, so duplicated parallel copies of the algorithm, adversarial inputs, strides and schedules go unseen.",
[L,"src/par/quick_sort.rs","src/par/partition.rs","src/par/heap_sort.rs","src/par/insertion_sort.rs"],
[("parallel quicksort recursion with fork threshold","src/par/quick_sort.rs recurse"),("partitioning shared with selection","src/par/partition.rs"),("heap-sort fallback","src/par/heap_sort.rs")],
["Slice1Ext::par_sort_unstable","Slice1Ext::par_sort_unstable_by","Slice1Ext::par_sort_unstable_by_key"])
p("C05","Parallel stable sorting yields the unique stable order under any schedule",
"After any parallel stable sort (natural order, comparator or key form) the view holds exactly its previous elements in non-descending order with equal elements in their original relative order, whatever the number of worker threads and the schedule. This holds in particular for inputs made of ascending or descending stretches with ties anywhere, including at internal chunk boundaries.",
["inputs","schedules"],"every length, content, tie and run structure aligned or misaligned to internal chunks, layout, thread count and schedule",
"Quickcheck arrays are below one 2000-element chunk; the large test uses random contiguous data only, so concatenation of descending/ascending chunks, ties across chunk boundaries, odd chunk counts and parallel merge splits with many ties or strides are not exercised.",
[L,"src/par/merge_sort.rs"],
[("chunk sort and chunk concatenation","src/par/merge_sort.rs par_merge_sort"),("recursive ping-pong merge between view and buffer","src/par/merge_sort.rs recurse"),("parallel merge and split rule","src/par/merge_sort.rs par_merge/split_for_merge"),("per-chunk merge sort","src/par/merge_sort.rs merge_sort/merge/insert_head")],
["Slice1Ext::par_sort","Slice1Ext::par_sort_by","Slice1Ext::par_sort_by_key"])
p("C06","Selection places the ranked element and partitions the view around it",
"Selecting a valid index puts the element there that full sorting would put there (up to ties), every element before it compares not greater, every element after it compares not less, and the view still holds exactly its previous elements. The returned triple consists of the view's own elements before, at and after the index, in place. This holds for every length, index, content, layout and order, including inputs that defeat the quick pivot choice.",
["inputs"],"every length, index, content, tie structure, layout, element type and API form",
"Two doc examples and a quickcheck test on short contiguous u32 arrays; inputs that exhaust the bad-pivot budget and enter the deterministic linear-time fallback, with its length-dependent sampling fractions, are never generated.",
[L,"src/partition.rs","src/insertion_sort.rs"],
[("introselect loop","src/partition.rs partition_at_index/partition_at_index_loop"),("deterministic fallback","src/partition.rs median_of_medians/median_of_ninthers/ninther"),("minimum/maximum special cases","src/partition.rs partition_at_index"),("returned split","src/partition.rs partition_at_index split_at")],
["Slice1Ext::select_nth_unstable","Slice1Ext::select_nth_unstable_by","Slice1Ext::select_nth_unstable_by_key"])
p("C07","Bulk selection ranks every requested index and reports it in order",
"Selecting a strictly increasing set of valid indices puts at each of them the element full sorting would put there (up to ties), separates all elements in between accordingly, and loses or alters no element. The collection receives, after whatever it held before, exactly one pair per requested index in increasing order, each referring to the view's element at that index.",
["inputs"],"every array, layout, order, index subset (empty to full) and index-array layout, any extendable collection",
"One quickcheck test with random small arrays and a doc example; dense, sparse, clustered and full index sets on long, tied, adversarial or strided arrays, index arrays that are themselves strided, and pre-filled collections are not covered.",
[L,"src/partition.rs"],
[("recursive bisection over the indices","src/partition.rs partition_at_indices"),("single selection","src/partition.rs partition_at_index")],
["Slice1Ext::select_many_nth_unstable","Slice1Ext::select_many_nth_unstable_by","Slice1Ext::select_many_nth_unstable_by_key"])
p("C08","Parallel bulk selection ranks every requested index under any schedule",
"Parallel bulk selection of a strictly increasing set of valid indices puts at each of them the element full sorting would put there (up to ties), separates the elements in between accordingly, and loses or alters no element. The vector keeps what it held before and is extended by one reference per requested index in order, each to the view's element at that index, whatever the thread count and schedule.",
["inputs","schedules"],"every array, layout, order, index subset and index-array layout, prior vector content/capacity, thread count and schedule",
"Tested on short arrays below the 2000-element fork threshold, so the parallel split of views, indices and uninitialised result slots runs in practice only in one large random test.",
[L,"src/par/partition.rs"],
[("forked bisection writing result slots","src/par/partition.rs par_partition_at_indices"),("spare capacity and length update","src/lib.rs par_select_many_nth_unstable*"),("selection with fallback","src/par/partition.rs partition_at_index/median_of_medians")],
["Slice1Ext::par_select_many_nth_unstable","..._by","..._by_key"])
p("C09","Invalid selection requests are rejected without corrupting anything",
"Selecting an index outside the view, or bulk selecting indices that are out of bounds or not strictly increasing, always panics, in debug and release builds alike. Afterwards the view still holds exactly its previous elements and the target collection still starts with everything it held before, with no dangling or uninitialised entries.",
["inputs","configurations"],"every invalid index or index sequence (out of bounds, repeated, unsorted, huge), for every length including empty, sequential and parallel, with and without debug assertions",
"No existing test requests an invalid index.",
[L,"src/partition.rs","src/par/partition.rs"],
[("bounds check before unsafe access","src/partition.rs partition_at_index, src/par/partition.rs partition_at_index"),("offset arithmetic during bisection","src/partition.rs partition_at_indices, src/par/partition.rs par_partition_at_indices"),("length update only after success","src/lib.rs par_select_many_nth_unstable*")],
["all select_* and par_select_* methods"])
p("C10","Deduplicating partition keeps the first of every run, in order",
"Deduplication moves the first element of every maximal run of consecutive equivalent elements to the front in their original order and returns them as the first view, with all remaining elements, in unspecified order, as the second; together the two views are the original view and hold exactly its elements. The predicate is called once per element after the first, with that element as first and the last retained element as second argument, and both arguments may be mutated.",
["inputs"],"every length, run structure, equivalence predicate or key, element type and layout",
"One quickcheck test checks adjacent inequality on short contiguous u32 arrays; it cannot see lost order, wrong representative, argument order, or wrong split points for elements distinguishable beyond equality or on strided views.",
[L,"src/partition_dedup.rs"],[("read/write cursor swap loop","src/partition_dedup.rs partition_dedup"),("split at write cursor","src/partition_dedup.rs partition_dedup")],
["Slice1Ext::partition_dedup","Slice1Ext::partition_dedup_by","Slice1Ext::partition_dedup_by_key"])
p("C11","Searching a sorted view is exact and logarithmic",
"On a view partitioned by the predicate or sorted by the order, binary search returns the index of a matching element if there is one and otherwise the index where inserting keeps it sorted, partition point returns the length of the leading true segment, and linear search reports membership exactly. Each binary search inspects O(log n) elements, only elements of the view, and never modifies it, for every length, content, target, layout and for zero-sized elements.",
["inputs"],"every sorted content with any tie structure, every target including those absent and beyond both ends, every layout incl. broadcast and reversed views, every API form",
"A handful of doc examples on 13-element contiguous arrays.",
[L],[("bisection with unchecked access","src/lib.rs binary_search_by"),("predicate adaptation","src/lib.rs partition_point"),("linear membership","src/lib.rs contains")],
["Slice1Ext::binary_search","Slice1Ext::binary_search_by","Slice1Ext::binary_search_by_key","Slice1Ext::partition_point","Slice1Ext::contains"])
p("C12","Sortedness queries and reversal are exact",
"A sortedness query returns true exactly if every adjacent pair of the view satisfies the order or predicate (also for partially ordered elements, where an incomparable pair is unsorted), and reversing exchanges the element at each position with the one at its mirror position and nothing else. Both hold for every length, content, layout and element type.",
["inputs"],"every length, position and number of violations, partial order incl. NaN, predicate, layout and element type",
"Doc examples of at most five elements.",
[L,"src/partition.rs"],[("adjacent pair scan","src/partition.rs is_sorted"),("mirror swaps","src/partition.rs reverse")],
["Slice1Ext::is_sorted","Slice1Ext::is_sorted_by","Slice1Ext::is_sorted_by_key","Slice1Ext::reverse"])
p("C13","Operations stay within their view of the parent array",
"An operation on a view of a larger array changes no element of the parent outside that view, and every element or pointer handed to a user callback or returned refers to (a copy of) an element of that view. This holds for every layout, dimension, stride and direction of the view, sequential or parallel, also when the operation panics.",
["inputs","fault_sequences","schedules"],"every operation, parent dimension and memory order, view offset/stride/direction, content, and callback outcome incl. panics",
"Existing tests operate on whole contiguous arrays (one doc example sorts a 4-element column), so an access that strays off the view would land unnoticed or not happen.",
[L,"src/partition.rs","src/merge_sort.rs","src/heap_sort.rs","src/insertion_sort.rs","src/par/merge_sort.rs","src/par/partition.rs"],
[("stride-aware unchecked indexing","uget/uswap/split_at uses in src/partition.rs, src/merge_sort.rs, src/insertion_sort.rs"),("chunking and raw views of the parallel merge sort","src/par/merge_sort.rs")],
["every Slice1Ext method, parent array contents, callback arguments"])
p("C14","Results do not depend on memory layout or storage kind",
"Every operation gives the same final element sequence, return values and sequence of comparisons on any view or storage (owned, mutable view of any stride and direction, shared copy-on-write, maybe-borrowed) as on a contiguous array with the same logical content. Mutating one handle of a shared array never changes what other handles of it observe.",
["inputs","configurations"],"every operation, logical content and pair of layouts/storages; sequential operations, and parallel ones for results",
"Tests use owned contiguous arrays only.",
[L],[("all operations go through a mutable view of self","src/lib.rs impl Slice1Ext for ArrayBase"),("logical indexing","src/*.rs")],
["every Slice1Ext method on Array, ArrayViewMut, ArcArray, CowArray"])
p("C15","A panicking callback leaves a sequential operation's array intact",
"If the comparator, key function, predicate or an element's ordering panics at any call during a sequential operation, the panic reaches the caller unchanged and the array holds every element it held before exactly once: none lost, duplicated, leaked or dropped twice. This holds for each possible call at which the panic strikes.",
["fault_sequences","inputs"],"every operation and input, every index of the callback invocation that panics",
"No existing test lets a callback panic.",
["src/insertion_sort.rs","src/merge_sort.rs","src/partition.rs","src/heap_sort.rs",L],
[("hole guards restoring the moved-out element","src/insertion_sort.rs InsertionHole, src/partition.rs InsertionHole uses"),("merge hole flushing the buffer","src/merge_sort.rs MergeHole"),("buffer owners freeing on unwind","src/merge_sort.rs BufGuard/RunVec"),("cyclic permutation restore in block partition","src/partition.rs partition_in_blocks")],
["catch_unwind around every sequential Slice1Ext method, element identity multiset, drop counts"])
p("C16","A panicking callback leaves a parallel operation's array intact",
"If the comparator, key function or an element's ordering panics at any call, on any worker, during a parallel operation, a panic payload thrown by the callback reaches the caller after all workers have finished with the array, and the array holds every element it held before exactly once: none lost, duplicated, leaked or dropped twice. The thread pool stays usable.",
["fault_sequences","schedules","inputs"],"every parallel operation and input, every callback index or set of indices that panics, every thread count and schedule",
"No existing test lets a callback panic; the guards that copy half-merged data back between buffer and array run only then.",
["src/par/merge_sort.rs","src/par/partition.rs","src/par/insertion_sort.rs","src/par/heap_sort.rs","src/par/quick_sort.rs",L],
[("copy-back guards across forked recursion","src/par/merge_sort.rs recurse CopyOnDrop"),("merge state flush","src/par/merge_sort.rs par_merge State, MergeHole"),("hole guards","src/par/insertion_sort.rs InsertionHole"),("result vector length set only after success","src/lib.rs par_select_many_nth_unstable*")],
["catch_unwind around every par_* method"])
p("C17","Inconsistent orderings cannot lose elements, hang or crash an operation",
"If the comparator or an element's ordering is not a total order (random, cyclic, constant, contradictory, incomparable values), every sorting, selection and deduplication operation still returns after a bounded number of callback calls, and the array holds exactly its previous elements in some order. (Sequential sorting by cached key hands the keys to the standard library, which may panic to report an inconsistent order of the keys themselves.) No memory outside the view is read or written.",
["inputs","fault_sequences"],"every operation, input and arbitrary sequence of comparator answers",
"Existing tests only use the total order of u32.",
["src/partition.rs","src/merge_sort.rs","src/heap_sort.rs","src/insertion_sort.rs","src/par/merge_sort.rs","src/par/partition.rs",L],
[("bounded scans in partitioning","src/partition.rs partition/partition_in_blocks/partition_equal"),("bounded merge loops","src/merge_sort.rs merge"),("bad-pivot budgets","src/quick_sort.rs recurse, src/partition.rs partition_at_index_loop")],
["every sorting/selection/dedup method with adversarial comparator"])
p("C18","Changes a callback makes to elements are never lost",
"If a comparator, key function or predicate changes an element through interior mutability (or the mutable reference it is given) while the operation runs, then afterwards the array holds each element with every change that was made to it, including when the operation ends by panic. No change ends up applied to a stale copy.",
["inputs","fault_sequences"],"every operation and input, every sequence of interior mutations by callbacks, with and without a later panic",
"Existing element types have no interior mutability, so an operation comparing against a discarded temporary copy passes all tests.",
["src/insertion_sort.rs","src/partition.rs","src/merge_sort.rs","src/par/insertion_sort.rs","src/par/partition.rs","src/par/merge_sort.rs"],
[("write-back of temporaries read out of the array","src/partition.rs partition/partition_equal guards"),("insertion holes","src/insertion_sort.rs"),("merging from buffer copies","src/merge_sort.rs MergeHole")],
["elements with cells counting callback visits"])
p("C19","Auxiliary memory stays within its documented bounds and is released",
"Sequential unstable sorting, single selection, deduplication, searching, sortedness queries and reversal allocate no heap memory; sequential stable sorting allocates none for short arrays and otherwise at most half the array's size plus O(log n) bookkeeping at once; parallel unstable sorting and bulk selection need no memory proportional to the array. Every allocation is released again, also on panic, and no operation clones or drops an element.",
["inputs","fault_sequences"],"every operation, length, element size, content and panic point",
"No existing test observes allocation.",
["src/stable_sort.rs","src/merge_sort.rs","src/par/merge_sort.rs",L],
[("half-length merge buffer and run stack","src/merge_sort.rs BufGuard/RunVec"),("scratch vector without element ownership","src/par/merge_sort.rs par_merge_sort"),("in-place algorithms","src/quick_sort.rs, src/partition.rs, src/partition_dedup.rs")],
["global allocator events during each operation; element drop/clone counts"])
p("C20","Sorting needs O(n log n) comparisons in the worst case",
"Every sort, stable or unstable, sequential or parallel, makes at most proportionally n log n comparisons on every input, including inputs constructed adaptively against its pivot and merge choices. No input makes it degrade to quadratic behaviour.",
["inputs"],"every input of every length, including adversaries that answer comparisons adaptively",
"Existing tests measure no comparison counts and use random inputs, on which even an unprotected quicksort is fast.",
["src/quick_sort.rs","src/par/quick_sort.rs","src/heap_sort.rs","src/par/heap_sort.rs","src/merge_sort.rs","src/par/merge_sort.rs","src/partition.rs"],
[("budget of imbalanced partitions then heap sort","src/quick_sort.rs recurse limit, src/par/quick_sort.rs recurse limit"),("run-length invariants","src/merge_sort.rs collapse, src/par/merge_sort.rs collapse"),("pattern breaking","src/partition.rs break_patterns")],
["comparator call counts"])
p("C21","Selection is linear and bulk selection O(n log m) in the worst case",
"Selecting one index makes a number of comparisons at most proportional to n on every input, including inputs constructed adaptively against the pivot choice, and bulk selection of m indices at most proportional to n log m (n for a single one), sequential or parallel. Deduplication, sortedness queries and linear search make at most one callback round per element.",
["inputs"],"every input, index and index set, including adaptive adversaries",
"Existing tests count no comparisons and never reach the linear-time fallback.",
["src/partition.rs","src/par/partition.rs","src/partition_dedup.rs"],
[("constant budget then deterministic selection","src/partition.rs partition_at_index_loop limit, median_of_medians"),("bisection over indices","src/partition.rs partition_at_indices, src/par/partition.rs par_partition_at_indices")],
["comparator call counts"])
p("C22","Presorted, reversed and all-equal inputs are handled in linear time",
"On input that is already non-descending, strictly descending or all equal, every sort, stable or unstable, sequential or parallel, and sequential sorting by cached key, makes at most proportionally n comparisons, and stable sorting of a few concatenated sorted stretches does so too. (Parallel sorting by cached key collects its keys in no particular order and is not covered.)",
["inputs"],"every length and layout, every presorted, strictly reversed, constant or few-run content, with arbitrary tie structure for presorted content",
"Existing tests count no comparisons.",
["src/quick_sort.rs","src/partition.rs","src/insertion_sort.rs","src/merge_sort.rs","src/par/merge_sort.rs","src/par/quick_sort.rs"],
[("sortedness guess and reversal in pivot choice","src/partition.rs choose_pivot"),("partial insertion sort","src/insertion_sort.rs partial_insertion_sort"),("equal-element partition","src/partition.rs partition_equal"),("natural runs","src/merge_sort.rs find_streak"),("chunk concatenation","src/par/merge_sort.rs par_merge_sort")],
["comparator call counts"])
p("C23","Stack usage stays logarithmic",
"Sorting and selection use stack space at most proportional to log n (log m for bulk selection of m indices) on every input, with the stack-growing feature enabled or not. No input, including adaptive adversaries, makes recursion deep.",
["inputs","configurations"],"every sequential sort and selection, input and adversary, with and without the stack-spilling feature",
"Existing tests run with ample stack on short arrays, so linear recursion would go unnoticed.",
["src/quick_sort.rs","src/partition.rs","src/merge_sort.rs",L],
[("recursion into the shorter side only","src/quick_sort.rs recurse"),("bisection over indices","src/partition.rs partition_at_indices"),("stack spilling","src/lib.rs maybe_grow")],
["stack addresses seen by the callback; small-stack threads"])
p("C24","Results are deterministic",
"Repeating an operation on the same content with a consistent order gives the identical final arrangement, ties included, and return values every time, in any process, for any address, and for parallel operations for any number of threads and schedule. For sequential operations the sequence of callback calls is identical as well.",
["inputs","schedules","histories"],"every operation, content, repetition, preceding history, thread count and schedule",
"Existing tests compare only keys of indistinguishable u32 values and never repeat a run.",
[L,"src/partition.rs","src/par/quick_sort.rs","src/par/partition.rs"],
[("fixed-seed pattern breaking","src/partition.rs break_patterns"),("schedule-independent recursion","src/par/*.rs")],
["final identity sequence over repeated runs and pools"])
p("C25","Safe calls never cause undefined behaviour",
"No sequence of safe calls to the library causes undefined behaviour: no access outside an allocation or view, no use of uninitialised or freed memory, no invalid aliasing or provenance, no misaligned access, no leak. This holds for every element type including zero-sized, over-aligned and heap-owning ones, every layout, and also when callbacks panic or answer inconsistently.",
["inputs","fault_sequences"],"every operation, element type, layout, content and callback behaviour",
"The tests run without sanitizers or an undefined-behaviour interpreter, with plain integers, and undefined behaviour rarely shows in a result.",
[L,"src/partition.rs","src/insertion_sort.rs","src/heap_sort.rs","src/merge_sort.rs","src/partition_dedup.rs","src/stable_sort.rs","src/par/merge_sort.rs","src/par/partition.rs"],
[("raw offset buffers in block partitioning","src/partition.rs partition_in_blocks"),("unchecked view access","uget/uswap uses throughout src"),("raw element buffers","src/merge_sort.rs BufGuard/RunVec, src/par/merge_sort.rs")],
["Miri, AddressSanitizer and MemorySanitizer on real executions"])
p("C26","Parallel operations are free of data races",
"During a parallel operation no two threads access the same element or internal buffer slot without synchronisation unless both only read, and, for operations that require elements only to be sendable, no element is handed to callbacks running concurrently on two threads. After the call returns, no worker touches the array any more.",
["schedules","inputs"],"every parallel operation, input, thread count and schedule, with elements that are Send but not Sync",
"Existing tests run without a race detector, and a race rarely changes the outcome.",
["src/par/merge_sort.rs","src/par/quick_sort.rs","src/par/partition.rs",L],
[("disjoint splitting before forking","src/par/quick_sort.rs recurse, src/par/partition.rs par_partition_at_indices"),("disjoint halves of view and buffer","src/par/merge_sort.rs recurse/par_merge"),("chunk-wise scratch offsets","src/par/merge_sort.rs par_merge_sort")],
["ThreadSanitizer reports; per-element exclusivity monitor"])
p("C27","Concurrent operations on disjoint views do not interfere",
"Operations running at the same time on disjoint views of one parent array, sequential or parallel, nested in one thread pool or on separate threads, each give the same result as when run alone. Operations on interleaved lanes sharing cache lines or memory pages do not affect each other.",
["schedules","inputs"],"every combination of operations on disjoint views (interleaved columns, halves, alternating strides), thread count and schedule",
"Existing tests run one operation at a time on a whole array.",
[L,"src/par/merge_sort.rs","src/par/quick_sort.rs","src/par/partition.rs"],
[("no global state","src/*.rs"),("view-confined access","src/*.rs")],
["results of concurrent lane operations against isolated reference runs"])
p("C28","Feature configurations agree",
"Every operation available in several feature configurations (none, allocation only, standard library, with and without stack spilling, with and without parallelism) builds there and gives identical results, return values and callback counts for identical inputs in each of them.",
["configurations","inputs"],"every feature subset of the crate and every operation available in it, over all inputs",
"The baseline runs the tests for one configuration at a time and never compares configurations.",
[L,"src/stable_sort.rs","src/merge_sort.rs"],
[("feature gates","src/lib.rs cfg attributes"),("allocator import for no_std","src/stable_sort.rs"),("stack spilling wrapper","src/lib.rs maybe_grow")],
["digests of the same workload run in every configuration"])
p("C29","Operations called from callbacks of others behave as when called alone",
"A comparator, key function or predicate may itself call operations of the library on other arrays, to any depth, on whichever thread it runs. Each inner operation gives the result, return value and callback calls it gives when called alone, and so does the outer one, also when an inner one panics and the callback catches it.",
["histories","schedules","inputs"],"every pair of operations, nesting depth, call position, content, layout, thread count and outcome of the inner call",
"Existing tests use callbacks that only compare their arguments, so state shared between calls (a scratch buffer, a lock, a counter) would never be seen.",
["src/*.rs","src/par/*.rs"],
[("buffers owned by one call","src/merge_sort.rs merge_sort, src/par/merge_sort.rs par_merge_sort"),("no global or thread-local state","src/*.rs"),("joins on the calling pool","src/par/quick_sort.rs, src/par/partition.rs, src/par/merge_sort.rs")],
["results and callback counts of nested operations against isolated runs"])
p("C30","Elements of any type are treated as in a standard slice",
"For any element type, whatever its size, alignment, padding and ownership, each operation on an array that lies in one piece leaves the arrangement that its slice counterpart leaves, or, where that one leaves freedom, one meeting the same contract over the same elements. Searches and predicates return what the slice methods return.",
["inputs"],"every element type of one byte to several kilobytes, plain, padded, over-aligned, heap-owning or borrowing, every content and length",
"Existing tests sort u32 only, so decisions depending on size or alignment of elements are seen on one side only.",
[L,"src/insertion_sort.rs","src/partition.rs","src/merge_sort.rs","src/partition_dedup.rs","src/par/merge_sort.rs"],
[("element moves through raw reads and copies","src/insertion_sort.rs, src/merge_sort.rs, src/partition.rs"),("index-width choice by size of key and index","src/lib.rs sort_by_cached_key"),("buffer sizing","src/merge_sort.rs BufGuard, src/par/merge_sort.rs")],
["final arrangements and return values against the methods of std slices"])
p("C31","Requests for memory turned down lose nothing",
"When a request for memory made during an operation is turned down, the operation completes all the same, panics, or ends the process through the allocation error handler. If it returns or panics, the view holds exactly its previous elements and whatever memory was obtained has been released as it was obtained; if it returns, it has done what it would have done otherwise.",
["fault_sequences","inputs"],"every operation and input, and every single request or all requests from a size on being turned down",
"Existing tests never run short of memory.",
["src/stable_sort.rs","src/merge_sort.rs","src/par/merge_sort.rs",L],
[("element buffer","src/merge_sort.rs BufGuard::new"),("growing stack of pending runs","src/merge_sort.rs RunVec::push"),("vectors of the parallel and cached sorts","src/par/merge_sort.rs, src/lib.rs")],
["an allocator that turns down requests, in processes of their own"])
p("C32","Total work, not just comparisons, is as documented",
"All steps a call executes, moving and bookkeeping included, are at most proportional to n log n for sorting, n for sorting one ascending, strictly descending or constant stretch (but for parallel sorting by cached key), n for selection, n log m for bulk selection of m indices, n for deduplication, reversal, containment and sortedness, and log n for searches. This holds for every content including adversarial, stride and element size.",
["inputs"],"every operation, length, content, adversary, stride, element size and thread pool",
"Existing tests measure nothing, and counting comparisons misses time spent on moving elements or walking indices.",
["src/*.rs","src/par/*.rs"],
[("insertion sort limited to short views","src/insertion_sort.rs, MAX_INSERTION in src/quick_sort.rs and src/merge_sort.rs"),("merging moves each element once per level","src/merge_sort.rs merge, src/par/merge_sort.rs par_merge"),("cycle walk of the cached sorts","src/lib.rs sort_by_cached_key")],
["basic blocks executed and bytes copied"])
p("C33","Parallel operations run on the current pool and are spread over it",
"Callbacks of a parallel operation run only on threads of the thread pool it is called in, or on the calling thread and the global pool. On long arrays without long presorted stretches, with callbacks that take time and at least four threads idle, the callback calls are spread over the threads, so that none makes most of them.",
["schedules","inputs","configurations"],"every parallel operation, pool, long input and layout",
"Existing tests see results only, which are the same if everything runs on one thread.",
["src/par/*.rs",L],
[("forks of the parallel quicksort and selection","src/par/quick_sort.rs recurse, src/par/partition.rs par_partition_at_indices"),("chunks and parallel merges","src/par/merge_sort.rs par_merge_sort, recurse, par_merge"),("parallel key evaluation","src/lib.rs par_sort_by_cached_key")],
["callbacks by thread"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema  # run with python3-vt
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
