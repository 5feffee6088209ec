import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,**({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
H=["histories","inputs"]
p("C01","Vector behaves as a plain list under every history of operations",
 "After any history of calls, a Teds\\Vector holds exactly the list that the same calls would produce on a plain list (push/pop/pushFront/popFront/insert/set/unset/setSize/clear/map/filter and array syntax), independently of reserve/shrinkToFit/capacity growth. Every return value, every reported size and the class of every exception (OutOfBounds for bad offsets, Underflow for empty pops, TypeError for illegal offset types) match that list, and capacity() is never below count().",
 H,"every operation sequence from every reachable (size, capacity) configuration, every offset in and around range",
 "The phpt files run a few fixed call sequences; growth and shrink thresholds, every insert/unset position at every size and capacity are not reached.",
 ["teds_vector.c","teds_vector.h","teds_util.h","teds.h"],[("capacity growth/shrink and memmove of entries","teds_vector.c push/insert/pop/popFront/offsetUnset/setSize"),("offset coercion","teds.h teds_get_offset")],
 ["return values and exceptions of every Vector method","toArray/values/foreach/json/debug views"],[("array.size/capacity/entries","number of live elements, allocated slots, storage","teds_vector.h")])
p("C02","Deque behaves as a plain list under every history of operations",
 "After any history of pushes, pops, inserts and removals at either end or in the middle, writes and clears, a Teds\\Deque holds exactly the list that the same calls would produce on a plain list, whatever the rotation and growth history of its ring buffer. Every return value, size, and exception class matches that list.",
 H,"every operation sequence from every reachable (size, capacity, ring offset) configuration",
 "Tests touch a handful of wrap-around situations; correctness must hold for every ring offset, size and capacity combination.",
 ["teds_deque.c","teds_util.h"],[("circular buffer with power-of-two mask","teds_deque.c teds_deque_entries_*")],["return values, exceptions and views of Deque"],[("offset/size/mask","ring buffer position, number of elements, capacity-1","teds_deque.c")])
p("C03","IntVector behaves as a plain list of ints whatever its internal width",
 "After any history of calls, a Teds\\IntVector holds exactly the list of integers that the same calls would produce on a plain list, for all 64-bit values, no matter which integer widths the stored values need or in what order they arrive. Return values, sizes and exception classes match that list, and non-integers are rejected with TypeError.",
 H,"every operation sequence over boundary values of each integer width, from every (size, capacity, width) configuration",
 "Tests use few values per width; each operation has a separate code path per width and per widening step, at every position and capacity.",
 ["teds_intvector.c","teds_intvector.h"],[("width promotion and per-width storage","teds_intvector.c")],["return values, exceptions and views of IntVector"])
p("C04","LowMemoryVector behaves as a plain list of arbitrary values",
 "After any history of calls, a Teds\\LowMemoryVector holds exactly the list (with exact value types: null, bools, ints of any size, floats, and anything else) that the same calls would produce on a plain list. Specialisation of the representation is never observable in values, return values, sizes, searches or exceptions.",
 H,"every operation sequence over a pool covering every specialised representation and every transition between them",
 "Tests cover few representation transitions; the space of (current representation x incoming type x operation x position) is not enumerated.",
 ["teds_lowmemoryvector.c"],[("type-tagged storage with promotion","teds_lowmemoryvector.c")],["return values, exceptions and views of LowMemoryVector"])
p("C05","BitVector behaves as a list of bools with consistent byte and word views",
 "After any history of calls, a Teds\\BitVector holds exactly the list of booleans the same calls would produce on a plain list, and rejects non-booleans. Its byte/16/32/64-bit readers and writers, setSize and toBinaryString/fromBinaryString read and write exactly the corresponding little-endian groups of those bits, with OutOfBoundsException when the group is not entirely inside the vector.",
 H,"every bit content up to a bound, every operation and offset, at all sizes around 8/16/32/64-bit and capacity boundaries",
 "Bit-shifting code depends on offset mod 8/64 and on stale bits beyond the end; tests exercise only a few sizes.",
 ["teds_bitvector.c"],[("bit set storage and shifting","teds_bitvector.c")],["return values, exceptions and views of BitVector"])
p("C06","Hash map and set keep unique keys in insertion order",
 "After any history of insertions, updates, removals and clears, Teds\\StrictHashMap and Teds\\StrictHashSet contain exactly one entry per strictly-equal key (=== with NAN equal to itself, 0.0 equal to -0.0), with the latest value, in order of first insertion since last removal. Lookups, membership, counts, return values and exceptions agree with that for present and absent keys of any type, including colliding hashes and after growth or many removals.",
 H,"every operation sequence over a key pool with forced hash collisions; every fill/removal/refill pattern across growth thresholds",
 "Tests use a few keys; chains with tombstones, rehash and compaction depend on the exact removal/insert history.",
 ["teds_stricthashmap.c","teds_stricthashmap.h","teds_stricthashset.c","teds_stricthashset.h","teds.c"],[("chained hash table with tombstones and packing","teds_stricthashmap.c, teds_stricthashset.c")],["return values, exceptions and views"])
p("C07","Tree map and set stay sorted, unique and balanced",
 "After any history of insertions, updates, removals, pops and clears, Teds\\StrictTreeMap and Teds\\StrictTreeSet contain exactly one entry per key distinct under stable_compare, iterate in ascending stable_compare order, and every lookup, first/last, return value and exception agrees with that sorted content. The structure remains a balanced red-black tree in every reachable state.",
 H,"every insertion and removal from every reachable tree shape up to a node bound",
 "Rebalancing has many symmetric cases selected by the local colouring; tests reach only some shapes.",
 ["teds_stricttreemap.c","teds_stricttreemap.h","teds_stricttreeset.c","teds_stricttreeset.h"],[("red-black insertion/removal fixup","teds_stricttreemap.c, teds_stricttreeset.c")],["return values, views, debugGetTreeRepresentation, debugIsBalanced"])
p("C08","Sorted-vector sets and maps stay sorted and unique",
 "After any history of operations, Teds\\StrictSortedVectorSet, Teds\\StrictSortedVectorMap and Teds\\SortedIntVectorSet contain exactly one entry per distinct key (under stable_compare), iterate in ascending order, and every lookup, positional read, first/last, pop/shift, return value and exception agrees with that sorted content. Construction from unsorted input with duplicates yields the same state as inserting one by one.",
 H,"every operation sequence over small ordered universes including integer-width boundaries; every input permutation with duplicates",
 "Binary search and insertion positions at each size/width/capacity are only sampled by tests.",
 ["teds_strictsortedvectorset.c","teds_strictsortedvectormap.c","teds_intvector.c","teds_vector.c","teds_mutableiterable.c"],[("binary search + insertion, sort + dedup","teds_strictsortedvectorset.c, teds_strictsortedvectormap.c, teds_intvector.c")],["return values, exceptions and views"])
p("C09","Heaps always yield elements in priority order",
 "After any history of adds, extracts and clears, Teds\\StrictMinHeap/StrictMaxHeap hold exactly the multiset of values added and not yet extracted, top() is a minimum/maximum under stable_compare, and draining by extract() or iteration yields every element exactly once in non-decreasing/non-increasing order. Empty heaps throw UnderflowException and are left usable.",
 H,"every add/extract sequence over a small ordered universe with duplicates; every internal layout up to a size bound",
 "Sift-up/down depends on the array layout; tests sample few layouts.",
 ["teds_strictheap.c","teds_vector.c"],[("binary heap sift up/down","teds_strictheap.c")],["return values and drained order"])
p("C10","MutableIterable behaves as a list of key-value pairs",
 "After any history of push/pop/setKeyAt/setValueAt/setSize/clear/shrinkToFit calls, a Teds\\MutableIterable holds exactly the list of (key, value) pairs the same calls would produce on a plain list, with repeated keys and keys of any type allowed. Return values, searches, sizes and exception classes match that list.",
 H,"every operation sequence from every (size, capacity) configuration",
 "Tests run a few fixed sequences.",["teds_mutableiterable.c","teds_mutableiterable.h"],[("pair array growth/shrink","teds_mutableiterable.c")],["return values, exceptions and views"])
p("C11","Immutable and empty collections never change after construction",
 "Teds\\ImmutableSequence, ImmutableIterable, ImmutableSortedIntSet, ImmutableSortedStringSet and the Empty* enums expose exactly the (ordered, or sorted and deduplicated) content of their input, and no sequence of calls, array syntax, iteration or re-initialisation changes what any reader or pre-existing iterator observes. Every mutator throws UnsupportedOperationException (or the documented exception) and leaves the content intact; positional and search operations agree with the content.",
 H,"every input up to a bound, every sequence of mutator attempts and reads",
 "Tests try a few mutators on one instance; they do not cover all inputs x call sequences.",
 ["teds_immutablesequence.c","teds_immutableiterable.c","teds_intvector.c","teds_immutablesortedstringset.c","teds_emptycollection.c"],[("throwing mutators; packed string/int set encodings","the listed files")],["views before and after every call"])
p("C12","CachedIterable is lazy, exactly-once and replayable",
 "For any source and any interleaving of reads by offset, searches, conversions and multiple iterators, a Teds\\CachedIterable shows the exact key/value sequence of its source, advances the source only as far as the furthest element requested so far, and produces each source element at most once. If the source throws, the exception reaches the call that needed the element, and elements already produced remain readable.",
 ["histories","inputs","fault_sequences"],"every sequence of read operations and iterator steps over sources of each length with an exception injected at every point",
 "Laziness depends on interleaving of iterators and random access with the generator position; tests show single interleavings.",
 ["teds_cachediterable.c"],[("incremental fetch from wrapped iterator","teds_cachediterable.c")],["source advancement log, returned values, exceptions"])
p("C13","Iterators stay consistent while the collection is modified",
 "While iterators over a mutable collection are open, any interleaving of iteration steps and modifications of the collection yields a defined result: each step either reports the end or returns an element currently in the collection with its current key/offset, elements neither added nor removed during the iteration are not repeated, nor skipped where documented (Vector, Deque, hash and tree collections adjust to insertions and removals before the position), and iteration ends once the remaining elements are exhausted. (A hash iterator whose current entry was removed moves on to its successor; after clear(), a shrinking setSize(), or changes made once the end was reported, only membership and safety are promised.)",
 ["histories","schedules"],"every interleaving of steps of up to two iterators with mutations, up to a depth, for each iterable mutable class",
 "Iterator repositioning depends on the relative position of each iterator and each mutation; tests show a few foreach loops.",
 ["teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_mutableiterable.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_internaliterator.h"],[("registered iterators adjusted on mutation","active_iterators / iterator lists in the listed files")],["InternalIterator valid/key/current/next/rewind and foreach"])
p("C14","stable_compare is a total order matching its documentation",
 "For all values, Teds\\stable_compare follows the documented ordering (null < false < true < numbers < strings < arrays < objects < resources, ints and floats numerically with int first on ties, strings bytewise, arrays by size, then position by position by key - int keys before string keys, int keys as unsigned, string keys by length then bytes - and recursively by value, objects by class name then identity). It is antisymmetric, transitive and total, and returns 0 exactly for values it treats as equal.",
 ["inputs"],"all pairs and triples over a universe of several hundred values including numeric boundaries, NAN, signed zero, nested arrays",
 "Order axioms quantify over triples; tests check a short list.",["teds.c","teds.h"],[("type-ranked comparison","teds.c teds_stable_compare*")],["Teds\\stable_compare results"])
p("C15","strict_equals, strict_hash and unique_values agree",
 "Teds\\strict_equals is an equivalence relation equal to === except that NAN equals NAN at any array depth; Teds\\strict_hash gives equal hashes for all strictly equal values (including 0.0 and -0.0, references, packed and hash arrays, cyclic arrays without hanging); and Teds\\unique_values returns the first occurrence of each distinct value in order, as a list that can be appended to.",
 ["inputs"],"all pairs over the universe; all lists up to a bound for unique_values",
 "Agreement of hash and equality quantifies over all pairs of representations.",["teds.c","teds.h","teds_util.h","teds_stricthashset.c"],[("recursive hashing and identity","teds.c, teds.h, teds_util.h")],["function results"])
p("C16","Iterable helper functions equal their documented polyfills",
 "For every iterable (arrays with any keys, references or holes, generators, Iterator and IteratorAggregate objects) and callback, any/all/none/find/fold/includes_value/array_value_first/array_value_last return exactly what the documented foreach polyfill returns, call the callback on the same elements in the same order and the same number of times, and propagate exceptions from the callback or iterator at the same point.",
 ["inputs","fault_sequences"],"all iterables up to a length over a value pool x all callback behaviours x an exception injected at every callback or iterator step",
 "Short-circuit points and exception points are sampled, not enumerated, by tests.",["teds.c"],[("traversal helpers","teds.c")],["return values, callback logs, iterator logs, exceptions"])
p("C17","binary_search finds the documented position in any sorted array",
 "For every array sorted by the comparer (by value or key, with gaps and any keys), Teds\\binary_search reports found exactly when an entry compares equal, and returns that entry or otherwise the largest entry not greater than the target (or null). Only elements of the array are passed to the comparer and its exceptions propagate.",
 ["inputs","fault_sequences"],"all sorted arrays up to a size x all targets x all hole patterns x exception at every comparison",
 "Off-by-one behaviour depends on size, holes and target position.",["teds.c"],[("bisection over packed/hash arrays with holes","teds.c binary_search")],["returned array"])
p("C18","Serialization, export and clone round-trip every collection",
 "For every collection and content, unserialize(serialize(x)), __set_state over its exported state, the class-specific serialize/unserialize pair and clone each give a distinct, fully usable collection of the same class with identical content, order and later behaviour (CachedIterable and the Empty* enums refuse to be cloned). The original is unchanged.",
 ["inputs","histories"],"all classes x all contents up to a bound, including every representation width and sizes around packing boundaries, followed by every single operation on the copy",
 "Encodings have per-width, per-length packing; tests round-trip a few instances and rarely operate on the copy.",
 ["teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_immutablesortedstringset.c","teds_deque.c","teds_vector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_mutableiterable.c","teds_immutableiterable.c","teds_cachediterable.c","teds_serialize_util.h"],[("__serialize/__unserialize/clone handlers","the listed files")],["views of the copy and of the original"])
p("C19","Malformed serialized data is rejected or yields a valid collection",
 "Feeding any malformed payload to unserialize, __unserialize, __set_state, fromPairs or a class-specific unserialize/fromBinaryString either throws an exception or yields a collection that satisfies all of its class invariants (sorted, unique, in range) and is fully usable. It never crashes, reads outside its input or exposes uninitialised memory.",
 ["inputs"],"all payload arrays up to a bound over an adversarial element pool, all byte strings up to a length, all truncations and single-byte mutations of valid payloads, for every class",
 "Tests list a few bad payloads; memory errors need particular length/count fields.",
 ["teds_intvector.c","teds_immutablesortedstringset.c","teds_bitvector.c","teds_lowmemoryvector.c","teds_stricthashmap.c","teds_stricttreemap.c","teds_strictheap.c","teds_cachediterable.c","teds_immutableiterable.c","teds_mutableiterable.c","teds_serialize_util.h"],[("payload validation","__unserialize/unserialize in the listed files")],["exception or invariants of the result, address sanitizer"])
p("C20","Stored values live exactly as long as they are reachable",
 "For every history, a value held by a collection stays alive exactly while the collection (or another holder) refers to it: values are released as soon as they are removed, overwritten, cleared or the collection is destroyed, no operation (including one that throws) leaks memory or releases a value twice, and reference cycles through any collection are reclaimed by the garbage collector without disturbing live values.",
 ["histories","fault_sequences"],"every operation sequence up to a depth over destructor-tracked objects and refcounted strings, for every class, with garbage collection forced and exceptions injected",
 "Leaks and double frees depend on the exact path (error paths, wrap-around, tombstones); the tests only notice crashes.",
 ["teds_vector.c","teds_deque.c","teds_lowmemoryvector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_mutableiterable.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_cachediterable.c","teds.c"],[("refcounting in every operation, get_gc handlers, free_obj","the listed files")],["WeakReference/destructor log, memory_get_usage, address sanitizer"])
p("C21","Re-entrant modification during an operation is memory safe",
 "If user code that runs inside an operation (a destructor, callback, generator, iterator method or comparison side effect) reads or modifies the same collection in any way, the operation completes or throws without memory corruption, and the collection remains a valid, usable collection afterwards.",
 ["histories","fault_sequences"],"every (operation with user-code hook) x (re-entrant action) pair from every start state, nested once",
 "Re-entrancy windows need the hook to run at a specific instant while storage is reallocated; tests contain a few hand-picked ones.",
 ["teds_vector.c","teds_deque.c","teds_lowmemoryvector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_mutableiterable.c","teds_immutablesequence.c","teds_cachediterable.c","teds_bitvector.c","teds_intvector.c","teds.c"],[("storage detached before destructors/callbacks run; sizes re-read after callbacks","the listed files")],["address sanitizer, invariants after the call"])
p("C22","An operation that throws leaves the collection unchanged",
 "Whenever an operation on an existing collection throws (bad offset, illegal type, empty collection, exception from a callback or source), the collection observed afterwards is exactly the one before the call, and later operations behave as if the failed call had not happened. A constructor or factory that fails propagates the original exception. (An exception thrown by the destructor of a value the operation has already released is not a failure of the operation.)",
 ["histories","fault_sequences"],"every failing operation from every reachable state up to a bound, with failures injected at every argument position and callback step",
 "Tests check that exceptions are thrown, seldom the state afterwards.",
 ["teds_intvector.c","teds_bitvector.c","teds_lowmemoryvector.c","teds_vector.c","teds_deque.c","teds_stricthashmap.c","teds_stricttreemap.c","teds_strictsortedvectormap.c","teds_mutableiterable.c","teds_cachediterable.c","teds_immutablesequence.c"],[("argument validation before mutation","the listed files")],["views before/after"])
p("C23","Clones, exported arrays and inputs never alias the collection",
 "Modifying a clone, an array obtained from a collection, the array or iterable it was built from, a PHP reference to a stored or passed variable, or a collection derived by map/filter never changes the collection, and modifying the collection never changes any of those.",
 ["histories"],"every class x every export/derivation x every single modification on either side, over contents with references and nested arrays",
 "Aliasing shows only when both sides are modified afterwards; tests rarely do so.",
 ["teds_vector.c","teds_deque.c","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_mutableiterable.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_cachediterable.c"],[("copying and dereferencing on input/output","the listed files")],["views of both sides"])
p("C24","All read views of a collection agree",
 "For every collection in every state, count(), isEmpty(), values(), keys(), toArray(), toPairs(), foreach, getIterator(), jsonSerialize/json_encode, var_export/var_dump, array casts, positional reads, contains/containsKey/indexOf, isset/empty/?? and first/last all describe the same content (LowMemoryVector deliberately shows no elements in debug dumps). Reading never changes it.",
 ["histories","inputs"],"every class x every content up to a bound x all view pairs",
 "Each view has its own traversal code; tests compare few views on few states.",
 ["teds_vector.c","teds_deque.c","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_mutableiterable.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_cachediterable.c","teds_immutablesortedstringset.c","teds_emptycollection.c"],[("per-view traversal","the listed files")],["all public readers"])
p("C25","No history reaches undefined behaviour",
 "No sequence of public operations, on any content, argument, malformed payload, re-entrant callback or fault, makes the extension read or write outside its storage, use freed or uninitialised memory, shift/convert/overflow in a way C leaves undefined, access a member of a null pointer, or violate an assumption it compiles in as unreachable (ZEND_ASSERT and ZEND_UNREACHABLE are optimiser promises in a release build). Hence results do not depend on the optimisation level, allocator or debug setting of the build.",
 ["histories","inputs","fault_sequences"],"the bounded histories of all other properties, executed on an instrumented build",
 "The test suite runs on a release build, where undefined behaviour is mostly silent.",
 ["teds_vector.c","teds_deque.c","teds_intvector.c","teds_lowmemoryvector.c","teds_bitvector.c","teds_stricthashmap.c","teds_stricthashset.c","teds_stricttreemap.c","teds_stricttreeset.c","teds_strictheap.c","teds_strictsortedvectormap.c","teds_strictsortedvectorset.c","teds_mutableiterable.c","teds_immutablesequence.c","teds_immutableiterable.c","teds_cachediterable.c","teds_immutablesortedstringset.c","teds.c","teds_util.h","teds_bswap.h"],[("assertions, index arithmetic, shifts and raw memory access","the listed files")],["process exit, sanitizer reports"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
