#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

RW = "rwmap/rwmap.go"
p("C01", "rwmap: concurrent map operations are linearizable",
  "Concurrent calls of Load, Store, LoadOrStore, LoadAndDelete, Delete, Swap, CompareAndSwap, CompareAndDelete and Clear on one RWMap behave as if each took effect atomically at one instant between its call and its return, on one ordinary map. No stored value is lost, resurrected after a delete or Clear, returned for another key, or handed to two deleting callers.",
  ["schedules", "histories"], "every interleaving of every set of concurrent operations, from every reachable internal state (clean, amended, promoted, with deleted and re-added keys, after Clear)",
  "The tests run one concurrent scenario (Range against Store/Load) under whatever schedule the machine produces; every other operation is only called from one goroutine, so no interleaving of the read/dirty hand-over is examined.",
  [RW], [("two-level read/dirty maps with atomic entries", RW), ("re-check of the read map under the mutex", RW), ("expunged marker on deleted entries while a dirty map exists", RW)],
  ["return values of the concurrent calls", "contents afterwards through Load/Range"])
p("C02", "rwmap: any sequential history agrees with an ordinary map",
  "For every sequence of operations, with any comparable key type and any value type, an RWMap returns what an ordinary Go map would return for the same sequence; CompareAndSwap and CompareAndDelete compare with Go's ==. Range calls back exactly once for every present entry with its current value, stops when told to, and may itself call any method of the map.",
  ["histories", "inputs"], "all operation sequences over all key and value types, including operations made inside a Range callback",
  "The tests check a few fixed sequences of two or three calls; states reached only after several misses, promotions, deletions and re-insertions are not visited.",
  [RW], [("promotion of dirty after enough misses", RW), ("dirty copy skips deleted entries", RW)], ["return values", "Range"])
p("C03", "rwmap: Len equals the number of entries when nothing is in flight",
  "Whenever no operation is in progress, Len equals the number of entries that Range visits, whatever operations ran before and however they overlapped, including Clear and calls that panicked because the key cannot be hashed. It is never negative and never drifts.",
  ["histories", "schedules", "fault_sequences"], "all sequential and concurrent histories, including Clear racing with writers and failed (panicking) calls",
  "TestLen makes nine sequential calls on one key; the counter is kept beside the map and only drifts when operations overlap, or in histories the test does not contain.",
  [RW], [("separate atomic counter adjusted per operation", RW), ("Clear resets or subtracts", RW)], ["Len", "SlowLen", "Range"])
p("C04", "rwmap: Range under concurrent modification is sound and complete",
  "Range never visits a key twice, visits every key that is present during the whole call, never visits a key that is absent during the whole call, and reports for a key only a value the map held for it at some moment during the call. This holds whatever other operations (including Clear and other Ranges) run concurrently or from the callback.",
  ["schedules", "histories"], "every interleaving of a Range with other operations",
  "TestConcurrentRange only overwrites existing keys while ranging; deletes, inserts, Clear and promotion races during a Range are never sampled.",
  [RW], [("Range promotes the dirty map under the mutex before iterating", RW)], ["the sequence of callback arguments"])
p("C05", "Concurrent containers are free of data races and memory-safe",
  "Any number of goroutines may use the same RWMap, SyncCache or RefreshCache (all three refresh-cache variants) at the same time with no locking of their own: no operation races on memory with another, with any value type, and a value written by one goroutine before storing it is fully visible to a goroutine that reads it from the container. A program built with Go's race detector and pointer checks runs them without a report.",
  ["schedules", "histories", "configurations"], "all overlapping pairs of operations on the concurrent types, all value types",
  "The test suite is not run with the race detector, and hardly any test uses two goroutines.",
  [RW, "synccache/synccache.go", "synccache/item.go", "refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"],
  [("atomic fields", "all concurrent packages"), ("mutexes", "all concurrent packages")], ["the Go race detector and checkptr while generated concurrent programs run"])
SC = "synccache/synccache.go"
p("C06", "synccache: an entry is served until its lifetime ends and never after",
  "From the moment a value is stored until its expiration, every lookup (Load, LoadOrStore, LoadAndDelete, CompareValueAndDelete, Range) sees it unless it was deleted, replaced or cleared; once it has expired (resolution one millisecond) no lookup returns it, and LoadOrStore stores the new value instead. Extending, shortening or resetting an entry's expiration takes effect at once, and otherwise the cache behaves like an ordinary map of the live entries.",
  ["histories", "inputs"], "all sequences of operations interleaved with the passing of time, all lifetimes including zero and negative",
  "The only test stores one entry and deletes it; nothing ever expires.",
  [SC, "synccache/item.go"], [("expiry check on every read path", SC), ("millisecond expiration stamp", "synccache/item.go")], ["return values against a fake clock"])
p("C07", "synccache: the deleted-callback runs exactly once per removed entry",
  "With a deleted-callback configured, every entry that is removed - by Delete, LoadAndDelete, CompareAndDelete, CompareValueAndDelete, Clear, because a lookup found it expired, or by the background sweep - is reported to the callback exactly once, with its own value. It is never called for an entry still in the cache or for an unsuccessful deletion, nor for a live value that was merely replaced by Store. The callback may itself use the cache.",
  ["histories", "schedules"], "all sequential histories with time, and all interleavings of concurrent removals of the same entry",
  "No test configures a callback.",
  [SC], [("callback fires only when the compare-and-delete succeeded", SC)], ["callback invocations"])
p("C08", "synccache: expired entries are swept in the background while started",
  "While a cache is started (from construction or Start until Close), entries that expire are removed and reported within two sweep periods (ten seconds) without anyone touching the cache, and unexpired entries survive every sweep. After Close nothing is swept until Start is called again, the entries remain usable, and other caches keep being swept.",
  ["histories", "configurations"], "all sequences of store, expiration change, Close, Start and waiting, over several caches",
  "No test waits for a sweep (five seconds real time) or calls Start or Close.",
  [SC], [("process-wide ticker goroutine over the registry of caches", SC)], ["callback times on a fake clock"])
p("C09", "synccache: concurrent operations are atomic and never yield expired values",
  "Concurrent Store, Load, LoadOrStore, LoadAndDelete, Delete, CompareAndDelete and CompareValueAndDelete calls behave as if executed one at a time in an order consistent with their calls and returns, where an expired entry counts as absent (one whose lifetime ends during a call may count as either). Range visits no key twice, no expired or absent entry, and every entry that lives in the cache during the whole call. In particular, callers racing in LoadOrStore on a missing or expired key all end up with one live entry, stored by exactly one of them. Concurrent changes of one entry's expiration (AddExpiration, SetExpiration) are atomic too: none is lost.",
  ["schedules", "histories"], "every interleaving of concurrent operations, with live, expired and missing entries",
  "There is no concurrent test of the cache.",
  [SC, "synccache/item.go"], [("retry loop in LoadOrStore", SC), ("compare-and-delete by entry identity", SC), ("atomic expiration stamp", "synccache/item.go")], ["return values of the concurrent calls"])
RC = ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"]
p("C10", "refreshcache: Get refreshes exactly when the value is missing or too old",
  "In all three variants, Get returns the last successfully refreshed value without calling the refresh function while that value is younger than the maximum age, and otherwise calls it exactly once with the caller's arguments and context and returns what it returned; a negative maximum age never expires, zero always refreshes, and no maximum age however large makes a never-filled or cleared cache look filled. Refresh always calls the function; Clear makes the next Get refresh; the refresh and clear functions see the previous value under the old-value context key, and Raw/Last/LastErr report the stored state without refreshing.",
  ["histories", "inputs", "configurations"], "all sequences of calls and waiting times, all ages, all three package variants",
  "The tests print results without asserting on them, and cover only one of the three variants.",
  RC, [("age check against the last success stamp", "Get"), ("double check under the lock", "Get")], ["calls of the refresh function and return values on a fake clock"])
p("C11", "refreshcache: a failing refresh never poses as, or destroys, good data",
  "A refresh that returns an error or panics never becomes a cached success: the error reaches the caller, the last good value is kept as the old value, and the next Get refreshes again - except that with an error age set, Get returns the same error without calling the function until that age has passed. After a later success no earlier error is reported any more, and the cache stays usable after any failure.",
  ["fault_sequences", "histories", "configurations"], "all sequences of successful, failing and panicking refreshes with any waiting times, ages and variants",
  "One test prints the result of a failing refresh; no test asserts on errors, none makes the refresh function panic.",
  RC, [("error and success stamps", "Get/Refresh")], ["return values, calls of the refresh function, Raw"])
p("C12", "refreshcache: concurrent Gets share one refresh and see consistent values",
  "At most one refresh of a cache runs at a time, and concurrent Gets that find the value missing or too old cause one successful refresh and all return its value. Concurrent Get, Refresh and Clear calls behave as if executed one at a time in an order consistent with their calls and returns.",
  ["schedules", "histories"], "every interleaving of concurrent Get, Refresh and Clear calls, with succeeding and failing refreshes",
  "There is no concurrent test of any refresh cache.",
  RC, [("mutex around the refresh with a re-check inside", "Get"), ("store order of value and stamp", "Get/Refresh")], ["return values and the record of refresh calls"])
DL = ["dllist/dllist.go", "dllist/element.go"]
p("C13", "dllist: every operation history keeps the list a correct sequence",
  "After any sequence of pushes, inserts, moves, swaps, removals and clears, a list holds exactly the elements a plain sequence would hold, in the same order, seen identically forwards (Front/Next/Range), backwards (Back/Prev), by index (Get), as a slice and through Len. A zero-value list is ready to use.",
  ["histories"], "all operation sequences on one or more lists",
  "The tests replay a handful of fixed sequences on lists of at most four elements; adjacent/end special cases of Swap and the moves are mostly not reached.",
  DL, [("circular links through a root element", DL[0]), ("length counter", DL[0])], ["Front/Back/Next/Prev/Get/Slice/Range/Len"])
p("C14", "dllist: element handles stay valid, and stale or foreign ones are inert",
  "The element returned by an insertion keeps denoting that value until it is removed or its list is cleared or sorted. Using an element that is no longer in the list, or belongs to another list, with any operation changes no list, and a removed or cleared element has no neighbours.",
  ["histories"], "all sequences mixing operations with live, removed, cleared, sorted-away and foreign element handles over several lists",
  "The tests remove one element twice and try one foreign element; handles kept across Clear or Sort are never used.",
  DL, [("owner pointer in each element", DL[1])], ["contents of all lists after each call"])
p("C15", "dllist: sorting and splicing preserve the elements and their order",
  "Sort leaves a permutation of the same values, in ascending order, with equal values in their original order. Splicing a list into another, at an end or right after a given element, inserts exactly its values in their order and leaves the source unchanged - also when a list is spliced into itself.",
  ["inputs", "histories"], "all list contents, comparison functions, positions and pairs of lists including the same list twice",
  "One three-element sort is tested; splicing at a given element is not tested at all.",
  [DL[0]], [("recursive partition sort", "Sort"), ("length snapshot while splicing", "Push*List*")], ["Slice"])
p("C16", "lhashmap: a map that iterates in most-recently-used order",
  "A linked hash map returns for every key the last value stored and not removed, and Range visits every entry exactly once from the most recently stored or loaded key to the least recently used, stopping when told to. Removing or clearing leaves no trace: the map and its order always describe the same set of keys.",
  ["histories"], "all sequences of Store, Load, Remove, Clear and Range",
  "One test stores and loads three keys; order, removal and clearing are untested.",
  ["lhashmap/lhashmap.go"], [("hash map from key to list element plus a list in use order", "lhashmap/lhashmap.go")], ["Load, Len, Range"])
p("C17", "heap: every operation preserves the heap order and the elements",
  "After Init on arbitrary contents and any sequence of Push, Pop, Remove and Fix, the container is a valid heap holding exactly the elements pushed and not removed; Pop returns a least element by the container's order, Remove returns the element that was at the given index. This holds for any implementation of the heap interface and for MinHeap and MaxHeap (where the order is reversed).",
  ["histories", "inputs"], "all element types, orders with duplicates, and operation sequences",
  "The tests use integer min-heaps of fixed shape; MaxHeap and interface implementations other than the built-in one are only touched by an example.",
  ["heap/heap.go", "heap/minheap.go", "heap/maxheap.go"], [("sift up/down", "heap/heap.go")], ["contents of the container"])
p("C18", "pqueue: elements leave in priority order with their own values",
  "A minimum (maximum) priority queue always pops a (priority, value) pair that was pushed and not yet popped, whose priority is the smallest (largest) among those queued, for all integer priorities, duplicates and interleavings of Push and Pop. Nothing is lost or duplicated and Len is exact.",
  ["histories", "inputs"], "all interleavings of Push and Pop with arbitrary priorities including extremes and duplicates",
  "The tests push a monotone run of distinct priorities and pop everything.",
  ["pqueue/pqueue.go", "pqueue/minqueue.go", "pqueue/maxqueue.go"], [("heap of items", "pqueue/pqueue.go")], ["Pop, Len"])
p("C19", "ring: agrees with the standard circular list on every history",
  "For every sequence of New, Next, Prev, Move, Link, Unlink, Len and Do, on one ring or several, rings behave exactly like Go's container/ring: links in both directions stay consistent, joining and splitting lose no element, and a zero-value ring is a one-element ring.",
  ["histories"], "all operation sequences, including linking a ring to itself, negative and large counts",
  "The tests cover fixed shapes up to ten elements and two link patterns.",
  ["ring/ring.go"], [("doubly linked circular nodes, lazily initialised", "ring/ring.go")], ["Next/Prev/Do/Len traversals"])
p("C20", "set: operations satisfy set algebra",
  "A Set behaves as a mathematical finite set: insertion and removal report whether they changed it, equality, subset and superset tests and union, intersection, difference and symmetric difference give the mathematical answer for all arguments, including empty sets and a set combined with itself. Combining sets changes none of the operands, and clones and results share nothing with them.",
  ["inputs", "histories"], "all pairs and lists of sets and all update sequences",
  "Each operation is tested on one pair of sets of ten integers, mostly only by size; IsSupperSet is not tested.",
  ["set/set.go"], [("Go map with element keys", "set/set.go")], ["Slice/Contain/Len of operands and results"])
p("C21", "genmap: map methods mean what their names say on every history",
  "For every sequence of operations a GenMap returns what an ordinary map would: Load, LoadOrStore (the value now in the map and whether it was already there), LoadOrStoreFunc (calls the function only when needed), LoadAndStore and LoadAndDelete (the previous value), Keys, Values, Range, EqualFunc, DeleteFunc and the copying methods. Clone and the copy methods transfer every entry and leave the maps independent, while From and Map share storage.",
  ["histories", "inputs"], "all operation sequences on one or two maps",
  "Six tests store two keys and read them back; the combined operations are untested.",
  ["genmap/genmap.go"], [("thin methods on a Go map", "genmap/genmap.go")], ["return values and contents"])
VE = ["vec/vec.go"]
p("C22", "vec: agrees with a plain sequence on every history",
  "For every sequence of operations a Vec holds exactly what a plain slice treated the same way would hold: Push, Pop, Insert, Remove, Delete, Cut, Replace, Set, Swap, Reverse, SplitOff, Compact, Clear, capacity changes and the rest change what they say and nothing else, return the affected values as they were, and out-of-range arguments that the method tolerates change nothing. Searches, comparisons and equality tests give the answer of a linear scan.",
  ["histories", "inputs"], "all operation sequences with all in- and out-of-range arguments",
  "Each method is tested at most once on a six-element vector; Cut, Delete, ConpareAndRemove, Compare and out-of-range arguments are not tested.",
  VE, [("methods over one backing slice", "vec/vec.go")], ["Slice and return values"])
p("C23", "vec: sorting and ordered search are correct for every element type",
  "Sort and SortStable leave a permutation of the elements in ascending order (stable: equal elements keep their order) for integers, unsigned integers, floats (NaN before all other values), strings (digits compared as numbers) and named types or pointers to these without configuration, and for any type with a supplied order. On sorted contents BinarySearch finds every present element and otherwise gives the insertion position; Min, Max, IsSorted and Compact agree with the same order.",
  ["inputs", "configurations"], "all contents of all supported element types and all consistent supplied orders",
  "Only vectors of a few integers are sorted and searched; floats with NaN, strings, unsigned and pointer elements are never tried.",
  VE, [("comparison functions chosen from the element type by reflection", "vec/vec.go")], ["Slice, BinarySearch, Min, Max, IsSorted"])
p("C24", "vec: clones, split-off parts and cut-out values are independent",
  "The results of Clone, SplitOff, Cut and CloneToSlice hold the right values and stay untouched by anything done later to the original vector, and nothing done to them affects the original; this includes changing the comparison functions of either. Pushing or inserting a vector's own contents into itself inserts the values as they were.",
  ["histories"], "all sequences of later modifications on both sides, all capacities",
  "One test splits a vector and looks at both halves once, without modifying either; Clone and Cut are untested.",
  VE, [("copy on clone/split", "vec/vec.go")], ["contents of both vectors"])
HR = ["hashring/hashring.go"]
p("C25", "hashring: a key maps to a member node determined by the node set alone",
  "GetNode returns a node that is currently in the ring (the zero value if the ring is empty), for every key, including keys that coincide with a node's position. The answer depends only on the key, the replica count and the current set of nodes - not on the order or grouping in which nodes were added, removed or reset, nor on the process - so any two rings with the same nodes agree on every key.",
  ["inputs", "histories", "configurations"], "all keys, node names, replica counts, and all add/remove/reset histories leading to the same node set",
  "The tests ask for one key and check only that the answer is not empty.",
  HR, [("sorted virtual nodes with binary search", "GetNode"), ("node set kept beside the virtual nodes", "AddNodes/RemoveNodes")], ["GetNode"])
p("C26", "hashring: membership changes move only the keys they must, load is spread",
  "When nodes are added, a key either keeps its node or moves to one of the added nodes; when nodes are removed, exactly the keys of the removed nodes move, and adding them back restores the previous mapping. With many replicas every node receives a share of the keys that is neither negligible nor nearly everything.",
  ["inputs", "histories", "configurations"], "all node sets, changes and keys",
  "The tests count virtual nodes after one addition and one removal; no key is ever compared before and after.",
  HR, [("consistent hashing with virtual nodes", "hashring/hashring.go")], ["GetNode before and after changes"])
TR = ["tree/tree.go"]
p("C27", "tree: parent and child links stay consistent and relations are true",
  "After any sequence of attaching, replacing, detaching and moving subtrees with SetLeft and SetRight, a node's parent is exactly the node that has it as a child, no node is in two places, and the displaced child is returned and becomes a root. All relation queries (root, leaf, left, right, sibling, uncle, grandparent, child, ancestor, descendant, the Has... forms, Layer, MaxDepth) give the answer of the tree as drawn.",
  ["histories", "inputs"], "all tree shapes and all attach/move/detach sequences that do not create a cycle",
  "The relation tests use one complete tree of seven nodes, built once and hardly changed.",
  TR, [("parent pointer updated by SetLeft/SetRight", "tree/tree.go")], ["Parent/Left/Right and the query methods"])
p("C28", "tree: building, traversals and drawing cover every node in order",
  "BuildTree of a list gives the complete binary tree whose level-order traversal is that list. On any tree, TraversalBFS visits every node exactly once level by level from left to right, TraversalDFS exactly once in pre-order, and DrawTree prints the level-order values with one line per level.",
  ["inputs"], "all lists and all tree shapes, including one-sided and deep ones",
  "Complete trees of seven nodes only; drawing is untested.",
  TR, [("queue based build, recursive level collection, explicit stack", "tree/tree.go")], ["returned node lists and text"])
p("C29", "All containers work on 32-bit platforms",
  "Every container behaves the same on 32-bit platforms as on 64-bit ones: no operation of any container panics or misbehaves because of the platform's word size, wherever the container is embedded and whatever its element types are.",
  ["configurations", "histories"], "all containers and histories of the other properties, built for a 32-bit architecture, with containers at every alignment",
  "The suite runs on one 64-bit architecture; 64-bit atomic fields are only misaligned on 32-bit ones.",
  [RW, SC, "synccache/item.go"] + RC, [("alignment of 64-bit atomic fields", "rwmap, synccache, refreshcache*")], ["generated histories on a 386 build"])
p("C30", "Memory: use alone never makes a container grow, what is removed is let go",
  "However long a container is in use, the memory it holds is bounded by the largest contents it has had at one time (up to a constant factor and a small overhead), not by the number of operations performed: entries, elements, nodes and values that were removed, replaced, popped, cut off, cleared, or that expired and were looked up or swept, do not accumulate, for any mix of operations repeated any number of times. A handle to an element removed from a list does not keep other removed elements alive. Creating and closing caches does not accumulate memory or goroutines either.",
  ["histories"], "all endless histories that keep the contents small, for every container",
  "A leak changes no result of any call; the tests make a few calls and look at results.",
  [RW, SC, "lhashmap/lhashmap.go", "dllist/dllist.go", "vec/vec.go"] + RC, [("expunging of deleted entries when the dirty map is rebuilt, removal from the dirty map", "rwmap/rwmap.go"), ("registry of started caches", SC)], ["heap in use after many rounds of a cycle of operations"])
p("C31", "A caller's function that panics leaves every container intact and usable",
  "A function that the caller handed to a container (callback of Range and other iterations, comparison, search, constructor, refresh, clear or deleted function), a comparison of values that cannot be compared, or the hashing of a key that cannot be hashed may panic or end its goroutine during a call. The failure then reaches the caller, and the container stays usable: no later operation blocks, a call that only reads (and a failed CompareAndSwap or CompareAndDelete) leaves the contents as they were, a sort keeps exactly the elements, an entry whose deleted-callback failed is gone and was reported once, a constructor that failed stores nothing, and a failed refresh is never a success and keeps the old value.",
  ["histories", "fault_sequences"], "all histories in which any call of any such function fails, by panic or by runtime.Goexit",
  "The tests use functions that return.",
  [RW, SC, "genmap/genmap.go", "dllist/dllist.go", "vec/vec.go"] + RC, [("unlocking and bookkeeping in deferred functions", "rwmap/rwmap.go, refreshcache*/"), ("removal before the deleted-callback", SC)], ["results of later operations", "contents after the failure", "the recovered value"])
p("C32", "Costs: operations stay within the complexity of their data structure",
  "On a container of n elements, for every content and history: heap operations make O(log n) comparisons and swaps (Init O(n)), binary search O(log n) comparisons, the sorts of vec and dllist O(n log n) comparisons and O(n) memory also on sorted, constant or adversarial inputs, searches and comparisons of whole vectors O(n). Operations on single elements of dllist, lhashmap, set, genmap, rwmap, synccache, ring, tree, and at the end of a vec, take amortised constant time and allocation; pqueue operations and hashring lookups logarithmic time. Operations on the whole container (Range, clones, conversions, splices, set algebra, traversals) take time and memory in proportion to the sizes involved.",
  ["inputs", "histories"], "all contents, orders and histories, at every size",
  "The tests use some dozens of elements and look at results only.",
  ["heap/heap.go", "vec/vec.go", "dllist/dllist.go", RW, SC, "lhashmap/lhashmap.go", "tree/tree.go", "set/set.go", "hashring/hashring.go"], [("sift up and down", "heap/heap.go"), ("promotion of the dirty map after as many misses as it has entries", RW)], ["calls of the comparison functions", "bytes allocated", "processor time of long runs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
