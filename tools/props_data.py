POOL = "sync.Pool: Get returns a value put before and not yet handed out, or calls New; Put hands the value over (ghost model)"
SEQ = "operations on one object do not run concurrently (the types offer no synchronisation)"
BIG = "fewer than 2^62 elements"

prop("P01", "Linked stack is last-in first-out",
 "After any sequence of pushes and pops on a linked stack, a pop or peek returns the most recently pushed element that has not been popped, or reports failure exactly when no such element exists, and the length is the number of such elements. Elements below the top are never changed, lost or duplicated by any operation, however the stack's storage cells are recycled. Two stacks never influence each other.",
 ["inputs", "histories"], "all element types and values, all histories of pushes, pops and peeks of any length, every choice the cell pool may make between recycled and new cells",
 "No test covers this package; a sampled history cannot cover every interleaving of growth, drain and cell reuse, which is where a linked structure loses or exposes the wrong element.",
 ["dsx/linkedx/stackx/stackx.go"], [("linking of cells at the head", "dsx/linkedx/stackx/stackx.go Push, Pop"), ("cell recycling", "dsx/linkedx/stackx/stackx.go sync.Pool")],
 state=[("head", "top cell", "Stack.head"), ("length", "element count", "Stack.length")], observe=["Push", "Pop", "Peek", "Len"], assumptions=[POOL, SEQ, BIG])

prop("P02", "Slice stack is last-in first-out",
 "After any sequence of pushes and pops on a slice-backed stack, a pop or peek returns the most recently pushed element that has not been popped, or reports failure exactly when there is none. The length and the emptiness test always agree with the number of such elements, and no operation alters the elements below the top.",
 ["inputs", "histories"], "all element types and values, all histories of any length",
 "One test pushes and pops a handful of integers; the guarantee is about every history.",
 ["dsx/slicex/stackx/stackx.go"], [("append and reslice", "dsx/slicex/stackx/stackx.go Push, Pop")], observe=["Push", "Pop", "Peek", "Len", "IsEmpty"], assumptions=[SEQ, BIG])

prop("P03", "Linked queue is first-in first-out",
 "After any sequence of enqueues and dequeues on a linked queue, a dequeue or peek returns the oldest element that has not been dequeued, or reports failure exactly when the queue is empty. No element is lost, duplicated or reordered, also when the queue drains completely and its cells are reused.",
 ["inputs", "histories"], "all element types and values, all histories of any length, every choice of the cell pool",
 "No test covers this package; drain-and-refill and cell reuse only show in particular histories.",
 ["dsx/linkedx/queuex/queuex.go"], [("linking at the tail, unlinking at the head", "dsx/linkedx/queuex/queuex.go Enqueue, Dequeue"), ("cell recycling", "dsx/linkedx/queuex/queuex.go sync.Pool")], observe=["Enqueue", "Dequeue", "Peek", "IsEmpty"], assumptions=[POOL, SEQ, BIG])

prop("P04", "Ring queue is a bounded FIFO of exactly its capacity",
 "A ring queue created for n elements accepts an element exactly when it holds fewer than n and returns elements in the order they were accepted, through any number of wrap-arounds; a refused or failed operation changes nothing. Capacity, emptiness, fullness, peek and head always agree with the elements held. Creation with a non-positive capacity yields no queue.",
 ["inputs", "histories"], "all positive capacities below 2^40, all element types and values, all histories",
 "The one test runs a single capacity through a short history; wrap-around positions and the exact capacity limit need every capacity and history.",
 ["dsx/slicex/queuex/queuex.go"], [("modular head and tail indices", "dsx/slicex/queuex/queuex.go Enqueue, Dequeue"), ("one spare slot tells full from empty", "dsx/slicex/queuex/queuex.go New")], observe=["New", "Enqueue", "Dequeue", "Peek", "Head", "Cap", "IsEmpty", "IsFull"], assumptions=[SEQ, "capacity below 2^40"])

prop("P05", "Deque keeps both ends in order",
 "After any sequence of pushes and pops at either end of a deque, its content is the sequence those operations define: a pop or peek at an end returns the element at that end or reports failure exactly when the deque is empty. No element is lost, duplicated or reordered, also after draining from either end and when cells are reused.",
 ["inputs", "histories"], "all element types and values, all histories of the six operations, every choice of the cell pool",
 "One test runs a fixed history; stale links appear only after particular drains and reuses.",
 ["dsx/linkedx/dequex/dequex.go"], [("double links", "dsx/linkedx/dequex/dequex.go PushFront, PushBack, PopFront, PopBack"), ("cell recycling", "dsx/linkedx/dequex/dequex.go sync.Pool")], observe=["PushFront", "PushBack", "PopFront", "PopBack", "PeekFront", "PeekBack"], assumptions=[POOL, SEQ, BIG])

prop("P06", "Linked list edits act on exactly the given position",
 "Appending, inserting at an index from 0 to the length, and removing at an index below the length change a linked list as they would a sequence: every other element keeps its relative position, and the length follows. Out-of-range indices are refused without any change. Lookup by index and iteration (which stops when the visitor says so) present exactly that sequence.",
 ["inputs", "histories"], "all element types and values, all integer indices, all histories, every choice of the cell pool",
 "One test runs a fixed history; head, tail and length can drift apart only after particular combinations of inserts and removals at the boundaries.",
 ["dsx/linkedx/listx/listx.go"], [("walk to the predecessor and relink", "dsx/linkedx/listx/listx.go Insert, Remove"), ("tail bookkeeping", "dsx/linkedx/listx/listx.go Append, Remove")], observe=["Append", "Insert", "Remove", "At", "Iterate", "Len"], assumptions=[POOL, SEQ, BIG, "the visitor does not modify the list"])


prop("P07", "Slice-backed list edits act on exactly the given position",
 "Appending, inserting at an index from 0 to the length, and removing at an index below the length change a slice-backed list as they would a sequence: every other element keeps its relative position and the length follows. Removal and lookup outside the range report failure and change nothing. Lookup by index and iteration, which stops when the visitor says so, present exactly that sequence.",
 ["inputs", "histories"], "all element types and values, all indices (insertion: from 0 to the length), all histories, lists with and without spare capacity",
 "No test covers this package; in-place shifting is right or wrong depending on the capacity and position.",
 ["dsx/slicex/listx/listx.go"], [("append, then shift in place", "dsx/slicex/listx/listx.go Insert, Remove")], observe=["Append", "Insert", "Remove", "At", "Iterate", "Len", "Cap"], assumptions=[SEQ, "the visitor does not modify the list"])

prop("P08", "Slice edits clamp their indices and change only what they name",
 "Every editing method of the slice helper (insert, expand, splice, cut, delete, delete by replacement, push, pop, shift, unshift, extend, set, sub-slicing) brings out-of-range indices into range, or ignores the call where it says so, for every integer and never panics. The result is the original sequence with exactly the named window removed, replaced or extended, all other elements keeping value and order. Values handed in as arguments are copied in unchanged and a caller's separate storage for them is never written.",
 ["inputs"], "all slices (any length, any spare capacity), all element types, all integer indices including the smallest and largest, all argument lists",
 "The tests pass a few in-range indices; swapped, negative, huge and boundary indices and aliasing through spare capacity need every case.",
 ["dsx/slicex/slicex.go"], [("index clamping", "dsx/slicex/slicex.go preprocIndexException"), ("nested appends of splice", "dsx/slicex/slicex.go Splice")], assumptions=[SEQ, "an extension by less than 2^40 elements"])

prop("P09", "Reordering and copying keep exactly the same elements",
 "Reversing a slice puts element k at the mirrored position; rotating by any integer, negative or larger than the length included, moves every element by that distance modulo the length; repeating produces exactly the given number of copies of the sequence (none for zero or less); shuffling, whatever the random numbers, only rearranges the elements in place. A copy holds the same elements in storage of its own, so that later changes to either side never show on the other.",
 ["inputs"], "all slices of any length and spare capacity, all element types, all integers as distances and counts (product below 2^40)",
 "The tests use one or two distances on one small slice; modulo arithmetic of negative distances, shared storage and every random outcome need every input.",
 ["dsx/slicex/slicex.go"], [("modular rotation", "dsx/slicex/slicex.go Rotate"), ("two-ended swap loop", "dsx/slicex/slicex.go Reverse"), ("fresh storage", "dsx/slicex/slicex.go Copy, Repeat"), ("exchanges of two elements", "dsx/slicex/slicex.go Shuffle")], assumptions=[SEQ, "length times repeat count below 2^40", "math/rand returns numbers in the range asked for; that exchanging two elements of a rearrangement gives a rearrangement is an axiom"])

prop("P10", "Splitting and batching partition a slice",
 "Splitting a slice by non-negative piece sizes, or batching it by any size, yields consecutive pieces that together are exactly the original sequence: nothing is lost, duplicated or reordered. Each piece has its requested size as long as elements remain, a shorter one only where they run out; a remainder forms one last piece. Batches are all full except possibly the last, which is never empty, and a non-positive batch size counts as one.",
 ["inputs"], "all slices, all lists of non-negative piece sizes up to the largest integer, all batch sizes",
 "The tests split one slice two or three ways; sizes that overrun, are zero or near the integer limit, and lengths that do or do not divide need every input.",
 ["dsx/slicex/slicex.go"], [("running end position", "dsx/slicex/slicex.go Split"), ("number of full batches", "dsx/slicex/slicex.go Batch")], assumptions=[SEQ, "fewer than 2^40 pieces"])

prop("P11", "Visiting and filtering ask once per element, in order",
 "Filtering calls its predicate exactly once per element, in order, and keeps exactly the elements for which it answered yes, in their original order. Searching by predicate asks elements in order, stops at the first yes and reports its index, or reports absence after asking all. The visiting methods call the visitor exactly once per element, in order, with the right index. The predicate may answer differently each time.",
 ["inputs", "callback behaviour"], "all slices, all element types, every visitor and predicate, stateful ones included, that leaves the slice alone",
 "Tests use pure predicates on one slice; in-place compaction can overwrite elements that are still to be asked about in particular keep patterns only.",
 ["dsx/slicex/slicex.go"], [("in-place compaction", "dsx/slicex/slicex.go Filter"), ("early exit", "dsx/slicex/slicex.go IndexOf, Contains")], assumptions=[SEQ, "visitors and predicates do not modify the slice and do not panic"])

KEYS = "keys are totally ordered by < and == (no NaN among floating-point keys)"

prop("P12", "A skip list map behaves as a map",
 "After any sequence of sets, deletions and clears, looking up a key in a skip list map returns the value most recently set for it and not deleted since, or reports absence exactly when there is none; a deletion reports whether the key was there. An operation on one key never affects another, and the length is the number of keys present. This holds whatever tower heights the random generator picks.",
 ["inputs", "histories", "random choices"], "all ordered key types (total order), all value types, all histories, every outcome of the height generator",
 "The test inserts six keys once; broken links at one level only show for particular heights, orders and deletions.",
 ["dsx/mapx/sklmapx/sklmapx.go"], [("search path per level", "dsx/mapx/sklmapx/sklmapx.go search"), ("relinking of every level", "dsx/mapx/sklmapx/sklmapx.go insert, delete")], state=[("chain", "level-0 list between head and tail", "skl.head, skl.tail"), ("towers", "next pointers per level", "sknode.next"), ("len", "number of keys", "skl.len")], observe=["Set", "Get", "Del", "Len", "Clear"], assumptions=[SEQ, BIG, KEYS])

prop("P13", "Skip list enumeration is complete and in key order",
 "The keys of a skip list map are listed in strictly increasing order, each exactly once, with the values in the same order; conversion to a built-in map yields exactly the same entries, and these results are the caller's own. An iterator over a map at rest yields every entry in key order and then reports the end as often as it is asked; after a successful seek it stands on that key and continues with the next larger one; after an unsuccessful seek, and after a rewind, it starts over.",
 ["inputs", "histories"], "all maps reachable by any history, all ordered key types, all sequences of iterator calls on a map that is not changed meanwhile",
 "The test walks three keys; the end of the list and every level structure matter for all maps.",
 ["dsx/mapx/sklmapx/sklmapx.go"], [("level-0 walk", "dsx/mapx/sklmapx/sklmapx.go Iterator.Next"), ("seek by search", "dsx/mapx/sklmapx/sklmapx.go Iterator.Seek")], observe=["Keys", "Values", "ToMap", "Iterator", "Next", "Seek", "Rewind"], assumptions=[SEQ, "fewer than 2^40 elements", KEYS, "String is only cross-checked (it formats with fmt)"])

prop("P14", "An ordered map is a map that enumerates in key order",
 "After any sequence of sets, deletions and clears, an ordered map returns for each key the value most recently set and not deleted since, or reports absence, and its length is the number of keys present; an operation on one key never affects another. Keys are listed in strictly increasing order, each exactly once; values come in the same order and each belongs to its key; ranging presents exactly these pairs in this order, each once, and stops as soon as the visitor says so.",
 ["inputs", "histories", "callback behaviour"], "all ordered key types (total order), all value types, all histories, every visitor that leaves the map alone, every outcome of the skip list's height generator",
 "The test sets and lists a few keys; the two inner structures must agree after every history.",
 ["dsx/mapx/ordmapx/ordmapx.go", "dsx/mapx/sklmapx/sklmapx.go"], [("built-in map for values, skip list for order", "dsx/mapx/ordmapx/ordmapx.go Set, Del, Clear")], state=[("m", "key to value", "OrdMap.m"), ("skl", "keys in order", "OrdMap.skl")], observe=["Set", "Get", "Del", "Len", "Clear", "Keys", "Values", "Range"], assumptions=[SEQ, "fewer than 2^40 elements for listings", KEYS, "the visitor does not modify the map"])

prop("P15", "The concurrent map behaves as if operations came one at a time",
 "Every operation of the goroutine-safe map takes effect at one instant between its call and its return: lookups, membership, size and the key and value listings report one state of the map at that instant (each key, or the value of each key, exactly once), and a set, deletion or clear changes exactly what it names. This holds whatever other goroutines call at the same time; no access to the map is unsynchronised, every lock taken is released, and listings are the caller's own.",
 ["inputs", "schedules", "histories"], "all key and value types, any number of goroutines, all schedules and histories of calls",
 "Tests cannot enumerate schedules; a missing or weaker lock shows only in rare interleavings.",
 ["dsx/mapx/syncmapx/syncmapx.go"], [("read-write lock around every access", "dsx/mapx/syncmapx/syncmapx.go")], state=[("m", "the map", "Map.m, guarded by Map.mtx")], observe=["Get", "Has", "Size", "Keys", "Values", "Set", "Delete", "Clear"], assumptions=["sync.RWMutex excludes writers and admits readers as documented", "keys equal themselves (no NaN)", "hash and equality of keys do not panic (no unhashable dynamic key types)"], race=True,
 technique="contract-based deductive verification with a lock invariant: each method is proved for an arbitrary guarded state at acquisition (any interference before), with access only under the lock in the right mode, and its contract relates the states at acquisition and release (govc, z3/cvc5); bounded cross-check under the race detector supplies failing histories")

CB = "callbacks return (they do not panic or end the goroutine)"

prop("P16", "A bit set is a set of the positions below its width",
 "Setting, clearing and toggling a list of non-negative positions changes membership of exactly the named positions below the width of the set's integer type: setting adds them, clearing removes them, toggling flips a position once for every time it is named. Positions at or beyond the width are never members and naming them changes nothing. Testing a list reports whether at least one of the named positions is a member; the whole-set operations and the emptiness and fullness tests concern exactly the positions below the width.",
 ["inputs", "histories"], "all six unsigned integer types, all states, all lists of non-negative positions of any length with repetitions, all histories",
 "The test uses a few single positions of one type; shifts beyond the width, repeated positions and lists need every input.",
 ["dsx/setx/bitsetx/bitsetx.go"], [("shift and mask", "dsx/setx/bitsetx/bitsetx.go Set, Clear, Toggle, Test")], state=[("data", "the bits", "BitSet.data")], observe=["Set", "Clear", "Toggle", "Test", "SetAll", "ClearAll", "ToggleAll", "IsEmpty", "IsFull"], assumptions=[SEQ, "positions are not negative (a negative shift count panics, as Go defines)"])

prop("P17", "Matching an option or result calls exactly the right handler",
 "Matching an option or a result calls exactly one of the two handlers, exactly once: the first one with the value held when there is a value (or success), and the other one (given the error held, for a result) otherwise. What that handler returns, value and error, is what the match returns, and matching leaves the option or result as it was.",
 ["inputs", "callback behaviour"], "all value and error types, all values (nil and zero values included), all handlers",
 "No test covers these packages; values that are themselves nil, zero or errors must not be mistaken for absence.",
 ["functionalx/optionx/optionx.go", "functionalx/resultx/resultx.go"], [("branch on presence", "functionalx/optionx/optionx.go Match"), ("branch on success", "functionalx/resultx/resultx.go Match")], observe=["Some", "None", "Ok", "Err", "Match"], assumptions=[CB])

prop("P18", "A lazy value is computed once, on first use",
 "A lazy value's constructor runs at most once, not before the first read, and however many goroutines read at the same time; every read returns the value that one run produced, and no read returns before that run has finished. Reads are never unsynchronised with the write of the value.",
 ["inputs", "schedules", "histories"], "all value types, any number of goroutines, all schedules and numbers of reads",
 "No test covers this package; a double run or an early read shows only in rare interleavings.",
 ["functionalx/lazyx/lazy.go"], [("once-guarded construction", "functionalx/lazyx/lazy.go Get")], state=[("value", "the computed value", "Lazy.value, written only inside Lazy.o")], observe=["New", "Get"], assumptions=["sync.Once runs its function once and lets no call return before it has finished, as documented", "the constructor returns and does not read the same lazy value"], race=True)

prop("P19", "Optional parameter steps run in order and feed the constructor",
 "Building from optional parameter functions calls each of them exactly once, in the order given: the first gets nil and each later one what the previous one returned. The constructor is called once, after all of them, with what the last one returned (nil if there are none), and its result is the result.",
 ["inputs", "callback behaviour"], "all parameter and result types, any number of functions (the same function value several times included), all behaviours of the functions",
 "No test covers this package; dropping, repeating or reordering a step shows only with particular lists.",
 ["configx/optionalx/optionalx.go"], [("fold over the functions", "configx/optionalx/optionalx.go Parameter")], observe=["Parameter"], assumptions=[CB, "callbacks do not change the list of functions"])

prop("P20", "Binary search finds the boundary in a sorted slice",
 "Searching a sorted slice returns the smallest index whose element is not less than the one looked for (the length if there is none), and reports success exactly when the slice contains that element. With a custom comparison the same holds for every slice in which elements comparing below come first, then those comparing equal, then those above. On any slice whatever the result is an index from 0 to the length, success means the element there compares equal, and the slice is never changed.",
 ["inputs"], "all slices of any length, all ordered types (total order), all element types and deterministic comparison functions",
 "No test covers this package; off-by-one boundaries, duplicates and absent elements at every position need every input.",
 ["algox/searchx/searchx.go"], [("three-way comparison", "algox/searchx/searchx.go Search"), ("bisection", "golang.org/x/exp/slices BinarySearchFunc (read and verified too)")], observe=["Search", "SearchCustom"], assumptions=[KEYS.replace("keys", "elements"), "the comparison is a function of its arguments"])

prop("P21", "Sorting orders a slice and keeps its elements",
 "Every sorting function leaves in the slice exactly the elements it had, each as often as before, and touches nothing outside it: ascending or descending as asked for on ordered types, and with no element before one that is less than it for a custom strict weak order. The stable variants keep elements that compare equal in their original order. The sortedness tests report exactly whether no element comes before one that should precede it, and change nothing.",
 ["inputs"], "all slices of any length, all ordered types (total order), all element types and strict weak orders",
 "No test covers this package; direction flags and custom orders are right or wrong for whole classes of inputs.",
 ["algox/sortx/sortx.go"], [("direction of the comparison", "algox/sortx/sortx.go Sort, SortReverse, SortStable, SortStableReverse"), ("delegation to the dependency", "algox/sortx/sortx.go SortCustom, SortStableCustom, IsSortedCustom")], observe=["Sort", "SortReverse", "SortStable", "SortStableReverse", "SortCustom", "SortStableCustom", "IsSorted", "IsSortedReverse", "IsSortedCustom"], assumptions=[KEYS.replace("keys", "elements"), "golang.org/x/exp/slices SortFunc and SortStableFunc sort (assumed contract; cross-checked)", "the order is a strict weak order and a function of its arguments"])

prop("P22", "Marzullo's intersection finds the best agreeing range",
 "For any readings of a clock, each an offset with a confidence band of 0 or more, the intersection succeeds exactly when, for some number f of outliers below half of the readings, there are points in all but at most f of the intervals offset plus or minus band, and at most f of the offsets lie outside the range from the least such point to the greatest. It then returns that range, least point first, for the smallest such f, whatever the order of the readings and also when intervals only touch. A single reading is its own range. The readings stay unchanged.",
 ["inputs"], "all lists of up to 2^50 readings whose interval ends fit in 64 bits, in any order",
 "The tests hold five small lists; touching ends, outliers and the place where a scan stops depend on the whole arrangement of the readings.",
 ["timex/intersectionx/intersectionx.go"], [("scans from the left and right for the first end in enough intervals", "timex/intersectionx/intersectionx.go intersection"), ("order of ends at the same point", "timex/intersectionx/intersectionx.go iSlice.Less")], observe=["Intersection"], assumptions=["sort.Sort orders by Less and moves elements only with Swap (assumed contract; Less and Swap are proved, and that an exchange of two elements keeps the counts is a lemma)"])

TIME = "package time behaves as its assumed contracts say (Unix, UTC, Truncate, Date, Year, Month; proleptic Gregorian calendar; cross-checked)"
prop("P23", "Truncating a time gives the start of the enclosing unit",
 "Truncating a Unix time to the second, minute, hour, day, week, month or year gives the latest start of such a unit in UTC that is not after it: weeks start on Monday, months and years follow the Gregorian calendar, and times before 1970 round towards the past like all others. Truncating to any positive number of seconds gives the latest multiple of it, counted from the start of the year 1. The local time zone plays no part, and a time built from seconds and nanoseconds denotes exactly their sum, in UTC.",
 ["inputs"], "all Unix times up to 2^61 seconds either way of 1970, all units from 1 to 9223372036 seconds (the largest a duration holds), all nanosecond arguments",
 "No test covers these packages; negative times, leap years, century boundaries and week starts need every input.",
 ["timex/truncatex/truncatex.go", "timex/timex.go"], [("unit lengths in seconds", "timex/truncatex/truncatex.go TruncateWeek to TruncateSec"), ("calendar fields", "timex/truncatex/truncatex.go TruncateMonth, TruncateYear")], observe=["TruncateSec", "TruncateMin", "TruncateHour", "TruncateDay", "TruncateWeek", "TruncateMonth", "TruncateYear", "Truncate", "Custom"], assumptions=[TIME])

prop("P34", "A timer measures between its latest start and its latest end",
 "Starting or ending a timer takes one reading of the clock, in UTC, and replaces only that timer's start or end. The difference reported is the time from the latest start to the latest end, measured on the monotonic clock when both were read from it, whatever the order and number of the calls; the getters return those two readings unchanged.",
 ["inputs", "histories"], "all histories of starts and ends on any number of timers, all clock readings",
 "No test covers this package; swapped or stale readings show only in particular histories.",
 ["timex/diffx/diffx.go", "timex/timex.go"], [("two recorded instants", "timex/diffx/diffx.go Start, End, GetDiff"), ("UTC reading with the monotonic clock kept", "timex/timex.go Now")], state=[("start", "latest start", "Differ.start"), ("end", "latest end", "Differ.end")], observe=["Now", "Start", "End", "GetDiff", "GetStart", "GetEnd"], assumptions=["package time behaves as its assumed contracts say (Now, UTC, Sub)", SEQ, "readings less than 292 years apart, for a monotonic difference"])

CRYPT = "the cryptographic packages behave as their assumed contracts say: decryption undoes encryption under the same key and vector, GCM opens only what sealing gives, crypto/rand.Read never fails"

prop("P26", "AES helpers decrypt what they encrypted",
 "In each of the three modes (CBC, CTR, GCM), decrypting what encryption of a text under a key returned, under the same key, gives that text back, for every key of any length and every text the mode accepts (for CBC, whole blocks). The ciphertext begins with the initialisation vector or nonce, freshly drawn from the system's source of randomness for this one call, followed by the text under the AES-256 key that is SHA-256 of the given key. No call changes its arguments or the memory behind them, and no result shares memory with an argument.",
 ["inputs"], "all keys, all texts (GCM: below 2^36 bytes), all answers of the source of randomness",
 "No test covers this package; a reused or misplaced vector, a wrong offset or a result written over the caller's memory still decrypts in a sampled round trip.",
 ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"], [("vector drawn per call and put in front", "cryptox/aesx EncryptCBC, EncryptCTR, EncryptGCM"), ("vector split off again", "cryptox/aesx DecryptCBC, DecryptCTR, DecryptGCM")], observe=["EncryptCBC", "DecryptCBC", "EncryptCTR", "DecryptCTR", "EncryptGCM", "DecryptGCM"], assumptions=[CRYPT])

prop("P27", "AES helpers refuse malformed and forged data",
 "Decrypting arbitrary bytes never panics. CBC accepts exactly data that is a vector followed by whole blocks, CTR exactly data no shorter than a vector; encrypting by CBC refuses exactly texts that are not whole blocks. GCM accepts only data that encryption under the same key and that nonce gives for the returned text: anything shortened, extended, altered or made under another key is refused, with an error and no text.",
 ["inputs"], "all keys and all byte strings",
 "No test covers this package; the lengths and alterations that slip through are never the sampled ones.",
 ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"], [("length checks before the modes, which panic", "cryptox/aesx DecryptCBC, DecryptCTR, DecryptGCM, EncryptCBC"), ("the tag is checked", "cryptox/aesx/gcmx.go DecryptGCM")], observe=["EncryptCBC", "DecryptCBC", "DecryptCTR", "EncryptGCM", "DecryptGCM"], assumptions=[CRYPT])

prop("P24", "A password verifies against its own hash and nothing else's",
 "Hashing a password at one of the four levels yields a record naming that level, a 16-byte salt freshly drawn from the system's source of randomness, and the 32-byte Argon2id hash of the password under that salt and the level's fixed costs; any other level is refused with its error. Verifying succeeds exactly when the record is well-formed, names a known level, and its hash equals the Argon2id hash of the given password under the record's own salt and the costs of its level; otherwise the error says which of these fails. So a password always verifies against its own record, and the base64 forms behave the same on the unpadded URL-safe text.",
 ["inputs"], "all passwords, all levels, all records, all answers of the source of randomness",
 "The tests verify one password per level; a level's costs crossed with another's, a truncated comparison or a fixed salt pass them.",
 ["cryptox/passhashx/passhash.go", "cryptox/passhashx/alg.go"], [("tables from level to algorithm, salt and hash length", "cryptox/passhashx/passhash.go security_level, alg_arr, salt_len_arr, hash_len_arr"), ("comparison of all the bytes", "cryptox/passhashx/passhash.go Verify")], observe=["Hash", "Verify", "HashBase64", "VerifyBase64"], assumptions=[CRYPT, "argon2.IDKey is a function of its arguments; base64 decoding undoes encoding"])

prop("P25", "Stored password records are read safely",
 "Every byte string given as a stored record is either refused as malformed or read within its bounds: verification never panics on it, and refuses it as malformed exactly when its header is short or its two offsets are not in order within it. A record written from a parameter, a salt and a hash is well-formed, reads back as exactly these, and the parts read are views of the record.",
 ["inputs"], "all byte strings, all 64-bit offsets; all parameters and all salts and hashes below 2^40 bytes",
 "The tests read only records the library wrote itself; offsets that overflow, cross or point past the end come from corrupted or hostile storage.",
 ["cryptox/passhashx/internal/passhash.vstruct.go", "cryptox/passhashx/passhash.go"], [("64-bit little-endian offsets checked in order", "cryptox/passhashx/internal/passhash.vstruct.go Vstruct_Validate"), ("validation before any part is read", "cryptox/passhashx/passhash.go Verify")], observe=["Verify", "PasswordHash.Vstruct_Validate", "PasswordHash.Param", "PasswordHash.Salt", "PasswordHash.Hash", "New_PasswordHash", "Serialize_PasswordHash"], assumptions=[CRYPT])

prop("P28", "bcrypt helpers never compare truncated passwords",
 "Hashing and checking refuse exactly the passwords longer than the 72 bytes bcrypt reads, with the package's error, so no two passwords are ever taken for equal because only their beginnings were compared. A password of at most 72 bytes is hashed at no less than bcrypt's default cost and checks against its hash; a check reports success, without an error, exactly when bcrypt accepts the whole password for that hash.",
 ["inputs"], "all passwords of any length, all stored hashes",
 "No test covers this package; passwords longer than the limit are exactly the unusual input.",
 ["cryptox/bcryptx/bcryptx.go"], [("length limit on both sides", "cryptox/bcryptx/bcryptx.go Encrypt, Decrypt")], observe=["Encrypt", "Decrypt"], assumptions=["golang.org/x/crypto/bcrypt behaves as its assumed contract says on passwords of at most 72 bytes"])

prop("P31", "Everything registered is closed once, in order",
 "Closing a manager, the default one included, calls the Close method of everything appended to it exactly once per closing, in the order of the appends, and calls nothing else; failures do not keep the rest from being closed. It returns nil exactly when none failed, and otherwise the list of all the errors in that order. A function guarded by a list of closers runs once, before any of them is closed; they are then closed the same way, also when the function panics (and the panic goes on), and all their errors are returned. Appending may go on concurrently, and the manager stays usable when a closer panics.",
 ["inputs", "callback behaviour", "schedules"], "all lists of closers of any length, the same one several times included, all behaviours of theirs and of the guarded function, all interleavings of appending and closing",
 "No test covers these packages; a closer skipped after a failure or a panic leaks a resource only then.",
 ["iox/managerx/closex/manager.go", "iox/managerx/closex/default.go", "iox/managerx/closex/types.go", "iox/usingx/using.go"], [("errors collected without stopping", "iox/managerx/closex/manager.go Close"), ("closing deferred until the function returns or panics", "iox/usingx/using.go Close")], state=[("closers", "the closers appended so far", "CloseManager.list, read under CloseManager.lock")], observe=["New", "CloseManager.Append", "CloseManager.Close", "Append", "Close", "usingx.Close"], assumptions=[CB], race=True)

prop("P33", "A decoupler keeps accepted records in order and reports every dropped one",
 "A decoupler of n slots takes a record exactly when it is not empty and fewer than n records are waiting: the write then reports the full length and no error, and keeps a copy of the bytes as they are at that moment, whatever the caller does with them later. Any other record is given to the drop function, once, unchanged, and the write returns what that function returns (the full length and no error if none was given); it takes no slot and disturbs no waiting record. Reading views the oldest waiting record, exactly once and with the bytes written, and removes it; it returns false, without a view, exactly when none is waiting. Writing and reading never wait, in any history of operations one at a time.",
 ["inputs", "histories"], "all histories of writes and reads, one at a time, up to 2^62 records; any number of slots below 2^40, none included; records of any length",
 "The tests count dropped records; the order after wrapping round, records of changing lengths in a slot used again, and a drop between writes need long particular histories.",
 ["iox/decouplex/decouple.go"], [("ticket modulo size picks the slot", "iox/decouplex/decouple.go Write, Next"), ("a slot is marked empty or with its ticket", "Decoupler.locktab"), ("bytes copied into the slot's own memory", "iox/decouplex/decouple.go Write")], state=[("waiting records", "the records accepted and not yet read, oldest first", "Decoupler.buffer from _read, _len of them")], observe=["NewDecoupler", "Write", "Next"], assumptions=[SEQ, CB, "a view does not keep the bytes it is shown, and they are not written back"], race=True)

prop("P29", "The converter registry runs exactly the registered converter",
 "For every ordered pair of types, interface types included, converting calls the converter most recently registered for that very pair and not removed since, once, on the given value and returns what it returns, with success; when there is none it calls nothing and reports failure with the zero value (or gives the caller's fallback). The existence test says which it would be. Registering or removing changes that one pair and no other. Each of these takes effect at one instant under any concurrent use, and a converter may itself use the registry while it runs.",
 ["inputs", "histories", "schedules", "callback behaviour"], "all pairs of types, all histories of registrations and removals, all converters and values, any number of goroutines",
 "No test covers this package; interface types, pairs sharing one side and a removal between uses need particular histories.",
 ["typex/convx/convx.go"], [("two-level map from source and target type", "typex/convx/convx.go converters"), ("read-write lock around every access, released before the converter runs", "typex/convx/convx.go Into")], state=[("converters", "the registered converters", "convx.converters, guarded by convx.convertersLock")], observe=["Register", "Unregister", "Exists", "Into", "IntoOr"], assumptions=["reflect.TypeOf and Elem give one value per type, different types differing", "sync.RWMutex excludes writers and admits readers as documented", "the registered function is not nil", "callbacks return (they do not panic or end the goroutine)"], race=True)

prop("P30", "Built-in converters convert as Go does, and text goes back and forth",
 "Conversions between any two of the twelve sized and unsized integer and floating-point types are registered from the start and give what Go's own conversion gives. A number becomes plain decimal text (for floating-point the shortest that denotes it), a boolean its name, and converting that text back gives the same value, for every value but a NaN; text that is no number gives zero. Numbers become true exactly when not zero, and booleans become one or zero. Text, byte slices and rune slices convert into each other as in Go, and a change to converted bytes never shows in the text.",
 ["inputs"], "all values of all built-in types (between one type and another; NaN apart in round trips)",
 "No test covers this package; widths, signs and the largest values of each of the 190 pairs need every input.",
 ["typex/convx/converters.go", "typex/convx/init.go"], [("Go conversion per pair", "typex/convx/converters.go integerToInteger"), ("64-bit text forms", "typex/convx/converters.go intToString, uintToString, floatToString and back"), ("registration of every pair", "typex/convx/init.go")], observe=["Into"], assumptions=["package strconv behaves as its assumed contracts say: parsing undoes formatting (cross-checked)", "that every pair is registered, and with the right converter, is checked by running each pair (init registers a closed list); string to rune conversions are only cross-checked"])

prop("P32", "A pool handles each accepted value once, on a bounded number of workers",
 "A pool is made exactly when its maximum, idle timeout and collection period are positive and it has a handler; otherwise the error names the first of these that is not so, and nothing is started. It starts with as many waiting workers as asked for, its maximum at most. A submitted value is accepted exactly when the pool is not stopped and a worker is waiting or there are fewer workers than the maximum; it then goes to exactly one worker, the one that began waiting last if any waits, and else a new one. A refused value starts and changes nothing. A worker hands each value it is given to the handler, exactly once and in order, before it waits for another. There are never more workers than the maximum, and each that leaves is counted out once, under every interleaving of submitters, workers and the collector. The collector ends only workers that wait: the foremost ones, up to the one that began waiting within the idle timeout, and all of them when the pool is stopped; no value is ever sent to a worker that was ended, and from then on nothing is accepted.",
 ["inputs", "schedules"], "all arguments, all interleavings of submissions, workers, collections and one stop, any number of values",
 "The tests submit values to one pool and count them; a value lost to a worker that is being ended, a worker counted twice or a pool over its maximum need a particular interleaving of submitters, workers and collector.",
 ["poolx/gopoolx/timedpool.go", "syncx/syncpoolx/syncpoolx.go"], [("lock around the waiting workers and their number", "poolx/gopoolx/timedpool.go Run, free, tworker, start"), ("one channel per worker, with room for one value", "poolx/gopoolx/timedpool.go timedworker.ch"), ("idle workers taken off the list under the lock and then ended", "poolx/gopoolx/timedpool.go start")], state=[("waiting workers", "the workers that wait for a value, the last to begin waiting last", "TimedPool.dobby, under TimedPool.mu"), ("workers", "the number of workers", "TimedPool.workers, under TimedPool.mu")], observe=["NewTimedPool", "Run", "Workers", "Stop"], assumptions=["the handler returns (it does not panic or end the goroutine)", "a channel delivers each value once, in order, to its one receiver; a ticker ticks", "what a section finds under the lock is what the previous one left there: each critical section is checked to keep the lock's invariant, interleavings are not enumerated", "a worker that is busy is counted and neither waits nor shares its channel (rely clauses of tworker), and a channel of a waiting worker is open while the collector runs", "Stop is called by one goroutine at a time", "clock readings and timeouts fit 64 bits of nanoseconds"], race=True)

prop("P35", "One sleeps at a time, and a reported wakeup ends that sleep",
 "On one sleeper at most one goroutine sleeps at a time: whoever tries while another sleeps is refused at once, without waiting. A sleep that is not refused ends when its time has passed (never for an endless one: the given number of seconds, or the time from now to the given instant, by the monotonic clock when the instant has a reading of it) or when it is woken, and then reports true. Waking reports true exactly if one sleeps, and then the signal that very sleep waits for has been given when it returns; it leaves a fresh signal, so it never shortens a later sleep. Waking nobody changes nothing. All of this holds under every interleaving of sleeping and waking goroutines.",
 ["inputs", "schedules"], "all durations and instants, all interleavings of any number of sleeping and waking goroutines",
 "No test covers this package; a wakeup between the beginning of a sleep and its first wait needs one particular interleaving.",
 ["timex/sleepx/sleepx.go"], [("marked as sleeping and signal read in one critical section", "timex/sleepx/sleepx.go begin"), ("signal given and replaced in one critical section", "timex/sleepx/sleepx.go Wakeup")], state=[("sleeping", "a goroutine sleeps", "Sleeper.slept, under Sleeper.mu"), ("signal", "what a sleep waits for", "Sleeper.ctx, Sleeper.cancel, under Sleeper.mu")], observe=["New", "SleepFor", "SleepUntil", "SleepForever", "Wakeup"], assumptions=["package context behaves as its assumed contracts say: the function WithCancel returns closes the channel its context reports, and a new context's channel is open", "time.After's channel delivers after the time asked for, and no sooner", "what a section finds under the lock is what the previous one left there: each critical section is checked to keep the lock's invariant, interleavings are not enumerated", "the mark of a sleeping goroutine is cleared by that goroutine only (rely clause)", "that a sleep ends once its signal is given (progress) rests on the runtime", "a duration times a second that overflows 64 bits wraps around"], race=True)

prop("P37", "A kill signal runs the handler once, then closes the channel",
 "From the moment the function returns, an interrupt, quit or termination signal sent to the process is kept for the handler even when it comes before anything waits for it. The first of them makes the handler run exactly once, and after it has returned the channel in the result is closed, once; nothing comes through that channel and it is not closed sooner. Later signals run nothing and close nothing. Making it calls neither the handler nor waits.",
 ["inputs", "histories"], "all handlers that return, all sequences of the three signals",
 "No test covers this package; a second signal, or one sent at once, is exactly what a test does not send.",
 ["osx/closex/closex.go"], [("registered for the three signals, with room for one", "osx/closex/closex.go HandleKillSig"), ("handler, then close, then no more", "osx/closex/closex.go HandleKillSig goroutine")], observe=["HandleKillSig"], assumptions=["os/signal.Notify delivers the signals asked for to the channel, without blocking", "the handler returns (it does not panic or end the goroutine)", "nobody else closes the channel in the result, or the one given to Notify", "the logger is not nil"], race=True)

prop("P36", "A typed lock runs the function alone and returns",
 "Locking a value with a function calls that function exactly once with that value, while no other call holds the same value locked, and then returns with the value as the function left it and open to the next call. This holds under every interleaving of any number of goroutines, whatever the value holds.",
 ["inputs", "schedules"], "all element types and values, all interleavings of any number of goroutines",
 "No test covers this package; exclusion is about interleavings, and the lock word overlaps the user's data.",
 ["syncx/lockx/lockx.go"], [("compare-and-swap of the first word of the value", "syncx/lockx/lockx.go Lock")], observe=["Lock"])
na("P36", "syncx/lockx.Lock breaks it by design (defect recorded in DESIGN.md and known-findings.txt): it compares the first machine word of *l with the address l, which differ in ordinary use, so it spins for ever. The code reads the user's data through unsafe.Pointer as a pointer, which the verifier's typed memory does not cover, a repair would have to change the signature, and a check could only repeat that one known violation on every run")

prop("P38", "A typed pool hands each item to one holder at a time",
 "Getting from a typed pool never fails and never gives nothing back: it returns an item that was put into this very pool and not handed out since, without calling the function the pool was set up with, or else calls that function exactly once and returns what it made. Other items stay where they are. Putting an item in makes it available once and calls nothing, and neither does setting the pool up, which keeps no item back. Items of two pools never mix.",
 ["inputs", "histories"], "all item types and values, all histories of gets and puts, every choice between items kept and new ones, all functions that make items",
 "No test covers this package; which item a get returns depends on the runtime's choices, which a test does not control.",
 ["syncx/syncpoolx/syncpoolx.go"], [("function of the right type wrapped once", "syncx/syncpoolx/syncpoolx.go Init"), ("type assertion on what comes out", "syncx/syncpoolx/syncpoolx.go Get")], state=[("items kept", "the items put in and not handed out", "Pool.pool")], observe=["Pool.Init", "Pool.Get", "Pool.Put"], assumptions=[POOL, "concurrent gets and puts are those of sync.Pool, which is assumed to hand each item to one caller (cross-checked under the race detector)", "an item is not put in twice, and nil is not put in", "the function given makes a new item each time it is called"], race=True)

prop("P39", "Joining prints every element once, in order, separators only between",
 "Joining a slice gives one text: the elements in their order, each once and as fmt's plain verb prints it, with the separator once between every two neighbours and nowhere else. An empty slice gives the empty text and a single element its own. Texts and separators are taken as they are, whatever characters they hold, and the slice is not changed.",
 ["inputs"], "all slices of all element types, all separators",
 "The test joins one list of integers; separators at the ends, empty texts and texts that look like verbs need other inputs.",
 ["dsx/slicex/slicex.go"], [("separator before every element but the first", "dsx/slicex/slicex.go Join")], observe=["Slice.Join"], assumptions=[SEQ, "fmt.Sprintf with the verb %v prints its one value, always the same way, and changes nothing"])

prop("P40", "A list of errors tells every one, and is found again in what wraps it",
 "The text of a list of errors tells, for each of its errors in order, the type of the error on a line of its own and then the error's own text and a line end, and nothing else; an empty list gives the empty text. Asking an error for its list finds the list when the error is one or wraps one, however deep, and gives that very list (for several, the first that errors.As meets); of any other error, nil included, it says that there is none and gives no list.",
 ["inputs"], "all lists of errors of all types and texts, all errors and ways of wrapping",
 "No test covers this; a list that is wrapped, an error text with verbs or line ends in it, and lists inside lists are easily forgotten.",
 ["iox/managerx/closex/types.go"], [("texts in order", "iox/managerx/closex/types.go ErrorList.Error"), ("wrapped lists found", "iox/managerx/closex/types.go AsErrs")], observe=["ErrorList.Error", "AsErrs"], assumptions=[SEQ, "no error of the list is nil", "an error's text and type name are the same each time and asking changes nothing", "errors.As finds the first list that an error is or wraps; strings.Builder holds what is written"])

