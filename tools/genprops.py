#!/usr/bin/env python3
"""Writes properties.jsonl (single source for ids, titles, statements, anchors)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=hook)))

p("C01","Plain and wrapping integer operations agree with arithmetic modulo 2^w",
"For every primitive integer type (ISize, I8..I64, USize, U8..U64; Byte and Char for the operators they offer) and every operand pair, Add, Sub, Mul, Div, Rem, Neg, the *Assign methods and WrappingAdd/Sub/Mul/Div return the mathematical result reduced modulo 2^w (division and remainder truncate toward zero; a zero divisor panics). Pow returns the exponentiation whenever it is representable; Abs, AbsDiff, IsPositive and IsNegative give the mathematical absolute value, absolute difference and strict sign whenever representable. No operation alters an operand other than the receiver of an *Assign method.",
["inputs"],"all operand pairs of each width",
"The tests check a handful of operand pairs per operation; the guarantee quantifies over every pair, and the wrong ones sit at sign and width boundaries.",
["ops.go","primitive.go"],[("one method per (type, operation)","ops.go"),("method sets of the primitive wrappers","primitive.go")],
["return value of each method","value of the receiver after an *Assign method"])

p("C02","Checked integer operations return None exactly when the result does not fit",
"For every primitive integer type and every operand pair, CheckedAdd, CheckedSub and CheckedMul return Some(exact mathematical result) when that result is representable in the type and None otherwise. CheckedDiv and CheckedRem return None exactly when the divisor is zero or the quotient is not representable (MIN / -1), and Some(the truncated quotient or remainder) otherwise. They never panic.",
["inputs"],"all operand pairs of each width",
"Existing tests try a few pairs around one boundary; an overflow test that is wrong for one sign combination or one width passes them.",
["ops.go"],[("overflow predicates per type","ops.go _HasOverflow_*/_HasUnderflow_*")],["Option returned by each Checked* method"])

p("C03","Saturating integer operations clamp to the nearest representable value",
"For every primitive integer type and every operand pair, SaturatingAdd, SaturatingSub and SaturatingMul return the mathematical result clamped into [MIN, MAX] of the type. SaturatingDiv with a non-zero divisor returns the truncated quotient clamped into [MIN, MAX], so MIN / -1 gives MAX. They never panic on these inputs.",
["inputs"],"all operand pairs of each width",
"Tests sample a few saturating pairs; clamping to the wrong end or saturating an in-range result shows only at specific sign/width combinations.",
["ops.go"],[("overflow predicates and clamp selection per type","ops.go Saturating*")],["return value of each Saturating* method"])

p("C04","128-bit integers behave like fixed-width two's-complement integers",
"For I128 and U128 and every operand pair, Add, Sub, Mul, Neg, Abs and the *Assign methods return the mathematical result modulo 2^128, and Div and Rem (non-zero divisor) return the quotient truncated toward zero (modulo 2^128) and the matching remainder; a zero divisor panics. Cmp and Eq agree with the mathematical order, IsPositive and IsNegative with the mathematical strict sign. Conversion from the 64-bit types and ToString (canonical decimal) are value-preserving.",
["inputs"],"all pairs of 128-bit operands (boundary alphabet of high and low words)",
"128-bit results depend on carries between words; the tests cover a few small values with a zero or trivial high word.",
["ops.go","primitive.go","cmp.go","to_string.go","convert.go"],[("carry and borrow between words","ops.go I128/U128"),("long division","ops.go I128.Div, U128.Div")],["return values of I128/U128 methods"])

p("C05","Shift methods move bits by exactly the requested amount at every width",
"For every integer type including I128 and U128, and every shift amount n with 0 <= n < width, Shl returns the value multiplied by 2^n modulo 2^width. Shr returns the floor of the value divided by 2^n (arithmetic for signed types, logical for unsigned types). The operand is unchanged.",
["inputs"],"every value/shift amount pair (all 8-bit pairs, boundary alphabets above)",
"Tests shift only a couple of values by one or few positions; word-crossing shifts and amounts different from the value itself are not covered.",
["bitwise.go"],[("shift methods per type","bitwise.go")],["return values of Shl and Shr"])

p("C06","Number/text/Char conversions are value-preserving and parsing is exact",
"ToString and Display of every integer type return the canonical decimal representation of the value, and of F32/F64 the shortest decimal that reads back as the same value. ParseI64 and ParseU64 return Ok(n) exactly for the non-empty decimal digit texts (optionally preceded by one + or, for the signed type, one -) whose value n is representable, and Err for every other text; ParseF64 returns Ok of the nearest double for every decimal or exponent notation in range and Err for text that is not a number. Parsing the text produced from a value returns that value, and nothing here panics.",
["inputs"],"every value of each width and every short text over a digit/sign alphabet",
"The tests never quantify over texts: range limits of each width, signs, empty and non-digit inputs are infinite and largely untested.",
["to_string.go","string.go","convert.go"],[("ParseI64, ParseU64, ParseF64","string.go"),("ToString per type","to_string.go")],["String returned by ToString/Display","Result returned by parse functions"])

p("C07","Comparisons form one consistent total order",
"For every integer type (including 128-bit), F32/F64 (excluding NaN), String, Bool, Byte, Char and Pairs of these, Cmp is the total order of the values: numeric, byte-wise lexicographic for strings, false before true, first-then-second for pairs; it is antisymmetric and transitive. Eq holds exactly when Cmp reports equality. Comparing alters nothing.",
["inputs"],"all pairs and triples of values of each type",
"Order axioms quantify over pairs and triples; tests compare isolated values.",
["cmp.go","pair.go"],[("Cmp/Eq/Lt/Lte/Gt/Gte per type","cmp.go"),("Pair comparison","pair.go")],["Ordering and Bool results"])

p("C08","Vec behaves as a growable sequence under every operation history",
"After any sequence of operations the observable contents of a Vec (length, Get at every index, slice view, emptiness) equal those of an abstract sequence to which the same operations were applied: Push/Pop at the end, Insert shifting the tail, Append moving all elements and leaving the source empty, Retain keeping exactly the matching elements in order, Swap, Reverse, Set (returning None, or Some of the given value and changing nothing if out of range), Fill, Clear. Reserve and capacity requests never change length or contents. Out-of-range Get returns None, and out-of-range Insert panics leaving the contents unchanged.",
["histories"],"all operation sequences up to a depth over a small value alphabet, from every reachable layout",
"Tests run one short straight-line history per method; aliasing of the backing array, growth boundaries and method combinations are not exercised.",
["vec.go"],[("backing slice manipulation","vec.go")],["Len, IsEmpty, Get, AsSlice, IntoIter, return values"])

p("C09","Sorting, binary search, dedup and retain are correct for every content",
"For every content and layout of a Vec or VecDeque, Sort, SortBy, SortUnstable and SortUnstableBy leave a permutation of the elements that is non-decreasing under the given order (Sort and SortBy keep equal elements in their original order). BinarySearch and BinarySearchBy on a sorted container return an index holding a match if and only if one exists. Dedup and DedupByKey remove exactly the elements equal in key to their immediate predecessor, and Retain exactly those failing the predicate, preserving order.",
["inputs","histories"],"all contents up to a length over a small alphabet, in every ring layout",
"Correctness depends on content permutation, duplicates and (for the deque) the physical wrap position; tests use one array each.",
["vec.go","vec_deque.go"],[("sort/search/dedup methods","vec.go, vec_deque.go")],["contents after the call","returned index"])

p("C10","VecDeque behaves as a double-ended sequence under every operation history",
"After any sequence of operations the observable contents of a VecDeque equal those of an abstract sequence to which the same operations were applied at either end (PushFront/Back, PopFront/Back, Front, Back, Get, Set (returning None, or Some of the given value if out of range), Swap, Append which empties its source, Retain, Fill, Clear), whatever the capacity and the internal position at which the contents start. Reserve and internal growth never change length or order, and the slice view, iteration and Contains see the same sequence. Out-of-range Get and empty pops return None.",
["histories"],"all operation sequences up to a depth: every (capacity, start, length) layout",
"Wrap-around and growth cases depend on the history of pushes and pops at both ends; tests hit a few of these layouts.",
["vec_deque.go"],[("ring buffer indexing","vec_deque.go _WrapAdd/_ToPhysicalIndex"),("growth relocation","vec_deque.go _HandleCapacityIncrease")],["Len, Get, Front, Back, AsSlice, IntoIter, pops"],
[dict(name="head, len, buffer",meaning="ring buffer position and contents",where="vec_deque.go")])

p("C11","LinkedList behaves as a double-ended sequence under every operation history",
"After any sequence of PushFront, PushBack, PopFront, PopBack, Front, Back, Append, Clear and Clone the observable contents of a LinkedList equal those of an abstract sequence, in both directions and with a matching length. Append moves all elements in order and leaves its source empty, and afterwards both lists are independent and fully usable. Front and Back give access to the element in place, so a write through them is seen by later reads.",
["histories"],"all operation sequences on two lists up to a depth, to a fixpoint of shapes",
"Pointer-structure invariants depend on histories mixing both ends and two lists; tests use one each.",
["linked_list.go"],[("node linking in push/pop/append","linked_list.go")],["Len, Front, Back, IntoIter, pops"],
[dict(name="head, tail, size",meaning="doubly linked nodes and cached length",where="linked_list.go")])

p("C12","BinaryHeap always yields its elements in priority order",
"After any sequence of Push, Pop, Append, Clear and Reserve, a BinaryHeap holds exactly the multiset of pushed and not yet popped elements, and each Pop returns a maximal remaining element, or None when empty. IntoSortedVec returns the elements in ascending order and IntoVec the same multiset. Append moves all elements of its source and leaves it empty; Len, IsEmpty and the slice view agree with the multiset.",
["histories"],"all operation sequences up to a depth over a small priority alphabet; all permutations of distinct priorities",
"The heap invariant depends on insertion order and ties; tests use one order.",
["binary_heap.go"],[("sift-up and sift-down","binary_heap.go")],["Pop results, IntoVec, IntoSortedVec, Len, AsSlice"])

p("C13","BTreeMap is a correct ordered map at every size and history",
"After any sequence of Insert, Remove and Clear, a BTreeMap is observably equal to a mathematical finite map: Len, IsEmpty, Get and ContainsKey agree with it, Insert and Remove return the previous value of the key or None, and overwriting changes only the value. IntoIter, Keys and Values enumerate every entry exactly once in ascending key order. This holds for any number of entries and any insertion and removal order, without panicking.",
["histories"],"all insertion/removal histories up to rank isomorphism over trees of up to three levels",
"The tree splits, borrows and merges only beyond a node's capacity and in particular orders; there is no test of the map with more than a few keys.",
["btree_map.go"],[("split on insert","btree_map.go splitChild"),("borrow/merge on remove","btree_map.go _Fill, _BorrowFrom*, _Merge"),("in-order enumeration","btree_map.go _ToVec/_ToKeyVec/_ToValueVec")],["Get, ContainsKey, Insert/Remove results, Len, IntoIter, Keys, Values"],
[dict(name="tree of nodes",meaning="keys, values and children per node",where="btree_map.go")])

p("C14","BTreeSet is a correct ordered set at every size and history",
"After any sequence of Insert, Remove and Clear, a BTreeSet holds exactly the elements a mathematical set would: Contains, Len and IsEmpty agree, Insert reports whether the element was new and Remove whether it was present. Iteration enumerates every element exactly once in ascending order, also for the empty set. None of these operations panics.",
["histories"],"all insertion/removal histories up to rank isomorphism",
"As for the map; tests use sets of at most a few elements and never the empty set in iteration.",
["btree_set.go","btree_map.go"],[("delegation to the ordered map","btree_set.go")],["Contains, Len, Insert/Remove results, IntoIter"])

p("C15","HashMap and HashSet are correct unordered collections under every history",
"After any sequence of Insert, Remove and Clear, a HashMap is observably a mathematical finite map (Get, ContainsKey, Len, IsEmpty; Insert and Remove return the previous value or None) and a HashSet a mathematical set (Contains, Get, Len; Insert reports whether the element was new, Remove whether it was present). IntoIter, Keys, Values and the slice view enumerate every current entry exactly once, in some order. Iterators are snapshots: later changes to the collection do not disturb them.",
["histories"],"all operation sequences up to a fixpoint over a small key/value alphabet",
"Tests check a few straight-line histories; return values and enumeration after overwrite/removal are not covered.",
["hash_map.go","hash_set.go"],[("map-backed storage","hash_map.go, hash_set.go")],["all query and mutation results"])

p("C16","Set algebra agrees with mathematical set operations",
"For every pair of BTreeSets and every pair of HashSets, including empty, equal, nested, overlapping and disjoint ones and a set paired with itself, Union, Intersection and SymmetricDifference return exactly the mathematical result. IsSubset, IsSuperset, IsDisjoint and Eq return exactly the mathematical relation. Neither operand is modified and the result is independent of both.",
["inputs"],"all pairs of subsets of a small universe",
"The truth tables quantify over pairs of sets including empty ones; tests use one or two pairs.",
["btree_set.go","hash_set.go"],[("set algebra methods","btree_set.go, hash_set.go")],["result sets and relations; operands afterwards"])

p("C17","Iterators and adaptors see exactly the remaining elements",
"An iterator over any collection yields each element exactly once in the collection's order and then None forever. At any point after k calls to Next, Map, Filter, Fold, Rev, CollectToVec and CollectToLinkedList (alone or chained) operate on exactly the remaining elements: mapped, filtered or folded in order, reversed for Rev. Building an adaptor or iterating never modifies the underlying collection, collected results share no storage with it, and the callbacks are called once per remaining element in order.",
["inputs","histories"],"all contents up to a length, all consumption prefixes, all adaptor chains up to a depth",
"Tests iterate from the start with one adaptor; partially consumed iterators and chains are a product space.",
["iter.go","vec.go","vec_deque.go","linked_list.go","btree_map.go","btree_set.go","hash_map.go","hash_set.go"],[("position-based iterators","*Iter types")],["sequence produced by Next, adaptors and collectors"])

p("C18","Clone produces an equal and independent deep copy",
"For every collection, wrapper and primitive type that offers Clone, the clone of a value with cloneable elements is observably equal to the original: same length and equal elements in order, or the same entries for unordered collections. No later change to either, including to nested elements that are themselves cloneable, is visible through the other; AsRef gives a pointer to an equal value and changes nothing. Eq (also on BTreeMap) returns true exactly for observably equal values and false for any difference in length, element, order or variant.",
["inputs","histories"],"all small contents and nestings, all single later mutations on either side, all values of the small primitive types and boundary values of the others",
"Sharing of backing storage shows only with particular later mutations (spare capacity, nested element), and Eq quantifies over pairs.",
["clone.go","convert.go","vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_set.go","btree_map.go","option.go","result.go","pair.go"],[("Clone, AsRef and Eq methods","per type")],["contents of both copies after a mutation of one; Eq"])

p("C19","Option combinators follow the Some/None algebra",
"For every Option value and argument, the queries, Unwrap*/Expect, Map*, And, AndThen, Filter, Or, OrElse and Xor return exactly what the Some/None algebra of Rust's Option defines, invoking each callback exactly when, as often as, and with the argument the algebra requires. Insert, GetOrInsert, GetOrInsertWith, Take and Replace leave the option in the state and return the value Rust defines, for Some and None alike. Unwrap and Expect panic exactly on None.",
["histories","inputs"],"all operation sequences up to a depth over {None, Some(small values)}",
"None-side branches and state after mutation combine; tests cover a few Some-side calls.",
["option.go"],[("variant dispatch in each method","option.go")],["return values, callback calls, panics, later queries"])

p("C20","Result combinators follow the Ok/Err algebra",
"For every Result value and argument, IsOk(And), IsErr(And), Ok, Err, Map*, MapErr, And, AndThen, Or, OrElse, Unwrap* and Expect* return exactly what the Ok/Err algebra of Rust's Result defines. Each callback is invoked exactly when, once, and with the argument the algebra requires. Unwrap and Expect panic exactly on Err, UnwrapErr and ExpectErr exactly on Ok.",
["inputs"],"all combinator chains up to a depth over small Ok and Err values",
"The Err-side branches are hardly touched by tests.",
["result.go"],[("variant dispatch in each method","result.go")],["return values, callback calls, panics"])

p("C21","Formatting substitutes every argument exactly and never corrupts text",
"Format replaces the n-th {} placeholder by the n-th argument's Display text, turns {{ and }} into one brace each, and copies every other character, including multi-byte ones, unchanged. Display of every collection, Option, Result and Pair lists exactly its elements (recursively by their own Display) in its order, in the fixed notation of its type with a separator between elements only, for every length including zero; Debug of a primitive is its type name around its Display text. Print writes exactly the formatted text to standard output, Println the same followed by one newline.",
["inputs"],"all templates up to a length over a brace/letter alphabet with up to three arguments; all collections up to a length",
"Placeholder scanning is a small parser; tests never enumerate templates or nested/empty displays.",
["fmt.go","io.go","panic.go","vec.go","vec_deque.go","linked_list.go","btree_map.go","btree_set.go","hash_map.go","hash_set.go","option.go","result.go","pair.go"],[("placeholder scanner","fmt.go Format"),("Display methods","per type")],["returned String; bytes written to standard output"])

p("C22","If/ElseIf/Else selects the first true branch",
"An If/ElseIf/.../Else chain evaluates to the value of the first branch whose condition is true, and to the Else value if none is. This holds for every number of ElseIf branches, every combination of conditions and all branch values, including zero values and equal ones. Exactly the selected branch's function is called, once; no other function is ever called.",
["inputs"],"all condition vectors up to a chain length, all value assignments over a small alphabet",
"2^n condition combinations; there is no test for chains with several true branches.",
["syntax.go"],[("chain state","syntax.go")],["value returned by Else"])

p("C23","String operations respect UTF-8 and agree with their specification",
"For every valid UTF-8 String, Len is its byte length, IsEmpty whether that is zero, IntoBytes and Chars enumerate exactly its bytes and characters in order, Push appends and Pop removes exactly one character at the end, and Add(Assign), Contains, Find (byte index of the first match), Split (non-empty separator), Trim, Replace, Repeat, ToLowercase and ToUppercase return what their definition gives on the text. StringFromUTF8 and StringFromUTF16 are exact inverses of the encodings for every valid text, including surrogate pairs, and StringFromUTF16 returns Err for every sequence with an unpaired surrogate. Only Push, Pop and AddAssign modify their operand.",
["inputs"],"all strings up to a length over an alphabet of 1-4 byte characters; all unit sequences up to a length",
"Text is infinite and boundary characters (multi-byte, surrogates) do not occur in tests.",
["string.go"],[("string methods","string.go")],["returned values"])

p("C24","Durations convert exactly between units and sleeping lasts at least that long",
"A Duration constructed from any number of seconds, milliseconds, microseconds, nanoseconds, or seconds plus nanoseconds (carrying over into the seconds; panicking only if these overflow) reports exactly that time through every accessor, truncating toward zero in a coarser unit. The sub-second accessors report only the fraction of the last second, and IsZero holds exactly for no time at all. Sleep returns only after at least the given duration has elapsed, and, when nothing else needs the processor, without noticeable further delay.",
["inputs","schedules"],"unit x amount alphabet; virtual-clock schedules of sleepers",
"No tests exist; conversions quantify over all amounts and sleeping over schedules.",
["time.go","thread.go"],[("unit conversion","time.go"),("Sleep","thread.go/time.go")],["accessor values; virtual time at return"])

p("C25","Filesystem functions leave the tree in the specified state",
"For every directory tree and path, CreateDir, RemoveDir, RemoveFile, Write, Read, ReadToString, Rename, Copy and ReadDir have exactly their documented effect on the tree, return complete contents, and return Err without changing the tree when a path does not exist or is of the wrong kind (RemoveDir removes only empty directories, RemoveFile never a directory). Write replaces the whole contents; Copy replaces the destination's contents and permission bits by the source's and the two files stay independent; ReadDir lists each entry exactly once with its name, path and kind. Failed and short operating-system reads and writes never silently lose data.",
["histories","fault_sequences"],"all operation sequences up to a depth over a small path universe, plus short-read and write-error answers",
"Outcomes depend on the state of the tree and on environment answers; no tests touch the file system.",
["fs.go"],[("os call wrappers","fs.go")],["returned Result; directory tree afterwards"])

p("C26","Futures deliver their result to every await, on every schedule",
"The function given to gokio.Spawn runs exactly once, and Await returns exactly its result, on every schedule, whether called before or after completion and however many times or from however many goroutines. A future that is dropped without being awaited still runs and leaves no goroutine blocked forever. Each asynchronous file function has the same effect and result as its synchronous counterpart.",
["schedules"],"all interleavings of the operation with up to two awaits, within a preemption bound",
"Schedules are not controlled by tests, and no test exists for this package.",
["future.go","gokio/gokio.go","gokio/fs.go"],[("channel hand-off","gokio/gokio.go")],["values returned by Await; goroutines left over"])

p("C27","A spawned thread runs once and Join waits for exactly its completion",
"A function given to Spawn runs exactly once, concurrently with the caller, and Join returns Ok only after it has completed, on every schedule, also when Join is called late, repeatedly or by several goroutines. IsFinished is false before the function has completed, eventually true afterwards, never blocks, and does not influence any later IsFinished or Join. A thread that is never joined still terminates, leaving no goroutine blocked forever.",
["schedules"],"all interleavings of thread body, Join and IsFinished calls within a preemption bound",
"Lost wake-ups and consumed completion tokens depend on the schedule and call history; tests control neither.",
["thread.go"],[("completion channel","thread.go")],["order of completion, Join return and IsFinished values"])

p("C28","Mutex gives mutual exclusion and protects its value on every schedule",
"On every schedule at most one goroutine at a time holds a Mutex: Lock blocks until the holder unlocks and returns a pointer to the protected value, so no update made under the lock is ever lost. TryLock never blocks: it returns Ok with that pointer exactly when the mutex is free, acquiring it, and otherwise Err without disturbing the holder or the value. Unlock lets a waiter proceed, no schedule of correctly paired operations deadlocks, and separate mutexes are independent.",
["schedules"],"all interleavings of 2-3 goroutines with lock/try-lock/unlock, within a preemption bound",
"Mutual exclusion quantifies over schedules; there is no concurrent test.",
["sync.go"],[("mutex and guard","sync.go")],["critical-section overlap, value seen under the lock, blocking"])

p("C29","Assertions panic exactly when violated",
"Assert panics exactly when its condition is false, AssertEq exactly when the two values are not equal, AssertNe exactly when they are, for every pair of values of every comparable type, and they have no other effect. Panic always panics with its message formatted with its arguments; Unimplemented, Unreachable and Todo always panic with the given message, or their standard one. A message passed to an assertion appears, formatted with the arguments that follow it, in the panic text.",
["inputs"],"all value pairs of a small alphabet, per helper",
"The test suite is written with these helpers, so it cannot notice when one accepts everything.",
["panic.go"],[("assert helpers","panic.go")],["panic or normal return; panic text"])

p("C30","Floating-point operations match IEEE-754 semantics",
"For every F32 and F64 value including signed zeros, infinities, subnormals and NaN, Floor, Ceil, Trunc, Round (halves away from zero), Abs and Frac return the exact result, and Sqrt the correctly rounded one. Exp, Exp2, Ln, Log, Log2, Log10, Powi and Powf return the named mathematical function over their whole range, with the standard special values: to a few units in the last place, for logarithms near one relative to one, and for powers with an error allowance growing with the exponent's size. Add, Sub, Mul, Div, Rem (where offered) and the *Assign methods of floats and complex numbers give the IEEE result of the type's own precision.",
["inputs"],"all 2^32 F32 values for unary methods (thorough), boundary alphabet of F64 values",
"Tests check one value per method; negative, huge, subnormal and special values are a large space.",
["float.go","ops.go"],[("float methods","float.go")],["bit pattern of the result"])

p("C31","Standard input is read line by line without losing data",
"Successive ReadLine calls on standard input append to their buffer, after the text already there, exactly the successive lines of the input, complete and in order and without their line terminators, whatever the line contents and lengths and however the input arrives in chunks. Goroutines sharing a handle each get whole lines, none lost, torn or delivered twice, on every schedule. A last line without a terminator is still delivered, and at end of input the buffer is left unchanged.",
["inputs","fault_sequences","schedules"],"all short inputs over a small alphabet, all ways to chunk them, and all schedules of goroutines sharing the handle",
"No test drives standard input; the result depends on content and chunk boundaries.",
["io.go"],[("ReadLine","io.go")],["buffer contents and Result after each call"])

p("C32","Capacity promises are kept",
"For Vec, VecDeque and BinaryHeap, after every history of operations Capacity is at least Len; WithCapacity(n) gives an empty collection with capacity at least n, and WithLen(n) one of n elements. After Reserve(n) the capacity is at least Len plus n and the length is unchanged; for Vec and BinaryHeap Reserve does nothing when there is room already. Adding a single element while Len is below Capacity leaves Capacity unchanged.",
["histories"],"operation histories to a depth from every constructor, and sizes around powers of two",
"Whether a promise holds depends on the history of growth, wrap-around and removal; the tests look at the capacity of fresh collections only.",
["vec.go","vec_deque.go","binary_heap.go"],[("growth and Reserve","vec_deque.go"),("growth and Reserve","vec.go"),("growth and Reserve","binary_heap.go")],["Capacity and Len after each operation"])

p("C33","Independent and read-only calls do not interfere on any schedule",
"Goroutines that only read the same value (through Len, Get, Contains, Eq, Cmp, iteration, Clone, Debug, the set operations and the other operations that change nothing) each get the result they would get alone, on every schedule, without a data race, and the value stays as it was. Calls on values that share nothing (operations of collections, arithmetic, parsing, Format, strings, files in different folders) do not influence each other either, concurrently or one after the other. Print and Println, whose output is shared, and the argument functions passed by the caller are exempt.",
["schedules","inputs"],"all pairs of read-only operations on shared values and of calls on separate values, every schedule up to a preemption bound, with race detection",
"A cached lookup or a reused scratch buffer gives right answers in every sequential test and wrong ones on particular interleavings.",
["vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go","binary_heap.go","iter.go","option.go","result.go","pair.go","string.go","io.go","ops.go","to_string.go","cmp.go","bitwise.go","time.go","fs.go"],[("absence of hidden shared or lazily written state","every method with unchanged receiver"),("formatting buffers","io.go"),("lookup","btree_map.go")],["results of both calls, reads and writes of shared memory"])

p("C34","Documented costs are kept",
"For every content and comparison function, the sorts of Vec and VecDeque make O(n log n) comparisons; BinarySearch, BTreeMap and BTreeSet lookups, inserts and removals, and BinaryHeap Push and Pop cost O(log n) after every history. Indexing, lengths, ends, hash table operations and every LinkedList operation at its ends (Append and Clear too) cost O(1); Push and Pop of Vec, and of VecDeque at both ends, cost amortised O(1) over every history. Iterations, element searches, Retain, Dedup, Clone, Eq, Append of vectors and the hash set operations are linear, and BTree set operations and traversals cost at most O(n log n).",
["inputs","histories"],"all sizes to 200 and around powers of two; all permutations of small sizes; histories of many patterns; an adversary answering comparisons; costs counted in comparisons, executed statements, moved and allocated elements",
"A quadratic case shows only on particular orders, equal keys or growth histories of large collections; the tests use a handful of elements.",
["vec.go","vec_deque.go","linked_list.go","binary_heap.go","btree_map.go","btree_set.go","hash_map.go","hash_set.go"],[("documented O(1), O(log n), O(n log n)","vec.go, linked_list.go, vec_deque.go"),("tree and heap","btree_map.go, binary_heap.go")],["comparisons made; statements executed; elements copied and allocated"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
