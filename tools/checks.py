ch("C01","exhaustive enumeration of operand pairs on the real methods against exact sign-magnitude arithmetic",
   "All pairs of the 8-bit types, all pairs of the 16-bit types (quick: all values x boundary values and limit partners), and for 32 and 64 bits all pairs of boundary values plus, for each, the partners at which a sum, difference, product or quotient meets a limit. Trusts that arithmetic depends on the two operands only.")
ch("C02","exhaustive enumeration of operand pairs on the real Checked* methods against exact sign-magnitude arithmetic",
   "Operand pairs as in C01; Some exactly when the exact result fits, with the exact value.")
ch("C03","exhaustive enumeration of operand pairs on the real Saturating* methods against exact clamped arithmetic",
   "Operand pairs as in C01; the exact result clamped into the type.")
ch("C04","exhaustive enumeration of boundary word pairs and of operation histories on the real 128-bit types against two-word and shift-subtract reference arithmetic",
   "All pairs over alphabets of high and low words (6811 values for the cheap operations, 256-1100 for multiplication and division) and limit partners of each; every history of 4 operations over 25 choices. One known finding (sign of I128.Rem for negative divisors, required by an existing test).")
ch("C05","exhaustive enumeration of values and shift amounts on the real Shl and Shr against exact multiplication and floor division",
   "Every amount below the width for every value to 16 bits, for 2000-8000 boundary values of 32 and 64 bits and for 3.4 million (66 million thorough) 128-bit word pairs.")
ch("C06","exhaustive enumeration of values and of texts on the real printing and parsing methods against reference grammars and exact rational arithmetic",
   "Every text to length 7 (8 thorough) over digit, sign and stray characters, every one-character change of the numbers at the limits, exact midpoints between doubles; every value to 16 bits (32 thorough), every F32 (thorough), every F64 exponent with 600-2000 mantissas.")
ch("C07","exhaustive enumeration of value pairs on the real Cmp and Eq against reference orders",
   "All pairs as in C01 for integers, all pairs of boundary floats, of all strings to length 4 (5) over six characters, and of pairs over 19 type combinations (nested ones included): agreement with a total order on all pairs implies antisymmetry and transitivity on all triples of these values.")
ch("C08","explicit-state breadth-first search over operation histories of the real Vec against a sequence model",
   "Every operation history to the stated depth from every constructor, every length/capacity layout with every index, and pairs of vectors sharing Append, executed on the real code and compared completely with a plain slice; growth to 5000 elements; short sequences for 10 element types (any, nil-able, zero-size, funcs).")
ch("C09","exhaustive enumeration of all order types and ring layouts on the real sort, search, dedup and retain code against their definitions",
   "Every order type with ties up to the stated length in every ring layout, every composition for the searches, every content over three keys for dedup and retain, and 12 arrangements at lengths around internal thresholds. Trusts that comparison-based code depends on the order type only.")
ch("C10","explicit-state breadth-first search over operation histories and ring layouts of the real VecDeque against a sequence model",
   "Every history to the stated depth from eight constructors, every (capacity, start, length) ring layout with every operation and index, Append between every two layouts, every push pattern across two growth steps, queue runs of 3000 elements, short sequences for 10 element types; complete comparison with a plain slice after each.")
ch("C11","explicit-state breadth-first search over operation histories of up to three real LinkedLists against sequence models",
   "Every history to the stated depth of one, two and three lists (Append and Clone between them), each state drained from both ends; lists to 5000 elements, short sequences for 10 element types; complete comparison with plain slices.")
ch("C12","explicit-state breadth-first search and order-type enumeration on the real BinaryHeap against a multiset model",
   "Every history to the stated depth over three keys (with identities behind equal keys), every order type of up to 8 pushes with full and interleaved draining, and 12 arrangements of every length up to 140 and around powers of two to 2049.")
ch("C13","explicit-state breadth-first search to a fixpoint over B-tree shapes of the real BTreeMap against an ordered-map model, plus enumeration of single and paired operations on multi-level trees",
   "Every tree shape reachable with at most 32 keys (44 thorough), every operation at every rank in each; histories from 6 bases with all in-memory state told apart; every single operation at every rank at sizes to 160, every pair of operations in three-level trees, fill and removal patterns to four levels, short sequences over many key and value types. Trusts that the code depends on keys through Cmp only.")
ch("C14","explicit-state breadth-first search to a fixpoint over tree shapes of the real BTreeSet against a set model, plus enumeration of single and paired operations on multi-level trees",
   "Same exploration as C13 on BTreeSet.")
ch("C15","exhaustive enumeration of operation sequences (with iterators held across changes) on the real HashMap and HashSet against map and set models",
   "Every sequence of 12 map operations and of 11 set operations to length 6 (7 thorough) from three constructors, without merging states; sizes to 300 and around powers of two to 20000 with fill, overwrite, removal, clearing and refilling; many key and value types (nil, interfaces, structs).")
ch("C16","exhaustive enumeration of all pairs of sets over a small universe in several construction histories, on the real set operations against their definitions",
   "Every pair of subsets of 7 elements (8 thorough) in 16 combinations of construction histories, every set with itself, with independence probed by later changes to result and operands; 12 families of larger sets for every size to 90 and around powers of two to 1025.")
ch("C17","exhaustive enumeration of adaptor chains on the real iterators against list semantics",
   "Every chain of up to 5 steps (6 thorough) of Next, Map, Filter and Rev ended by each consumer, for every iterator of the library and sizes 0 to 5, plus short chains at sizes to 2500. Hash orders are compared as multisets.")
ch("C18","exhaustive enumeration of contents, layouts and single changes on the real Clone and Eq of every (nested) type",
   "Every content up to the stated size in several layouts for 100 composed types, and every value or the boundary values of every primitive type alone, in a Vec and (I8, String) inside each of them; after cloning, every single change to either side (including through nested elements) with the other side watched; Eq on all pairs of values; collections to 3000 elements.")
ch("C19","exhaustive enumeration of operation sequences on the real Option against the Some/None algebra",
   "Every sequence of mutators to the stated length on seven value types (nil-valued ones included) from None and Some, every query and combinator with every callback behaviour in each state, callback calls counted.")
ch("C20","exhaustive enumeration of combinator chains on the real Result against the Ok/Err algebra",
   "Every chain of combinators to the stated length over Ok and Err of several value and error types, every query in each state, callback calls and arguments recorded.")
ch("C21","exhaustive enumeration of templates and of values with their possible displays on the real Format, Display, Debug and Print",
   "Every template up to the stated length over text, brace and placeholder pieces with matching arguments, every character next to a placeholder, every primitive at its boundaries, every small content and layout of every collection (orders of hash collections enumerated as acceptable sets), nested collections and sizes to 300 and around powers of two to 2049; Print and Println observed through a real pipe.")
ch("C22","exhaustive enumeration of condition vectors and branch kinds on the real If/ElseIf/Else chains",
   "Every vector of conditions up to the stated length in every split of chain forms, several chains side by side, long chains; values and calls of every branch function counted.")
ch("C23","exhaustive enumeration of strings, patterns and code-unit sequences on the real String against definitions written out in the check",
   "Every string up to the stated length over alphabets mixing 1- to 4-byte characters, every pattern and replacement over them, every code point for the per-character operations, every UTF-16 unit sequence over the surrogate boundaries, every shared-byte (aliasing) probe. Trusts that invalid UTF-8 is outside the contract.")
ch("C24","exhaustive enumeration of boundary durations and of sleeper interleavings of the real Duration and Sleep under a virtual clock",
   "Every accessor and constructor at every pair of boundary seconds and nanoseconds against 128-bit reference arithmetic; Sleep under a virtual clock for every boundary duration and every assignment of durations to concurrent sleepers.")
ch("C25","explicit-state enumeration of filesystem trees and operation histories on the real functions against a tree model, with fault injection at every write limit",
   "Every tree over a small set of paths with every operation and argument, every history to the stated depth, every short-read pattern and every file-size limit, compared with a model of the whole tree in a scratch folder as an unprivileged user.")
ch("C29","exhaustive enumeration of value pairs and message forms on the real assertion functions",
   "Every pair of boundary values of every type the assertions accept, every message form: panic or not, and the message text.")
ch("C30","exhaustive enumeration of floating-point inputs on the real methods against exact and arbitrary-precision references",
   "F32: every value in the thorough run, every sign, exponent and 13 leading mantissa bits in the quick one. F64: every exponent with patterned mantissas and a boundary alphabet of about 12 000 values. Exact results decided from the bits, elementary functions with math/big to the stated tolerance, special values by C99 Annex F.")
ch("C31","exhaustive enumeration of inputs and of all ways they can arrive in chunks on the real Stdin.ReadLine; preemption-bounded exploration of all schedules of goroutines sharing a handle",
   "Every input up to the stated length over a small alphabet, in every composition of chunks over a real pipe, with every initial buffer; lines around buffer sizes, many lines, regular files; goroutines sharing a handle under every schedule with at most 3 preemptions (4 thorough) on the instrumented code.")
ch("C32","exhaustive explicit-state exploration of operation histories on the real collections, monitoring capacity and length at every step; exhaustive enumeration of sizes",
   "Every history of the stated operations to depth 6 (VecDeque 5; thorough 8 and 7) from 19 constructor calls per collection, states told apart by the whole memory of the collection; sizes to 300 and around powers of two, each filled up to its capacity. The growth policy itself is free.")
ch("C33","preemption-bounded stateless exploration of all schedules of the (automatically instrumented) real code under a controlled scheduler with data-race detection; exhaustive enumeration of all ordered pairs of calls on the unmodified code",
   "About 27 000 scenarios of two goroutines: every pair of read-only operations of every collection, wrapper, string and number type on one shared value in several states, every pair of calls on separate values, and of changes to a value and its clone or another value made from it, cold and after both calls once, at statement granularity with at most 2 preemptions (3 thorough; one less for different or long operations, one schedule for 128-bit divisions and powers), every execution under the race detector; all ordered pairs of the same calls on the unmodified code.")
ch("C26","preemption-bounded stateless exploration of all schedules of the (automatically instrumented) real code under a controlled scheduler with deadlock, leak and data-race detection; exhaustive event orders of the unmodified code in virtual time",
   "Every schedule with at most 3 preemptions (4 thorough) at statement granularity for about 250 scenarios of functions and awaits, replayable; every order of function end and awaits in virtual time on the unmodified code; every gokio file function against its synchronous counterpart in every small tree. Trusts the stand-ins for channels, locks and atomics (exercised also by the unmodified runs).")
ch("C27","preemption-bounded stateless exploration of all schedules of the (automatically instrumented) real code under a controlled scheduler with deadlock, leak and data-race detection; exhaustive event orders of the unmodified code in virtual time",
   "Every schedule with at most 3 preemptions (4 thorough) at statement granularity for about 590 scenarios of thread bodies and Join/IsFinished scripts, replayable; every order of thread end, Join and IsFinished calls in virtual time on the unmodified code. Trusts the stand-ins for channels, locks and atomics (exercised also by the unmodified runs).")
ch("C28","preemption-bounded stateless exploration of all schedules of the (automatically instrumented) real code under a controlled scheduler with deadlock and data-race detection; exhaustive operation sequences of one goroutine on the unmodified code",
   "Every schedule with at most 3 preemptions (4 thorough) at statement granularity for about 550 scenarios of 2-3 (up to 12) goroutines and up to two mutexes with mutual exclusion, lost-update, TryLock and progress monitors; every correctly paired operation sequence to depth 9 (11) on the unmodified code. Trusts the stand-in for sync.Mutex.")
ch("C34","exhaustive enumeration of sizes, arrangements, small permutations and operation histories on the (automatically instrumented) real code with cost counters, comparisons also answered by an adversary",
   "Every stated operation at every size to 100-200 and around powers of two to 4096-16384 (65536-262144 thorough), 14 arrangements, every permutation of up to 7 (8) elements, McIlroy's adversary for every sort, 10 push/pop patterns from 15 capacities and back and forth at every length; each count compared with a multiple (3 or more times today's need) of the stated order. Never measures time. Trusts that work inside Go's own library shows in comparisons and moved elements.")
