// Package share lists, for C33, the operations of the library that only read a
// value, with values to share, and calls on values of their own.
//
// Results are put into words without fmt, whose pools would order goroutines.
package share

import (
	"errors"
	"sort"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
)

type I = gost.I32

var errNo = errors.New("no")

// Op reads the object o points to.
type Op struct {
	Name string
	Long bool // many steps
	Run  func(o any) string
}

// Kind is a type with values to share.
type Kind struct {
	Name   string
	States []State
	Ops    []Op
}

type State struct {
	Name string
	New  func() any
}

// Call works on values of its own, made from x (0 or 1).
type Call struct {
	Name  string
	Heavy bool // very many steps
	Run   func(x int) string
}

func op[T any](name string, f func(v *T) string) Op {
	return Op{name, false, func(o any) string { return f(o.(*T)) }}
}

func long[T any](name string, f func(v *T) string) Op {
	return Op{name, true, func(o any) string { return f(o.(*T)) }}
}

func state[T any](name string, f func() T) State {
	return State{name, func() any { v := f(); return &v }}
}

func num[T ~int | ~int8 | ~int16 | ~int32 | ~int64](x T) string {
	return strconv.FormatInt(int64(x), 10)
}
func uns[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](x T) string {
	return strconv.FormatUint(uint64(x), 10)
}
func yes[T ~bool](b T) string { return strconv.FormatBool(bool(b)) }

func opt[T any](o gost.Option[T], f func(T) string) string {
	if o.IsNone() {
		return "None"
	}
	return "Some " + f(o.Unwrap())
}

func optI(o gost.Option[I]) string { return opt(o, num[I]) }

func sliceI(l []I) string {
	s := ""
	for _, x := range l {
		s += num(x) + " "
	}
	return s
}

func vecI(v gost.Vec[I]) string { return sliceI(v.AsSlice()) }

func drain[T any](it gost.Iterator[T], f func(T) string) []string {
	var s []string
	for {
		x := it.Next()
		if x.IsNone() {
			return s
		}
		s = append(s, f(x.Unwrap()))
	}
}

func seq(s []string) string { return strings.Join(s, " ") }
func set(s []string) string { sort.Strings(s); return strings.Join(s, " ") }

func pair(p gost.Pair[I, I]) string { return num(p.Key) + ":" + num(p.Value) }

// adaptors of an iterator over I made anew by mk.
func adaptors[T any](name string, mk func(v *T) gost.Iterator[I], words func([]string) string) []Op {
	return []Op{
		long(name+" Next", func(v *T) string { return words(drain(mk(v), num[I])) }),
		long(name+" Map", func(v *T) string { return words(drain(mk(v).Map(func(x I) I { return x + 1 }), num[I])) }),
		long(name+" Filter", func(v *T) string {
			return words(drain(mk(v).Filter(func(x I) gost.Bool { return x%2 == 1 }), num[I]))
		}),
		long(name+" Fold", func(v *T) string { return num(mk(v).Fold(0, func(a, b I) I { return a + b })) }),
		long(name+" Rev", func(v *T) string { return words(drain(mk(v).Rev(), num[I])) }),
		long(name+" CollectToVec", func(v *T) string { x := mk(v).CollectToVec(); return words(drain(x.IntoIter(), num[I])) }),
		long(name+" CollectToLinkedList", func(v *T) string {
			x := mk(v).CollectToLinkedList()
			return words(drain(x.IntoIter(), num[I]))
		}),
	}
}

func pairAdaptors[T any](name string, mk func(v *T) gost.Iterator[gost.Pair[I, I]], words func([]string) string) []Op {
	type P = gost.Pair[I, I]
	return []Op{
		long(name+" Next", func(v *T) string { return words(drain(mk(v), pair)) }),
		long(name+" Map", func(v *T) string {
			return words(drain(mk(v).Map(func(x P) P { return P{Key: x.Key, Value: x.Value + 1} }), pair))
		}),
		long(name+" Filter", func(v *T) string {
			return words(drain(mk(v).Filter(func(x P) gost.Bool { return x.Key%2 == 1 }), pair))
		}),
		long(name+" Fold", func(v *T) string {
			return pair(mk(v).Fold(P{}, func(a, b P) P { return P{Key: a.Key + b.Key, Value: a.Value + b.Value} }))
		}),
		long(name+" Rev", func(v *T) string { return words(drain(mk(v).Rev(), pair)) }),
		long(name+" CollectToVec", func(v *T) string { x := mk(v).CollectToVec(); return words(drain(x.IntoIter(), pair)) }),
		long(name+" CollectToLinkedList", func(v *T) string {
			x := mk(v).CollectToLinkedList()
			return words(drain(x.IntoIter(), pair))
		}),
	}
}

// letters sorts the characters, for texts in unspecified order.
func letters(s gost.String) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

var sizes = []int{0, 1, 5}

func sized[T any](mk func(n int) T, sizes ...int) (out []State) {
	for _, n := range sizes {
		out = append(out, state(strconv.Itoa(n)+" elements", func() T { return mk(n) }))
	}
	return
}

func vecOf(n int) gost.Vec[I] {
	v := gost.VecNew[I]()
	for i := 0; i < n; i++ {
		v.Push(I(2 * i))
	}
	return v
}

func dequeOf(n int) gost.VecDeque[I] {
	v := gost.VecDequeWithCapacity[I](6)
	for i := n / 2; i < n; i++ {
		v.PushBack(I(2 * i))
	}
	for i := n/2 - 1; i >= 0; i-- {
		v.PushFront(I(2 * i)) // wraps
	}
	return v
}

func listOf(n int) gost.LinkedList[I] {
	v := gost.LinkedListNew[I]()
	for i := 0; i < n; i++ {
		v.PushBack(I(2 * i))
	}
	return v
}

func heapOf(n int) gost.BinaryHeap[I] {
	v := gost.BinaryHeapNew[I]()
	for i := 0; i < n; i++ {
		v.Push(I(2 * i))
	}
	return v
}

func hashMapOf(n int) gost.HashMap[I, I] {
	v := gost.HashMapNew[I, I]()
	for i := 0; i < n; i++ {
		v.Insert(I(2*i), I(i))
	}
	return v
}

func hashSetOf(n int) gost.HashSet[I] {
	v := gost.HashSetNew[I]()
	for i := 0; i < n; i++ {
		v.Insert(I(2 * i))
	}
	return v
}

func btreeMapOf(n int) gost.BTreeMap[I, I] {
	v := gost.BTreeMapNew[I, I]()
	for i := 0; i < n; i++ {
		v.Insert(I(2*i), I(i))
	}
	return v
}

func btreeSetOf(n int) gost.BTreeSet[I] {
	v := gost.BTreeSetNew[I]()
	for i := 0; i < n; i++ {
		v.Insert(I(2 * i))
	}
	return v
}

func join(l ...[]Op) (out []Op) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}

// Kinds lists the types with their read-only operations.
func Kinds() []Kind {
	type V = gost.Vec[I]
	type D = gost.VecDeque[I]
	type L = gost.LinkedList[I]
	type B = gost.BinaryHeap[I]
	type M = gost.HashMap[I, I]
	type S = gost.HashSet[I]
	type TM = gost.BTreeMap[I, I]
	type TS = gost.BTreeSet[I]
	type O = gost.Option[I]
	type R = gost.Result[I]
	type P = gost.Pair[I, I]
	type A = gost.I128
	type U = gost.U128
	type T = gost.String
	type Du = gost.Duration
	return []Kind{
		{"Vec", sized(vecOf, sizes...), join([]Op{
			op("Len", func(v *V) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *V) string { return yes(v.IsEmpty()) }),
			op("Capacity", func(v *V) string { return yes(v.Capacity() >= v.Len()) }),
			op("AsSlice", func(v *V) string { return sliceI(v.AsSlice()) }),
			op("Get", func(v *V) string { return optI(v.Get(0)) + optI(v.Get(4)) }),
			op("GetUnchecked", func(v *V) string {
				if v.Len() == 0 {
					return ""
				}
				return num(v.GetUnchecked(v.Len() - 1))
			}),
			op("Contains", func(v *V) string { return yes(v.Contains(8)) + yes(v.Contains(1)) }),
			op("BinarySearch", func(v *V) string {
				return opt(v.BinarySearch(2), uns[gost.USize]) + opt(v.BinarySearch(3), uns[gost.USize])
			}),
			op("BinarySearchBy", func(v *V) string {
				return opt(v.BinarySearchBy(func(x I) gost.Ordering { return x.Cmp(8) }), uns[gost.USize])
			}),
			long("Display", func(v *V) string { return string(v.Display()) }),
			long("Debug", func(v *V) string { return string(v.Debug()) }),
			long("Clone", func(v *V) string { return vecI(v.Clone()) }),
			long("Eq itself", func(v *V) string { return yes(v.Eq(*v)) }),
			long("Eq another", func(v *V) string { return yes(v.Eq(vecOf(5))) }),
			op("AsRef", func(v *V) string { return vecI(*v.AsRef()) }),
		}, adaptors("IntoIter", func(v *V) gost.Iterator[I] { return v.IntoIter() }, seq))},
		{"VecDeque", sized(dequeOf, 0, 1, 5, 6), join([]Op{
			op("Len", func(v *D) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *D) string { return yes(v.IsEmpty()) }),
			op("Capacity", func(v *D) string { return yes(v.Capacity() >= v.Len()) }),
			op("AsSlice", func(v *D) string { return sliceI(v.AsSlice()) }),
			op("Get", func(v *D) string { return optI(v.Get(0)) + optI(v.Get(4)) }),
			op("GetUnchecked", func(v *D) string {
				if v.Len() == 0 {
					return ""
				}
				return num(v.GetUnchecked(v.Len() - 1))
			}),
			op("Front", func(v *D) string { return optI(v.Front()) }),
			op("Back", func(v *D) string { return optI(v.Back()) }),
			op("Contains", func(v *D) string { return yes(v.Contains(8)) + yes(v.Contains(1)) }),
			op("BinarySearch", func(v *D) string {
				return opt(v.BinarySearch(2), uns[gost.USize]) + opt(v.BinarySearch(3), uns[gost.USize])
			}),
			op("BinarySearchBy", func(v *D) string {
				return opt(v.BinarySearchBy(func(x I) gost.Ordering { return x.Cmp(8) }), uns[gost.USize])
			}),
			long("Display", func(v *D) string { return string(v.Display()) }),
			long("Debug", func(v *D) string { return string(v.Debug()) }),
			long("Clone", func(v *D) string { return sliceI(v.Clone().AsSlice()) }),
			long("Eq itself", func(v *D) string { return yes(v.Eq(*v)) }),
			long("Eq another", func(v *D) string { return yes(v.Eq(dequeOf(5))) }),
			op("AsRef", func(v *D) string { return sliceI(v.AsRef().AsSlice()) }),
		}, adaptors("IntoIter", func(v *D) gost.Iterator[I] { return v.IntoIter() }, seq))},
		{"LinkedList", sized(listOf, sizes...), join([]Op{
			op("Len", func(v *L) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *L) string { return yes(v.IsEmpty()) }),
			op("Front", func(v *L) string { return opt(v.Front(), func(p *I) string { return num(*p) }) }),
			op("Back", func(v *L) string { return opt(v.Back(), func(p *I) string { return num(*p) }) }),
			long("Display", func(v *L) string { return string(v.Display()) }),
			long("Debug", func(v *L) string { return string(v.Debug()) }),
			long("Clone", func(v *L) string { c := v.Clone(); return seq(drain(c.IntoIter(), num[I])) }),
			long("Eq itself", func(v *L) string { return yes(v.Eq(*v)) }),
			long("Eq another", func(v *L) string { return yes(v.Eq(listOf(5))) }),
			op("AsRef", func(v *L) string { return uns(v.AsRef().Len()) }),
		}, adaptors("IntoIter", func(v *L) gost.Iterator[I] { return v.IntoIter() }, seq))},
		{"BinaryHeap", sized(heapOf, sizes...), []Op{
			op("Len", func(v *B) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *B) string { return yes(v.IsEmpty()) }),
			op("Capacity", func(v *B) string { return yes(v.Capacity() >= v.Len()) }),
			op("AsSlice", func(v *B) string { return sliceI(v.AsSlice()) }),
			op("IntoVec", func(v *B) string { return vecI(v.IntoVec()) }),
		}},
		{"HashMap", sized(hashMapOf, sizes...), join([]Op{
			op("Len", func(v *M) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *M) string { return yes(v.IsEmpty()) }),
			op("Get", func(v *M) string { return optI(v.Get(0)) + optI(v.Get(8)) + optI(v.Get(1)) }),
			op("ContainsKey", func(v *M) string { return yes(v.ContainsKey(8)) + yes(v.ContainsKey(1)) }),
			op("AsMap", func(v *M) string { return num(len(v.AsMap())) }),
			long("Display", func(v *M) string { return letters(v.Display()) }),
			long("Debug", func(v *M) string { return letters(v.Debug()) }),
			long("Clone", func(v *M) string { c := v.Clone(); return set(drain(c.IntoIter(), pair)) }),
			long("Eq itself", func(v *M) string { return yes(v.Eq(*v)) }),
			op("AsRef", func(v *M) string { return uns(v.AsRef().Len()) }),
		}, pairAdaptors("IntoIter", func(v *M) gost.Iterator[P] { return v.IntoIter() }, set),
			adaptors("Keys", func(v *M) gost.Iterator[I] { return v.Keys() }, set),
			adaptors("Values", func(v *M) gost.Iterator[I] { return v.Values() }, set))},
		{"HashSet", sized(hashSetOf, sizes...), join([]Op{
			op("Len", func(v *S) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *S) string { return yes(v.IsEmpty()) }),
			op("Get", func(v *S) string { return optI(v.Get(0)) + optI(v.Get(8)) + optI(v.Get(1)) }),
			op("Contains", func(v *S) string { return yes(v.Contains(8)) + yes(v.Contains(1)) }),
			op("AsSlice", func(v *S) string { return num(len(v.AsSlice())) }),
			long("Display", func(v *S) string { return letters(v.Display()) }),
			long("Debug", func(v *S) string { return letters(v.Debug()) }),
			long("Clone", func(v *S) string { c := v.Clone(); return set(drain(c.IntoIter(), num[I])) }),
			long("Eq itself", func(v *S) string { return yes(v.Eq(*v)) }),
			long("IsSubset", func(v *S) string { return yes(v.IsSubset(*v)) }),
			long("IsSuperset", func(v *S) string { return yes(v.IsSuperset(*v)) }),
			long("IsDisjoint", func(v *S) string { return yes(v.IsDisjoint(gost.HashSetNew[I]())) }),
			long("Union", func(v *S) string { c := v.Union(hashSetOf(1)); return set(drain(c.IntoIter(), num[I])) }),
			long("Intersection", func(v *S) string { c := v.Intersection(hashSetOf(3)); return set(drain(c.IntoIter(), num[I])) }),
			long("SymmetricDifference", func(v *S) string {
				c := v.SymmetricDifference(hashSetOf(3))
				return set(drain(c.IntoIter(), num[I]))
			}),
			long("Union of another with it", func(v *S) string { c := hashSetOf(1); c = c.Union(*v); return set(drain(c.IntoIter(), num[I])) }),
			op("AsRef", func(v *S) string { return uns(v.AsRef().Len()) }),
		}, adaptors("IntoIter", func(v *S) gost.Iterator[I] { return v.IntoIter() }, set))},
		{"BTreeMap", sized(btreeMapOf, 0, 1, 5, 14), join([]Op{
			op("Len", func(v *TM) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *TM) string { return yes(v.IsEmpty()) }),
			op("Get", func(v *TM) string { return optI(v.Get(0)) + optI(v.Get(8)) + optI(v.Get(1)) }),
			op("ContainsKey", func(v *TM) string { return yes(v.ContainsKey(8)) + yes(v.ContainsKey(1)) }),
			long("Display", func(v *TM) string { return string(v.Display()) }),
			long("Debug", func(v *TM) string { return string(v.Debug()) }),
			long("Eq itself", func(v *TM) string { return yes(v.Eq(v)) }),
			long("Eq another", func(v *TM) string { o := btreeMapOf(1); return yes(v.Eq(&o)) }),
			op("AsRef", func(v *TM) string { return uns(v.AsRef().Len()) }),
		}, pairAdaptors("IntoIter", func(v *TM) gost.Iterator[P] { return v.IntoIter() }, seq),
			adaptors("Keys", func(v *TM) gost.Iterator[I] { return v.Keys() }, seq),
			adaptors("Values", func(v *TM) gost.Iterator[I] { return v.Values() }, seq))},
		{"BTreeSet", sized(btreeSetOf, 0, 1, 5, 14), join([]Op{
			op("Len", func(v *TS) string { return uns(v.Len()) }),
			op("IsEmpty", func(v *TS) string { return yes(v.IsEmpty()) }),
			op("Contains", func(v *TS) string { return yes(v.Contains(8)) + yes(v.Contains(1)) }),
			long("Display", func(v *TS) string { return string(v.Display()) }),
			long("Debug", func(v *TS) string { return string(v.Debug()) }),
			long("Clone", func(v *TS) string { c := v.Clone(); return seq(drain(c.IntoIter(), num[I])) }),
			long("Eq itself", func(v *TS) string { return yes(v.Eq(*v)) }),
			long("IsSubset", func(v *TS) string { return yes(v.IsSubset(*v)) }),
			long("IsSuperset", func(v *TS) string { return yes(v.IsSuperset(*v)) }),
			long("IsDisjoint", func(v *TS) string { return yes(v.IsDisjoint(gost.BTreeSetNew[I]())) }),
			long("Union", func(v *TS) string { c := v.Union(btreeSetOf(1)); return seq(drain(c.IntoIter(), num[I])) }),
			long("Intersection", func(v *TS) string { c := v.Intersection(btreeSetOf(3)); return seq(drain(c.IntoIter(), num[I])) }),
			long("SymmetricDifference", func(v *TS) string {
				c := v.SymmetricDifference(btreeSetOf(3))
				return seq(drain(c.IntoIter(), num[I]))
			}),
			long("Union of another with it", func(v *TS) string {
				c := btreeSetOf(1)
				c = c.Union(*v)
				return seq(drain(c.IntoIter(), num[I]))
			}),
			op("AsRef", func(v *TS) string { return uns(v.AsRef().Len()) }),
		}, adaptors("IntoIter", func(v *TS) gost.Iterator[I] { return v.IntoIter() }, seq))},
		{"Option", []State{state("None", func() O { return gost.None[I]() }), state("Some", func() O { return gost.Some[I](4) })}, []Op{
			op("IsSome", func(v *O) string { return yes(v.IsSome()) }),
			op("IsNone", func(v *O) string { return yes(v.IsNone()) }),
			op("UnwrapOr", func(v *O) string { return num(v.UnwrapOr(9)) }),
			op("UnwrapOrElse", func(v *O) string { return num(v.UnwrapOrElse(func() I { return 9 })) }),
			op("IsSomeAnd", func(v *O) string { return yes(v.IsSomeAnd(func(x I) gost.Bool { return x == 4 })) }),
			op("Map", func(v *O) string { return optI(v.Map(func(x I) I { return x + 1 })) }),
			op("MapOr", func(v *O) string { return num(v.MapOr(7, func(x I) I { return x + 1 })) }),
			op("MapOrElse", func(v *O) string { return num(v.MapOrElse(func() I { return 7 }, func(x I) I { return x + 1 })) }),
			op("Filter", func(v *O) string { return optI(v.Filter(func(x I) gost.Bool { return x == 4 })) }),
			op("Or", func(v *O) string { return optI(v.Or(gost.Some[I](9))) }),
			op("OrElse", func(v *O) string { return optI(v.OrElse(func() O { return gost.Some[I](9) })) }),
			op("Xor", func(v *O) string { return optI(v.Xor(gost.Some[I](9))) }),
			op("Clone", func(v *O) string { return optI(v.Clone()) }),
			op("Eq", func(v *O) string { return yes(v.Eq(*v)) }),
			op("Display", func(v *O) string { return string(v.Display()) }),
			op("Debug", func(v *O) string { return string(v.Debug()) }),
			op("AsRef", func(v *O) string { return optI(*v.AsRef()) }),
		}},
		{"Result", []State{state("Err", func() R { return gost.Err[I](errNo) }), state("Ok", func() R { return gost.Ok[I](4) })}, []Op{
			op("IsOk", func(v *R) string { return yes(v.IsOk()) }),
			op("IsErr", func(v *R) string { return yes(v.IsErr()) }),
			op("UnwrapOr", func(v *R) string { return num(v.UnwrapOr(9)) }),
			op("UnwrapOrElse", func(v *R) string { return num(v.UnwrapOrElse(func() I { return 9 })) }),
			op("IsOkAnd", func(v *R) string { return yes(v.IsOkAnd(func(x I) gost.Bool { return x == 4 })) }),
			op("IsErrAnd", func(v *R) string { return yes(v.IsErrAnd(func(e error) gost.Bool { return e.Error() == "no" })) }),
			op("Map", func(v *R) string { return optI(v.Map(func(x I) I { return x + 1 }).Ok()) }),
			op("MapErr", func(v *R) string { return optI(v.MapErr(func(e error) error { return e }).Ok()) }),
			op("MapOr", func(v *R) string { return num(v.MapOr(7, func(x I) I { return x + 1 })) }),
			op("And", func(v *R) string { return optI(v.And(gost.Ok[I](9)).Ok()) }),
			op("AndThen", func(v *R) string { return optI(v.AndThen(func(x I) R { return gost.Ok(x + 1) }).Ok()) }),
			op("Ok", func(v *R) string { return optI(v.Ok()) }),
			op("Err", func(v *R) string { return opt(v.Err(), func(e error) string { return e.Error() }) }),
			op("Clone", func(v *R) string { return optI(v.Clone().Ok()) }),
			op("Eq", func(v *R) string { return yes(v.Eq(*v)) }),
			op("Display", func(v *R) string { return string(v.Display()) }),
			op("Debug", func(v *R) string { return string(v.Debug()) }),
			op("AsRef", func(v *R) string { return optI(v.AsRef().Ok()) }),
		}},
		{"Pair", []State{state("(1, 2)", func() P { return P{Key: 1, Value: 2} })}, []Op{
			op("Display", func(v *P) string { return string(v.Display()) }),
			op("Debug", func(v *P) string { return v.Debug() }),
			op("ToString", func(v *P) string { return string(v.ToString()) }),
			op("Clone", func(v *P) string { return pair(v.Clone()) }),
			op("Eq", func(v *P) string { return yes(v.Eq(*v)) }),
			op("Cmp", func(v *P) string { return num(int(v.Cmp(P{Key: 1, Value: 1}))) }),
			op("AsRef", func(v *P) string { return pair(*v.AsRef()) }),
		}},
	}
}
