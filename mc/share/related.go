package share

import "github.com/myyrakle/gost"

// Related makes two values that came from each other but share nothing any
// more (a clone, the source of an Append, a set and the result of a set
// operation), and lists changes to such a value.
type Related struct {
	Name string
	New  func() (a, b any)
	Ops  []Op
	// Past is the operation done before ("" for none): schedules are explored of
	// pairs that have it on one side.
	Past string
}

func mixed(n int) gost.Vec[I] { // unsorted, with spare capacity
	v := gost.VecNew[I]()
	for i := 0; i < n; i++ {
		v.Push(I((i*5 + 3) % 7))
	}
	return v
}

func mixedDeque(n int) gost.VecDeque[I] {
	v := gost.VecDequeNew[I]()
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			v.PushFront(I((i*5 + 3) % 7))
		} else {
			v.PushBack(I((i*5 + 3) % 7))
		}
	}
	return v
}

func down(a, b I) gost.Ordering { return b.Cmp(a) }

// Pairs lists the related values.
func Pairs() []Related {
	type V = gost.Vec[I]
	type D = gost.VecDeque[I]
	type L = gost.LinkedList[I]
	type B = gost.BinaryHeap[I]
	type M = gost.HashMap[I, I]
	type S = gost.HashSet[I]
	type TS = gost.BTreeSet[I]

	vec := func(name string, long bool, f func(v *V)) Op {
		return Op{name, long, func(o any) string { v := o.(*V); f(v); return vecI(*v) }}
	}
	vecOps := []Op{
		vec("AsSlice", false, func(v *V) {}),
		vec("Push", false, func(v *V) { v.Push(9) }),
		vec("Pop", false, func(v *V) { v.Pop() }),
		vec("Insert", false, func(v *V) { v.Insert(0, 9) }),
		vec("Set", false, func(v *V) { v.Set(0, 9) }),
		vec("Reserve", false, func(v *V) { v.Reserve(20) }),
		vec("Retain", true, func(v *V) { v.Retain(func(x I) gost.Bool { return x > 2 }) }),
		vec("Dedup", true, func(v *V) { v.Push(v.Pop().UnwrapOr(9)); v.Dedup() }),
		vec("DedupByKey", true, func(v *V) { v.DedupByKey(func(x I) any { return x / 3 }) }),
		vec("Swap and Reverse", false, func(v *V) { v.Reverse() }),
		vec("Fill", false, func(v *V) { v.Fill(9) }),
		vec("Sort", true, func(v *V) { v.Sort() }),
		vec("SortBy", true, func(v *V) { v.SortBy(down) }),
		vec("SortUnstable", true, func(v *V) { v.SortUnstable() }),
		vec("SortUnstableBy", true, func(v *V) { v.SortUnstableBy(down) }),
		vec("Clear and Push", false, func(v *V) { v.Clear(); v.Push(9) }),
		vec("Append", false, func(v *V) { o := vecOf(2); v.Append(&o) }),
	}
	deque := func(name string, long bool, f func(v *D)) Op {
		return Op{name, long, func(o any) string { v := o.(*D); f(v); return sliceI(v.AsSlice()) }}
	}
	dequeOps := []Op{
		deque("AsSlice", false, func(v *D) {}),
		deque("PushBack", false, func(v *D) { v.PushBack(9) }),
		deque("PushFront", false, func(v *D) { v.PushFront(9) }),
		deque("PopBack", false, func(v *D) { v.PopBack() }),
		deque("PopFront", false, func(v *D) { v.PopFront() }),
		deque("Set", false, func(v *D) { v.Set(0, 9) }),
		deque("Reserve", false, func(v *D) { v.Reserve(20) }),
		deque("Retain", true, func(v *D) { v.Retain(func(x I) gost.Bool { return x > 2 }) }),
		deque("Dedup", true, func(v *D) { v.PushBack(v.Back().UnwrapOr(9)); v.Dedup(func(x I) any { return x }) }),
		deque("Fill", false, func(v *D) { v.Fill(9) }),
		deque("Sort", true, func(v *D) { v.Sort() }),
		deque("SortBy", true, func(v *D) { v.SortBy(down) }),
		deque("SortUnstable", true, func(v *D) { v.SortUnstable() }),
		deque("SortUnstableBy", true, func(v *D) { v.SortUnstableBy(down) }),
		deque("Clear and PushBack", false, func(v *D) { v.Clear(); v.PushBack(9) }),
		deque("Append", false, func(v *D) { o := dequeOf(2); v.Append(&o) }),
	}
	list := func(name string, f func(v *L)) Op {
		return Op{name, true, func(o any) string { v := o.(*L); f(v); return seq(drain(v.IntoIter(), num[I])) }}
	}
	listOps := []Op{
		list("IntoIter", func(v *L) {}),
		list("PushBack", func(v *L) { v.PushBack(9) }),
		list("PushFront", func(v *L) { v.PushFront(9) }),
		list("PopBack", func(v *L) { v.PopBack() }),
		list("PopFront", func(v *L) { v.PopFront() }),
		list("write through Front", func(v *L) {
			if p := v.Front(); p.IsSome() {
				*p.Unwrap() = 9
			}
		}),
		list("write through Back", func(v *L) {
			if p := v.Back(); p.IsSome() {
				*p.Unwrap() = 9
			}
		}),
		list("Clear and PushBack", func(v *L) { v.Clear(); v.PushBack(9) }),
		list("Append", func(v *L) { o := listOf(2); v.Append(&o) }),
	}
	heap := func(name string, f func(v *B)) Op {
		return Op{name, true, func(o any) string {
			v := o.(*B)
			f(v)
			s := ""
			for v.Len() > 0 {
				s += optI(v.Pop())
			}
			return s
		}}
	}
	heapOps := []Op{
		heap("Pop all", func(v *B) {}),
		heap("Push", func(v *B) { v.Push(9) }),
		heap("Pop and Push", func(v *B) { v.Pop(); v.Push(0) }),
		heap("Clear and Push", func(v *B) { v.Clear(); v.Push(1) }),
		heap("Append", func(v *B) { o := heapOf(2); v.Append(&o) }),
	}
	hmap := func(name string, f func(v *M)) Op {
		return Op{name, true, func(o any) string { v := o.(*M); f(v); return set(drain(v.IntoIter(), pair)) }}
	}
	hmapOps := []Op{
		hmap("IntoIter", func(v *M) {}),
		hmap("Insert", func(v *M) { v.Insert(0, 9); v.Insert(7, 9) }),
		hmap("Remove", func(v *M) { v.Remove(0) }),
		hmap("Clear", func(v *M) { v.Clear(); v.Insert(3, 3) }),
	}
	hset := func(name string, f func(v *S)) Op {
		return Op{name, true, func(o any) string { v := o.(*S); f(v); return set(drain(v.IntoIter(), num[I])) }}
	}
	hsetOps := []Op{
		hset("IntoIter", func(v *S) {}),
		hset("Insert", func(v *S) { v.Insert(0); v.Insert(7) }),
		hset("Remove", func(v *S) { v.Remove(0) }),
		hset("Clear", func(v *S) { v.Clear(); v.Insert(3) }),
	}
	tset := func(name string, f func(v *TS)) Op {
		return Op{name, true, func(o any) string { v := o.(*TS); f(v); return seq(drain(v.IntoIter(), num[I])) }}
	}
	tsetOps := []Op{
		tset("IntoIter", func(v *TS) {}),
		tset("Insert", func(v *TS) { v.Insert(0); v.Insert(7) }),
		tset("Remove", func(v *TS) { v.Remove(0) }),
		tset("Clear", func(v *TS) { v.Clear(); v.Insert(3) }),
	}

	var out []Related
	add := func(name string, ops []Op, f func() (a, b any)) { out = append(out, Related{name, f, ops, ""}) }
	for _, n := range []int{1, 3, 5} {
		add("a Vec of "+num(n)+" and its clone", vecOps, func() (any, any) {
			a := mixed(n)
			b := a.Clone()
			return &a, &b
		})
		add("a VecDeque of "+num(n)+" and its clone", dequeOps, func() (any, any) {
			a := mixedDeque(n)
			return &a, a.Clone()
		})
		add("a Vec of "+num(n)+" and one appended to it", vecOps, func() (any, any) {
			a, b := mixed(n-1), mixed(n)
			a.Append(&b)
			b.Push(4)
			return &a, &b
		})
		add("a VecDeque of "+num(n)+" and one appended to it", dequeOps, func() (any, any) {
			a, b := mixedDeque(n-1), mixedDeque(n)
			a.Append(&b)
			b.PushBack(4)
			return &a, &b
		})
		add("a LinkedList of "+num(n)+" and its clone", listOps, func() (any, any) {
			a := listOf(n)
			b := a.Clone()
			return &a, &b
		})
		add("a LinkedList of "+num(n)+" and one appended to it", listOps, func() (any, any) {
			a, b := listOf(n-1), listOf(n)
			a.Append(&b)
			b.PushBack(4)
			return &a, &b
		})
		add("a BinaryHeap of "+num(n)+" and one appended to it", heapOps, func() (any, any) {
			a, b := heapOf(n-1), heapOf(n)
			a.Append(&b)
			b.Push(4)
			return &a, &b
		})
		add("a HashMap of "+num(n)+" and its clone", hmapOps, func() (any, any) {
			a := hashMapOf(n)
			b := a.Clone()
			return &a, &b
		})
		add("a HashSet of "+num(n)+" and its clone", hsetOps, func() (any, any) {
			a := hashSetOf(n)
			b := a.Clone()
			return &a, &b
		})
		add("a BTreeSet of "+num(n)+" and its clone", tsetOps, func() (any, any) {
			a := btreeSetOf(n)
			b := a.Clone()
			return &a, &b
		})
	}
	// what an operation leaves in the original may come into the clone
	for _, h := range vecOps {
		out = append(out, Related{"a Vec and its clone, after " + h.Name, func() (any, any) {
			a := mixed(5)
			h.Run(&a)
			b := a.Clone()
			return &a, &b
		}, vecOps, h.Name})
	}
	for _, h := range dequeOps {
		out = append(out, Related{"a VecDeque and its clone, after " + h.Name, func() (any, any) {
			a := mixedDeque(5)
			h.Run(&a)
			return &a, a.Clone()
		}, dequeOps, h.Name})
	}
	for _, h := range listOps {
		out = append(out, Related{"a LinkedList and its clone, after " + h.Name, func() (any, any) {
			a := listOf(3)
			h.Run(&a)
			b := a.Clone()
			return &a, &b
		}, listOps, h.Name})
	}
	for _, h := range hmapOps {
		out = append(out, Related{"a HashMap and its clone, after " + h.Name, func() (any, any) {
			a := hashMapOf(3)
			h.Run(&a)
			b := a.Clone()
			return &a, &b
		}, hmapOps, h.Name})
	}
	for _, h := range hsetOps {
		out = append(out, Related{"a HashSet and its clone, after " + h.Name, func() (any, any) {
			a := hashSetOf(3)
			h.Run(&a)
			b := a.Clone()
			return &a, &b
		}, hsetOps, h.Name})
	}
	for _, h := range tsetOps {
		out = append(out, Related{"a BTreeSet and its clone, after " + h.Name, func() (any, any) {
			a := btreeSetOf(14)
			h.Run(&a)
			b := a.Clone()
			return &a, &b
		}, tsetOps, h.Name})
	}
	for _, n := range []int{0, 3} {
		for i, f := range []func(a, b S) S{S.Union, S.Intersection, S.SymmetricDifference} {
			name := []string{"union", "intersection", "symmetric difference"}[i]
			add("a HashSet and its "+name+" with "+num(n)+" others", hsetOps, func() (any, any) {
				a := hashSetOf(3)
				b := f(a, hashSetOf(n))
				return &a, &b
			})
			add("a HashSet and the "+name+" of "+num(n)+" others with it", hsetOps, func() (any, any) {
				a := hashSetOf(3)
				b := f(hashSetOf(n), a)
				return &a, &b
			})
		}
		for i, f := range []func(a, b TS) TS{TS.Union, TS.Intersection, TS.SymmetricDifference} {
			name := []string{"union", "intersection", "symmetric difference"}[i]
			add("a BTreeSet and its "+name+" with "+num(n)+" others", tsetOps, func() (any, any) {
				a := btreeSetOf(3)
				b := f(a, btreeSetOf(n))
				return &a, &b
			})
			add("a BTreeSet and the "+name+" of "+num(n)+" others with it", tsetOps, func() (any, any) {
				a := btreeSetOf(3)
				b := f(btreeSetOf(n), a)
				return &a, &b
			})
		}
	}
	return out
}
