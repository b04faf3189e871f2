package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

type partFunc = func(name, bounds string, f func())
type topFunc = func(quick, thorough int) int

const few = 400 // what an operation of constant cost may need

// constant: operations whose cost does not depend on the size.
func constant(c *core.C, k *check, part partFunc, top topFunc) {
	const why = "in every size to 200 and around powers of two to "
	part("constant cost", "reading by index, ends and lengths of Vec, VecDeque, LinkedList; LinkedList's Push, Pop, Clear and Append; hash table operations: "+why+fmt.Sprint(top(16384, 262144)), func() {
		for _, n := range sizes(200, top(16384, 262144)) {
			if c.Stopped() {
				return
			}
			l := make([]E, n)
			for i := range l {
				l[i] = E{i, i}
			}
			one := func(what string, f func()) bool { return k.cost(what, n, 8, few, f) }
			v, d := vec(l), deque(l)
			h := gost.HashMapNew[gost.I32, E]()
			s := gost.HashSetNew[gost.I32]()
			b := gost.BinaryHeapNew[E]()
			t := gost.BTreeMapNew[E, int]()
			for i, e := range l {
				h.Insert(gost.I32(i), e)
				s.Insert(gost.I32(i))
				if n <= 4097 {
					b.Push(e)
					t.Insert(e, i)
				}
			}
			var at []gost.USize
			for i := 0; i < n; i += 1 + n/40 {
				at = append(at, gost.USize(i))
			}
			if n > 0 {
				at = append(at, gost.USize(n-1))
			}
			ok := one("Vec.Len", func() { v.Len() }) && one("Vec.IsEmpty", func() { v.IsEmpty() }) && one("Vec.Get out of bounds", func() { v.Get(gost.USize(n)) }) &&
				one("VecDeque.Len", func() { d.Len() }) && one("VecDeque.IsEmpty", func() { d.IsEmpty() }) && one("VecDeque.Get out of bounds", func() { d.Get(gost.USize(n)) }) &&
				one("VecDeque.Front", func() { d.Front() }) && one("VecDeque.Back", func() { d.Back() }) &&
				one("HashMap.Len", func() { h.Len() }) && one("HashSet.Len", func() { s.Len() }) && one("BinaryHeap.Len", func() { b.Len() }) && one("BTreeMap.Len", func() { t.Len() }) &&
				one("HashMap.IsEmpty", func() { h.IsEmpty() }) && one("HashSet.IsEmpty", func() { s.IsEmpty() }) && one("BinaryHeap.IsEmpty", func() { b.IsEmpty() }) && one("BTreeMap.IsEmpty", func() { t.IsEmpty() }) &&
				one("HashMap.Get of no key", func() { h.Get(-1) }) && one("HashSet.Contains of no key", func() { s.Contains(-1) })
			for _, i := range at {
				ok = ok && one("Vec.Get", func() { v.Get(i) }) && one("Vec.GetUnchecked", func() { v.GetUnchecked(i) }) && one("Vec.Set", func() { v.Set(i, E{}) }) && one("Vec.Swap", func() { v.Swap(i, gost.USize(n)-1-i) }) &&
					one("VecDeque.Get", func() { d.Get(i) }) && one("VecDeque.GetUnchecked", func() { d.GetUnchecked(i) }) && one("VecDeque.Set", func() { d.Set(i, E{}) }) && one("VecDeque.Swap", func() { d.Swap(i, gost.USize(n)-1-i) }) &&
					one("HashMap.Get", func() { h.Get(gost.I32(i)) }) && one("HashMap.ContainsKey", func() { h.ContainsKey(gost.I32(i)) }) &&
					one("HashMap.Remove", func() { h.Remove(gost.I32(i)) }) && one("HashMap.Insert", func() { h.Insert(gost.I32(i), E{}) }) && one("HashMap.Insert again", func() { h.Insert(gost.I32(i), E{}) }) &&
					one("HashSet.Contains", func() { s.Contains(gost.I32(i)) }) && one("HashSet.Get", func() { s.Get(gost.I32(i)) }) &&
					one("HashSet.Remove", func() { s.Remove(gost.I32(i)) }) && one("HashSet.Insert", func() { s.Insert(gost.I32(i)) }) && one("HashSet.Insert again", func() { s.Insert(gost.I32(i)) })
			}
			list := func(m int) gost.LinkedList[E] {
				x := gost.LinkedListNew[E]()
				for i := 0; i < m; i++ {
					x.PushBack(E{i, i})
				}
				return x
			}
			x := list(n)
			ok = ok && one("LinkedList.Len", func() { x.Len() }) && one("LinkedList.IsEmpty", func() { x.IsEmpty() }) &&
				one("LinkedList.Front", func() { x.Front() }) && one("LinkedList.Back", func() { x.Back() }) &&
				one("LinkedList.PushBack", func() { x.PushBack(E{}) }) && one("LinkedList.PushFront", func() { x.PushFront(E{}) }) &&
				one("LinkedList.PopBack", func() { x.PopBack() }) && one("LinkedList.PopFront", func() { x.PopFront() }) &&
				one("LinkedList.PopFront and PushBack", func() { x.PushBack(x.PopFront().UnwrapOr(E{})) })
			for _, m := range []int{0, 1, n} {
				y, z := list(m), list(n)
				ok = ok && one(fmt.Sprintf("LinkedList.Append of %d", m), func() { z.Append(&y) }) && one("LinkedList.Append to it", func() { y.Append(&z) }) &&
					one("LinkedList.PushBack after Append", func() { y.PushBack(E{}); z.PushBack(E{}) }) && one("LinkedList.Clear", func() { y.Clear() })
			}
			if !ok {
				return
			}
		}
	})
}

// amortised: many operations on one object, their sum counted.
func amortised(c *core.C, k *check, part partFunc, top topFunc) {
	part("amortised cost", "Vec.Push/Pop and VecDeque.Push/Pop at both ends: n operations of 10 patterns from capacities 0..8 and around powers of two; Reserve before", func() {
		type seq struct {
			name        string
			push, pop   func()
			push2, pop2 func()
			reserve     func(n int)
		}
		targets := []struct {
			name string
			mk   func(capacity int) seq
		}{
			{"Vec", func(capacity int) seq {
				v := gost.VecWithCapacity[E](gost.USize(capacity))
				push, pop := func() { v.Push(E{}) }, func() { v.Pop() }
				return seq{push: push, pop: pop, push2: push, pop2: pop, reserve: func(n int) { v.Reserve(gost.USize(n)) }}
			}},
			{"VecDeque", func(capacity int) seq {
				v := gost.VecDequeWithCapacity[E](gost.USize(capacity))
				return seq{push: func() { v.PushBack(E{}) }, pop: func() { v.PopFront() }, push2: func() { v.PushFront(E{}) }, pop2: func() { v.PopBack() }, reserve: func(n int) { v.Reserve(gost.USize(n)) }}
			}},
		}
		// a pattern makes about n operations
		patterns := []struct {
			name string
			run  func(s seq, n int)
		}{
			{"pushes", func(s seq, n int) { times(n, s.push) }},
			{"pushes at the other end", func(s seq, n int) { times(n, s.push2) }},
			{"pushes at both ends", func(s seq, n int) { times(n/2, func() { s.push(); s.push2() }) }},
			{"pushes, then pops", func(s seq, n int) { times(n/2, s.push); times(n/2, s.pop) }},
			{"pushes, then pops at the other end", func(s seq, n int) { times(n/2, s.push); times(n/2, s.pop2) }},
			{"a queue of steady length", func(s seq, n int) { times(n/8, s.push); times(3*n/8, func() { s.push(); s.pop() }) }},
			{"a stack of steady length", func(s seq, n int) { times(n/8, s.push2); times(3*n/8, func() { s.pop2(); s.push2() }) }},
			{"two forward, one back", func(s seq, n int) { times(n/3, func() { s.push(); s.push(); s.pop2() }) }},
			{"one forward, two back", func(s seq, n int) { times(n/4, s.push); times(n/4, func() { s.push(); s.pop2(); s.pop2() }) }},
			{"two forward, three back", func(s seq, n int) {
				times(n/6, s.push2)
				times(n/6, func() { s.push(); s.push(); s.pop2(); s.pop(); s.pop2() })
			}},
		}
		caps := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 1023, 1024, 1025}
		for _, t := range targets {
			for _, cp := range caps {
				for _, p := range patterns {
					for _, n := range []int{1 << 12, top(1<<17, 1<<20)} {
						if n > 1<<12 && cp > 4 && cp != 1024 {
							continue
						}
						k.w.Begin(func() string { return fmt.Sprint(t.name, " of capacity ", cp, " ", p.name, " ", n) })
						s := t.mk(cp)
						u := meter(func() { p.run(s, n) })
						k.w.T += int64(n)
						ok := k.judge(fmt.Sprintf("%s of capacity %d, %s,", t.name, cp, p.name), n, u, -1, 120*n+20*cp)
						if u.moves+u.makes > 24*n+20*cp {
							c.Fail(t.name+" "+p.name, "%s of capacity %d, %d operations (%s): %d elements moved and %d allocated (limit %d in all)", t.name, cp, n, p.name, u.moves, u.makes, 24*n+20*cp)
							ok = false
						}
						if !ok || c.Stopped() {
							return
						}
					}
				}
			}
			// back and forth at every length: growing or shrinking may not be repeated each time
			for _, m := range sizes(300, top(4096, 32768)) {
				s := t.mk(0)
				times(m, s.push)
				const n = 3000
				for r, f := range []func(){
					func() { times(n/2, func() { s.push(); s.pop() }) },
					func() { times(n/2, func() { s.pop2(); s.push2() }) },
					func() { times(n/4, func() { s.push(); s.push(); s.pop2(); s.pop2() }) },
				} {
					u := meter(f)
					k.w.T += n
					if !k.judge(fmt.Sprintf("%s, back and forth (%d), %d operations", t.name, r, n), m, u, -1, 120*n+24*m) || c.Stopped() {
						return
					}
				}
			}
			for _, m := range sizes(300, top(4096, 32768)) {
				s := t.mk(0)
				s.reserve(m)
				if !k.cost(t.name+" Reserve, then as many pushes", m, -1, 120*m+few, func() { times(m, s.push) }) {
					return
				}
			}
		}
	})
	part("whole traversals", "one pass of the iterators of every collection, of sizes to 100 and around powers of two", func() {
		for _, n := range sizes(100, top(8192, 65536)) {
			if c.Stopped() {
				return
			}
			l := make([]E, n)
			x, h, s := gost.LinkedListNew[E](), gost.HashMapNew[gost.I32, E](), gost.HashSetNew[gost.I32]()
			t, ts := gost.BTreeMapNew[E, int](), gost.BTreeSetNew[E]()
			for i := range l {
				l[i] = E{i, i}
				x.PushBack(l[i])
				h.Insert(gost.I32(i), l[i])
				s.Insert(gost.I32(i))
				t.Insert(l[i], i)
				ts.Insert(l[i])
			}
			v, d := vec(l), deque(l)
			lin, log := 120*n+few, 120*n*(lg(n)+1)+few
			cl := n*(lg(n)+4) + 8
			ok := k.cost("Vec iteration", n, 8, lin, func() { all(v.IntoIter()) }) &&
				k.cost("VecDeque iteration", n, 8, lin, func() { all(d.IntoIter()) }) &&
				k.cost("LinkedList iteration", n, 8, lin, func() { all(x.IntoIter()) }) &&
				k.cost("HashMap iteration", n, 8, lin, func() { all(h.IntoIter()) }) &&
				k.cost("HashMap Keys", n, 8, lin, func() { all(h.Keys()) }) &&
				k.cost("HashMap Values", n, 8, lin, func() { all(h.Values()) }) &&
				k.cost("HashSet iteration", n, 8, lin, func() { all(s.IntoIter()) }) &&
				k.cost("BTreeMap iteration", n, cl, log, func() { all(t.IntoIter()) }) &&
				k.cost("BTreeMap Keys", n, cl, log, func() { all(t.Keys()) }) &&
				k.cost("BTreeMap Values", n, cl, log, func() { all(t.Values()) }) &&
				k.cost("BTreeSet iteration", n, cl, log, func() { all(ts.IntoIter()) })
			if !ok {
				return
			}
		}
	})
}

func all[T any](it gost.Iterator[T]) {
	for it.Next().IsSome() {
	}
}

func times(n int, f func()) {
	for i := 0; i < n; i++ {
		f()
	}
}

// trees: operations of logarithmic cost.
func trees(c *core.C, k *check, part partFunc, top topFunc) {
	orders := arrangements[:0:0]
	for _, a := range arrangements {
		if a.name != "equal" && a.name != "two values" && a.name != "sawtooth" {
			orders = append(orders, a)
		}
	}
	limits := func(n int) (int, int) { return 40 * (lg(n) + 1), 600 * (lg(n) + 1) }
	part("ordered maps", fmt.Sprintf("BTreeMap and BTreeSet: every operation of histories of up to %d keys inserted in %d orders, looked up, and removed in each of 5 orders", top(8192, 65536), len(orders)), func() {
		for _, n := range []int{10, 100, 1000, top(8192, 65536)} {
			for _, in := range orders {
				for out := 0; out < 5; out++ {
					m, s := gost.BTreeMapNew[E, int](), gost.BTreeSetNew[E]()
					step := func(what string, size int, f func()) bool {
						cl, wl := limits(size)
						return k.cost(what+", keys "+in.name+",", size, cl, wl, f)
					}
					keys := elems(in, n)
					for i, e := range keys {
						if !step("BTreeMap.Insert", i, func() { m.Insert(e, i) }) || !step("BTreeSet.Insert", i, func() { s.Insert(e) }) || c.Stopped() {
							return
						}
					}
					for _, e := range keys {
						gap := E{-1 - e.K, 0}
						if !step("BTreeMap.Get", n, func() { m.Get(e) }) || !step("BTreeMap.ContainsKey", n, func() { m.ContainsKey(e) }) || !step("BTreeSet.Contains", n, func() { s.Contains(e) }) ||
							!step("BTreeMap.Get of no key", n, func() { m.Get(gap) }) || !step("BTreeMap.Insert again", n, func() { m.Insert(e, 1) }) || c.Stopped() {
							return
						}
					}
					for i := range keys {
						j := i
						switch out {
						case 1:
							j = n - 1 - i
						case 2:
							j = (i + n/2) % n
						case 3: // from both ends
							if j = i / 2; i%2 == 1 {
								j = n - 1 - i/2
							}
						case 4:
							j = (i * 7919) % n
						}
						e := keys[j]
						if !step("BTreeMap.Remove", n-i, func() { m.Remove(e) }) || !step("BTreeSet.Remove", n-i, func() { s.Remove(e) }) || c.Stopped() {
							return
						}
						if i%5 == 0 && (!step("BTreeMap.Get after removals", n-i, func() { m.Get(keys[(j+1)%n]) }) || !step("BTreeMap.Remove of no key", n-i, func() { m.Remove(e) })) {
							return
						}
					}
				}
			}
		}
	})
	part("heaps", fmt.Sprintf("BinaryHeap: every Push and Pop of histories of up to %d elements pushed in %d arrangements and popped, and a queue of steady length", top(8192, 65536), len(arrangements)), func() {
		for _, n := range []int{10, 100, 1000, top(8192, 65536)} {
			for _, in := range arrangements {
				h := gost.BinaryHeapNew[E]()
				total := usage{}
				step := func(what string, size int, f func()) bool {
					u := meter(f)
					total.moves += u.moves + u.makes
					u.moves, u.makes = 0, 0 // growth is amortised
					cl, wl := limits(size)
					return k.judge("BinaryHeap."+what+", "+in.name+",", size, u, cl, wl)
				}
				l := elems(in, n)
				for i, e := range l {
					if !step("Push", i, func() { h.Push(e) }) {
						return
					}
				}
				for i := range l {
					if !step("Pop and Push", n, func() { h.Pop(); h.Push(l[i]) }) {
						return
					}
				}
				for i := range l {
					if !step("Pop", n-i, func() { h.Pop() }) || c.Stopped() {
						return
					}
				}
				if total.moves > 100*n+few {
					c.Fail("BinaryHeap growth", "BinaryHeap, %s: %d elements moved and allocated by %d operations", in.name, total.moves, 4*n)
					return
				}
				for _, e := range l {
					h.Push(e)
				}
				if !k.cost("BinaryHeap.IntoSortedVec, "+in.name+",", n, 8*n*(lg(n)+4)+20, 150*n*(lg(n)+4)+few, func() { h.IntoSortedVec() }) {
					return
				}
			}
		}
	})
}
