package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// linear: operations that visit every element a bounded number of times (in
// ordered sets with a logarithmic factor).
func linear(c *core.C, k *check, part partFunc, top topFunc) {
	part("linear operations", fmt.Sprintf("operations on whole collections, sizes to 100 and around powers of two to %d, operand sizes 0, 1 and equal, predicates keeping none, half, one in 16, all", top(4096, 32768)), func() {
		for _, n := range sizes(100, top(4096, 32768)) {
			l := make([]E, n)
			for i := range l {
				l[i] = E{i, i}
			}
			lim := func(m int) int { return 150*(n+m) + few }
			cl := func(m int) int { return 4*(n+m) + 16 }
			do := func(what string, m int, f func()) bool { return k.cost(what, n, cl(m), lim(m), f) }
			ok := true
			keeps := []func(i int) bool{
				func(int) bool { return false }, func(int) bool { return true },
				func(i int) bool { return i%2 == 0 }, func(i int) bool { return i%16 == 0 }, func(i int) bool { return i < n/2 }, func(i int) bool { return i >= n/2 },
			}
			for _, keep := range keeps {
				v, d := vec(l), deque(l)
				ok = ok && do("Vec.Retain", 0, func() { v.Retain(func(e E) gost.Bool { return gost.Bool(keep(e.ID)) }) }) &&
					do("VecDeque.Retain", 0, func() { d.Retain(func(e E) gost.Bool { return gost.Bool(keep(e.ID)) }) })
				w := vec(l)
				for i := range w.AsSlice() {
					if keep(i) {
						w.SetUnchecked(gost.USize(i), E{-1, -1})
					}
				}
				u := w.Clone()
				dd := deque(w.AsSlice())
				ok = ok && do("Vec.Dedup", 0, func() { w.Dedup() }) && do("Vec.DedupByKey", 0, func() { u.DedupByKey(func(e E) any { return e.K }) }) &&
					do("VecDeque.Dedup", 0, func() { dd.Dedup(func(e E) any { return e }) })
				it := vec(l).IntoIter()
				ok = ok && do("Filter and Collect", 0, func() { it.Filter(func(e E) gost.Bool { return gost.Bool(keep(e.ID)) }).CollectToVec() })
			}
			{
				v, d := vec(l), deque(l)
				v2, d2 := vec(l), deque(l)
				ok = ok && do("Vec.Insert first", 0, func() { v.Insert(0, E{}) }) && do("Vec.Insert in the middle", 0, func() { v.Insert(gost.USize(n/2), E{}) }) &&
					do("Vec.Reverse", 0, func() { v.Reverse() }) && do("Vec.Contains", 0, func() { v.Contains(E{-9, -9}) }) && do("VecDeque.Contains", 0, func() { d.Contains(E{-9, -9}) }) &&
					do("Vec.Eq", 0, func() { v2.Eq(vec2(v2)) }) && do("VecDeque.Eq", 0, func() { d.Eq(d2) }) &&
					do("Vec.Clone", 0, func() { v2.Clone() }) && do("VecDeque.Clone", 0, func() { d2.Clone() }) && do("VecDeque.AsSlice", 0, func() { d2.AsSlice() }) &&
					do("Vec.Fill", 0, func() { v.Fill(E{}) }) && do("Vec.FillWith", 0, func() { v.FillWith(func() E { return E{} }) }) &&
					do("VecDeque.Fill", 0, func() { d.Fill(E{}) }) && do("VecDeque.FillWith", 0, func() { d.FillWith(func() E { return E{} }) }) &&
					do("Vec Map, Rev, Fold", 0, func() {
						vec2(v2).IntoIter().Map(func(e E) E { return e }).Rev().Fold(E{}, func(a, b E) E { return b })
					})
			}
			for _, m := range []int{0, 1, n} {
				short := make([]E, m)
				for i := range short {
					short[i] = E{2 * i, i}
				}
				v, d, v2, d2 := vec(l), deque(l), vec(short), deque(short)
				x, y := gost.LinkedListNew[E](), gost.LinkedListNew[E]()
				h, g := gost.HashMapNew[gost.I32, E](), gost.HashMapNew[gost.I32, E]()
				s, r := gost.HashSetNew[gost.I32](), gost.HashSetNew[gost.I32]()
				p, q := gost.BinaryHeapNew[E](), gost.BinaryHeapNew[E]()
				for i, e := range l {
					x.PushBack(e)
					h.Insert(gost.I32(i), e)
					s.Insert(gost.I32(i))
					p.Push(e)
				}
				for i, e := range short {
					y.PushBack(e)
					g.Insert(gost.I32(2*i), e)
					r.Insert(gost.I32(2 * i))
					q.Push(e)
				}
				sets := func(name string, a, b gost.HashSet[gost.I32]) bool {
					return do("HashSet.Union"+name, m, func() { a.Union(b) }) && do("HashSet.Intersection"+name, m, func() { a.Intersection(b) }) &&
						do("HashSet.SymmetricDifference"+name, m, func() { a.SymmetricDifference(b) }) && do("HashSet.IsSubset"+name, m, func() { a.IsSubset(b) }) &&
						do("HashSet.IsSuperset"+name, m, func() { a.IsSuperset(b) }) && do("HashSet.IsDisjoint"+name, m, func() { a.IsDisjoint(b) }) && do("HashSet.Eq"+name, m, func() { a.Eq(b) })
				}
				ok = ok && sets("", s, r) && sets(" (operands exchanged)", r, s) &&
					do("HashSet.Clone", 0, func() { s.Clone() }) && do("HashMap.Clone", 0, func() { h.Clone() }) && do("HashMap.Eq", m, func() { h.Eq(g) }) && do("HashMap.Eq itself", n, func() { h.Eq(h) }) &&
					do("LinkedList.Clone", 0, func() { x.Clone() }) && do("LinkedList.Eq", m, func() { x.Eq(y) }) && do("LinkedList.Eq itself", n, func() { x.Eq(x) }) &&
					do("Vec.Append", m, func() { v.Append(&v2) }) && do("VecDeque.Append", m, func() { d.Append(&d2) }) &&
					k.cost("BinaryHeap.Append", n, 8*(n+m)*(lg(n+m)+1)+16, 300*(n+m)*(lg(n+m)+1)+few, func() { p.Append(&q) }) &&
					do("HashSet.Clear", 0, func() { s.Clear() }) && do("HashMap.Clear", 0, func() { h.Clear() })
				if n > 1500 && m == 1 {
					continue
				}
				t, o := gost.BTreeSetNew[E](), gost.BTreeSetNew[E]()
				tm, om := gost.BTreeMapNew[E, gost.I32](), gost.BTreeMapNew[E, gost.I32]()
				for i, e := range l {
					t.Insert(e)
					tm.Insert(e, gost.I32(i))
				}
				for i, e := range short {
					o.Insert(e)
					om.Insert(e, gost.I32(i))
				}
				tree := func(what string, f func()) bool {
					return k.cost(what, n, 60*(n+m+1)*(lg(n+m)+1), 900*(n+m+1)*(lg(n+m)+1), f)
				}
				trees := func(name string, a, b gost.BTreeSet[E]) bool {
					return tree("BTreeSet.Union"+name, func() { a.Union(b) }) && tree("BTreeSet.Intersection"+name, func() { a.Intersection(b) }) &&
						tree("BTreeSet.SymmetricDifference"+name, func() { a.SymmetricDifference(b) }) && tree("BTreeSet.IsSubset"+name, func() { a.IsSubset(b) }) &&
						tree("BTreeSet.IsSuperset"+name, func() { a.IsSuperset(b) }) && tree("BTreeSet.IsDisjoint"+name, func() { a.IsDisjoint(b) }) && tree("BTreeSet.Eq"+name, func() { a.Eq(b) })
				}
				ok = ok && trees("", t, o) && trees(" (operands exchanged)", o, t) && tree("BTreeSet.Clone", func() { t.Clone() }) &&
					tree("BTreeMap.Eq", func() { tm.Eq(&om) }) && tree("BTreeMap.Eq itself", func() { tm.Eq(&tm) })
			}
			if !ok || c.Stopped() {
				return
			}
		}
	})
}

func vec2(v gost.Vec[E]) gost.Vec[E] { return v }
