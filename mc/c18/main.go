// C18: Clone produces an equal and independent deep copy; Eq is observable equality.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/ref"
)

type I = gost.I32

// D describes a type: how to make values, show them completely, clone and
// compare them, and every way to change one (directly or through a nested
// element).
type D[T any] struct {
	name  string
	gens  []gen[T]
	muts  []mut[T]
	show  func(*T) string
	clone func(*T) *T
	ref   func(*T) *T // AsRef
	eq    func(a, b *T) bool
}

type gen[T any] struct {
	name string
	mk   func() *T
}

// mut changes *T if it applies; several values of the index reach the elements.
type mut[T any] struct {
	name string
	do   func(*T)
}

func p[T any](x T) *T { return &x }

func leaf() *D[I] {
	return &D[I]{
		name:  "I32",
		gens:  []gen[I]{{"0", func() *I { return p(I(0)) }}, {"1", func() *I { return p(I(1)) }}},
		muts:  []mut[I]{{"change", func(x *I) { *x += 40 }}},
		show:  func(x *I) string { return fmt.Sprint(int32(*x)) },
		clone: func(x *I) *I { return p(x.Clone()) },
		ref:   func(x *I) *I { return x.AsRef() },
		eq:    func(a, b *I) bool { return bool(a.Eq(*b)) },
	}
}

func text() *D[gost.String] {
	type S = gost.String
	return &D[S]{
		name:  "String",
		gens:  []gen[S]{{`""`, func() *S { return p(S("")) }}, {`"a"`, func() *S { return p(S("a")) }}, {`"ab"`, func() *S { return p(S("ab")) }}},
		muts:  []mut[S]{{"Push", func(x *S) { x.Push('z') }}, {"Pop", func(x *S) { x.Pop() }}, {"AddAssign", func(x *S) { x.AddAssign("q") }}},
		show:  func(x *S) string { return fmt.Sprintf("%q", string(*x)) },
		clone: func(x *S) *S { return p(x.Clone()) },
		ref:   func(x *S) *S { return x.AsRef() },
		eq:    func(a, b *S) bool { return bool(a.Eq(*b)) },
	}
}

// Box is a user's element type with something behind a pointer.
type Box struct{ p *int32 }

func (b Box) Clone() Box              { x := *b.p; return Box{&x} }
func (b Box) Eq(o Box) gost.Bool      { return *b.p == *o.p }
func (b Box) Cmp(o Box) gost.Ordering { return I(*b.p).Cmp(I(*o.p)) }

func box() *D[Box] {
	mk := func(n int32) gen[Box] { return gen[Box]{fmt.Sprint(n), func() *Box { return &Box{p(n)} }} }
	return &D[Box]{
		name:  "Box",
		gens:  []gen[Box]{mk(0), mk(1)},
		muts:  []mut[Box]{{"write", func(x *Box) { *x.p += 40 }}},
		show:  func(x *Box) string { return fmt.Sprint(*x.p) },
		clone: func(x *Box) *Box { return p(x.Clone()) },
		eq:    func(a, b *Box) bool { return bool(a.Eq(*b)) },
	}
}

// boxSet is a BTreeSet of Boxes: order-preserving writes through its elements.
func boxSet() *D[gost.BTreeSet[Box]] {
	type V = gost.BTreeSet[Box]
	r := &D[V]{name: "BTreeSet[Box]"}
	for _, n := range []int32{0, 1, 2, 5, 11, 12, 30, 90} {
		r.gens = append(r.gens, gen[V]{fmt.Sprint(n), func() *V {
			v := gost.BTreeSetNew[Box]()
			for i := int32(0); i < n; i++ {
				v.Insert(Box{p(i * 7 % n * 10)})
				v.Insert(Box{p(i * 10)})
			}
			return &v
		}})
	}
	r.show = func(v *V) string {
		el, msg := ref.Drain(v.IntoIter(), 100000)
		s := "BTreeSet["
		for _, e := range el {
			s += fmt.Sprint(*e.p, " ")
		}
		return s + "]" + msg
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	r.muts = []mut[V]{{"write through all elements", func(v *V) {
		el, _ := ref.Drain(v.IntoIter(), 100000)
		for _, e := range el {
			*e.p++
		}
	}}, {"Clear", func(v *V) { v.Clear() }}}
	return r
}

// contents enumerates the index sequences of length <= n over k values.
func contents(k, n int) (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, ref.Copy(cur))
		if len(cur) < n {
			for i := 0; i < k; i++ {
				rec(append(ref.Copy(cur), i))
			}
		}
	}
	rec(nil)
	return
}

func genName[T any](gs []gen[T], idx []int) string {
	var s []string
	for _, i := range idx {
		s = append(s, gs[i].name)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func capGens[T any](g []gen[T], n int) []gen[T] {
	if len(g) <= n {
		return g
	}
	// spread over the list
	var r []gen[T]
	for i := 0; i < n; i++ {
		r = append(r, g[i*(len(g)-1)/(n-1)])
	}
	return r
}

func vecOf[T any](d *D[T], maxLen, maxGens int) *D[gost.Vec[T]] {
	type V = gost.Vec[T]
	r := &D[V]{name: "Vec[" + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	for _, idx := range contents(len(gs), maxLen) {
		for layout := 0; layout < 2; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%s/%d", genName(gs, idx), layout), func() *V {
				v := gost.VecNew[T]()
				if layout == 1 {
					v = gost.VecWithCapacity[T](7)
				}
				for _, i := range idx {
					v.Push(*gs[i].mk())
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		var s []string
		sl := v.AsSlice()
		for i := range sl {
			s = append(s, d.show(&sl[i]))
		}
		if v.Len() != gost.USize(len(sl)) {
			return "length differs from slice view"
		}
		return "Vec[" + strings.Join(s, " ") + "]"
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	x := gs[len(gs)-1].mk
	r.muts = []mut[V]{
		{"Push", func(v *V) { v.Push(*x()) }},
		{"Pop, Push", func(v *V) { v.Pop(); v.Push(*x()) }},
		{"Clear", func(v *V) { v.Clear() }},
		{"Reverse", func(v *V) { v.Reverse() }},
		{"Fill", func(v *V) { v.Fill(*x()) }},
		{"Insert", func(v *V) { v.Insert(0, *x()) }},
		{"Retain", func(v *V) { n := 0; v.Retain(func(T) gost.Bool { n++; return n%2 == 0 }) }},
	}
	for i := 0; i < maxLen; i++ {
		at := func(f func(v *V, i gost.USize)) func(v *V) {
			return func(v *V) {
				if gost.USize(i) < v.Len() {
					f(v, gost.USize(i))
				}
			}
		}
		r.muts = append(r.muts, mut[V]{fmt.Sprintf("Set(%d)", i), at(func(v *V, i gost.USize) {
			for _, g := range gs {
				v.Set(i, *g.mk())
			}
		})})
		for _, m := range d.muts {
			r.muts = append(r.muts, mut[V]{fmt.Sprintf("[%d].%s", i, m.name), at(func(v *V, i gost.USize) { m.do(&v.AsSlice()[i]) })},
				mut[V]{fmt.Sprintf("Get(%d).%s", i, m.name), at(func(v *V, i gost.USize) { m.do(p(v.Get(i).Unwrap())) })})
		}
	}
	return r
}

func dequeOf[T any](d *D[T], maxLen, maxGens int) *D[gost.VecDeque[T]] {
	type V = gost.VecDeque[T]
	r := &D[V]{name: "VecDeque[" + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	for _, idx := range contents(len(gs), maxLen) {
		for layout := 0; layout < 4; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%s/%d", genName(gs, idx), layout), func() *V {
				v := gost.VecDequeNew[T]()
				if layout > 0 {
					v = gost.VecDequeWithCapacity[T](4)
				}
				for k := 0; k < layout; k++ {
					v.PushBack(*gs[0].mk())
					v.PopFront()
				}
				if layout == 3 {
					for k := len(idx) - 1; k >= 0; k-- {
						v.PushFront(*gs[idx[k]].mk())
					}
				} else {
					for _, i := range idx {
						v.PushBack(*gs[i].mk())
					}
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		var s []string
		for i := gost.USize(0); i < v.Len(); i++ {
			s = append(s, d.show(p(v.Get(i).Unwrap())))
		}
		return "VecDeque[" + strings.Join(s, " ") + "]"
	}
	r.clone = func(v *V) *V { return v.Clone() }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	x := gs[len(gs)-1].mk
	r.muts = []mut[V]{
		{"PushBack", func(v *V) { v.PushBack(*x()) }},
		{"PushFront", func(v *V) { v.PushFront(*x()) }},
		{"PopBack, PushBack", func(v *V) { v.PopBack(); v.PushBack(*x()) }},
		{"PopFront, PushFront", func(v *V) { v.PopFront(); v.PushFront(*x()) }},
		{"Clear", func(v *V) { v.Clear() }},
		{"Fill", func(v *V) { v.Fill(*x()) }},
		{"grow", func(v *V) { v.Reserve(9); v.PushBack(*x()) }},
	}
	for i := 0; i < maxLen; i++ {
		at := func(f func(v *V, i gost.USize)) func(v *V) {
			return func(v *V) {
				if gost.USize(i) < v.Len() {
					f(v, gost.USize(i))
				}
			}
		}
		r.muts = append(r.muts, mut[V]{fmt.Sprintf("Set(%d)", i), at(func(v *V, i gost.USize) {
			for _, g := range gs {
				v.Set(i, *g.mk())
			}
		})})
		for _, m := range d.muts {
			r.muts = append(r.muts, mut[V]{fmt.Sprintf("Get(%d).%s", i, m.name), at(func(v *V, i gost.USize) { m.do(p(v.Get(i).Unwrap())) })})
		}
	}
	return r
}

func listOf[T any](d *D[T], maxLen, maxGens int) *D[gost.LinkedList[T]] {
	type V = gost.LinkedList[T]
	r := &D[V]{name: "LinkedList[" + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	for _, idx := range contents(len(gs), maxLen) {
		for layout := 0; layout < 2; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%s/%d", genName(gs, idx), layout), func() *V {
				v := gost.LinkedListNew[T]()
				if layout == 1 {
					v.PushBack(*gs[0].mk())
					v.PopBack()
					for k := len(idx) - 1; k >= 0; k-- {
						v.PushFront(*gs[idx[k]].mk())
					}
				} else {
					for _, i := range idx {
						v.PushBack(*gs[i].mk())
					}
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		el, msg := ref.Drain(v.IntoIter(), 1000)
		var s []string
		for i := range el {
			s = append(s, d.show(&el[i]))
		}
		if int(v.Len()) != len(el) {
			msg += "length differs from iteration"
		}
		return "LinkedList[" + strings.Join(s, " ") + "]" + msg
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	x := gs[len(gs)-1].mk
	r.muts = []mut[V]{
		{"PushBack", func(v *V) { v.PushBack(*x()) }},
		{"PushFront", func(v *V) { v.PushFront(*x()) }},
		{"PopBack", func(v *V) { v.PopBack() }},
		{"PopFront", func(v *V) { v.PopFront() }},
		{"Clear", func(v *V) { v.Clear() }},
		{"Append", func(v *V) { o := gost.LinkedListNew[T](); o.PushBack(*x()); v.Append(&o) }},
	}
	for _, m := range d.muts {
		r.muts = append(r.muts,
			mut[V]{"Front()." + m.name, func(v *V) {
				if f := v.Front(); f.IsSome() {
					m.do(f.Unwrap())
				}
			}},
			mut[V]{"Back()." + m.name, func(v *V) {
				if f := v.Back(); f.IsSome() {
					m.do(f.Unwrap())
				}
			}},
			mut[V]{"second." + m.name, func(v *V) {
				it := v.IntoIter()
				it.Next()
				if f := it.Next(); f.IsSome() {
					m.do(p(f.Unwrap()))
				}
			}})
	}
	return r
}

func sorted(s []string) string {
	sort.Strings(s)
	return strings.Join(s, " ")
}

func hashMapOf[T any](d *D[T], nKeys, maxGens int) *D[gost.HashMap[I, T]] {
	type V = gost.HashMap[I, T]
	r := &D[V]{name: "HashMap[I32," + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	total := 1
	for i := 0; i < nKeys; i++ {
		total *= len(gs) + 1
	}
	for x := 0; x < total; x++ {
		for layout := 0; layout < 2; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%d/%d", x, layout), func() *V {
				v := gost.HashMapNew[I, T]()
				if layout == 1 {
					v = gost.HashMapWithCapacity[I, T](9)
					v.Insert(77, *gs[0].mk())
					v.Remove(77)
				}
				for k, y := 0, x; k < nKeys; k++ {
					if j := y % (len(gs) + 1); j > 0 {
						v.Insert(I(k), *gs[j-1].mk())
					}
					y /= len(gs) + 1
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		var s []string
		for k, e := range v.AsMap() {
			g := v.Get(k)
			if g.IsNone() {
				return "Get of a present key is None"
			}
			s = append(s, fmt.Sprintf("%d:%s", k, d.show(&e)))
		}
		return fmt.Sprintf("HashMap[%s]%d", sorted(s), v.Len())
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	x := gs[len(gs)-1].mk
	r.muts = []mut[V]{
		{"Insert(new)", func(v *V) { v.Insert(99, *x()) }},
		{"Clear", func(v *V) { v.Clear() }},
	}
	for k := I(0); k < I(nKeys); k++ {
		r.muts = append(r.muts,
			mut[V]{fmt.Sprintf("Insert(%d)", k), func(v *V) {
				for _, g := range gs {
					v.Insert(k, *g.mk())
				}
			}},
			mut[V]{fmt.Sprintf("Remove(%d)", k), func(v *V) { v.Remove(k) }})
		for _, m := range d.muts {
			r.muts = append(r.muts, mut[V]{fmt.Sprintf("Get(%d).%s", k, m.name), func(v *V) {
				if g := v.Get(k); g.IsSome() {
					m.do(p(g.Unwrap()))
				}
			}})
		}
	}
	return r
}

func hashSet(n int) *D[gost.HashSet[I]] {
	type V = gost.HashSet[I]
	r := &D[V]{name: "HashSet[I32]"}
	for x := 0; x < 1<<n; x++ {
		for layout := 0; layout < 2; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%b/%d", x, layout), func() *V {
				v := gost.HashSetNew[I]()
				if layout == 1 {
					v = gost.HashSetWithCapacity[I](9)
					v.Insert(77)
					v.Remove(77)
				}
				for k := 0; k < n; k++ {
					if x>>k&1 == 1 {
						v.Insert(I(k))
					}
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		var s []string
		for _, e := range v.AsSlice() {
			s = append(s, fmt.Sprint(e))
		}
		return fmt.Sprintf("HashSet[%s]%d", sorted(s), v.Len())
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	r.muts = []mut[V]{{"Insert(new)", func(v *V) { v.Insert(99) }}, {"Clear", func(v *V) { v.Clear() }}}
	for k := I(0); k < I(n); k++ {
		r.muts = append(r.muts, mut[V]{fmt.Sprintf("Insert(%d)", k), func(v *V) { v.Insert(k) }},
			mut[V]{fmt.Sprintf("Remove(%d)", k), func(v *V) { v.Remove(k) }})
	}
	return r
}

func btreeSet(n int, sizes []int) *D[gost.BTreeSet[I]] {
	type V = gost.BTreeSet[I]
	r := &D[V]{name: "BTreeSet[I32]"}
	mk := func(name string, el []I) {
		for layout := 0; layout < 3; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%s/%d", name, layout), func() *V {
				v := gost.BTreeSetNew[I]()
				switch layout {
				case 0:
					for _, e := range el {
						v.Insert(e)
					}
				case 1:
					for i := len(el) - 1; i >= 0; i-- {
						v.Insert(el[i])
					}
				case 2:
					v.Insert(7777)
					for _, e := range el {
						v.Insert(e)
						v.Insert(e + 5000)
					}
					v.Remove(7777)
					for _, e := range el {
						v.Remove(e + 5000)
					}
				}
				return &v
			}})
		}
	}
	for x := 0; x < 1<<n; x++ {
		var el []I
		for k := 0; k < n; k++ {
			if x>>k&1 == 1 {
				el = append(el, I(k))
			}
		}
		mk(fmt.Sprintf("%b", x), el)
	}
	for _, s := range sizes {
		var el, other []I
		for k := 0; k < s; k++ {
			el = append(el, I(k*2))
			other = append(other, I(k*2))
		}
		other[s/2]++
		mk(fmt.Sprintf("size %d", s), el)
		mk(fmt.Sprintf("size %d with one other element", s), other)
	}
	r.show = func(v *V) string {
		el, msg := ref.Drain(v.IntoIter(), 100000)
		return fmt.Sprintf("BTreeSet%v%d%s", el, v.Len(), msg)
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	r.muts = []mut[V]{{"Insert(new)", func(v *V) { v.Insert(99999) }}, {"Insert(first)", func(v *V) { v.Insert(-1) }}, {"Clear", func(v *V) { v.Clear() }},
		{"Insert many", func(v *V) {
			for i := I(0); i < 60; i++ {
				v.Insert(1 + i*2)
			}
		}},
		{"Remove all", func(v *V) {
			for i := I(0); i < 1000; i++ {
				v.Remove(i)
			}
		}}}
	for k := I(0); k < I(n); k++ {
		r.muts = append(r.muts, mut[V]{fmt.Sprintf("Insert(%d)", k), func(v *V) { v.Insert(k) }},
			mut[V]{fmt.Sprintf("Remove(%d)", k), func(v *V) { v.Remove(k) }})
	}
	return r
}

func optionOf[T any](d *D[T], maxGens int) *D[gost.Option[T]] {
	type V = gost.Option[T]
	r := &D[V]{name: "Option[" + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	r.gens = []gen[V]{{"None", func() *V { return p(gost.None[T]()) }}}
	for _, g := range gs {
		r.gens = append(r.gens, gen[V]{"Some(" + g.name + ")", func() *V { return p(gost.Some(*g.mk())) }})
	}
	r.show = func(v *V) string {
		if v.IsNone() {
			return "None"
		}
		return "Some(" + d.show(p(v.Unwrap())) + ")"
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	x := gs[len(gs)-1].mk
	r.muts = []mut[V]{
		{"Insert", func(v *V) { v.Insert(*x()) }}, {"Take", func(v *V) { v.Take() }}, {"Replace", func(v *V) { v.Replace(*x()) }},
	}
	for _, m := range d.muts {
		r.muts = append(r.muts, mut[V]{"Unwrap." + m.name, func(v *V) {
			if v.IsSome() {
				m.do(p(v.Unwrap()))
			}
		}}, mut[V]{"GetOrInsert." + m.name, func(v *V) { m.do(v.GetOrInsert(*x())) }})
	}
	return r
}

var errA, errB = errors.New("a"), errors.New("b")

func resultOf[T any](d *D[T], maxGens int) *D[gost.Result[T]] {
	type V = gost.Result[T]
	r := &D[V]{name: "Result[" + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	r.gens = []gen[V]{{"Err(a)", func() *V { return p(gost.Err[T](errA)) }}, {"Err(b)", func() *V { return p(gost.Err[T](errB)) }}}
	for _, g := range gs {
		r.gens = append(r.gens, gen[V]{"Ok(" + g.name + ")", func() *V { return p(gost.Ok(*g.mk())) }})
	}
	r.show = func(v *V) string {
		if v.IsErr() {
			return "Err(" + v.UnwrapErr().Error() + ")"
		}
		return "Ok(" + d.show(p(v.Unwrap())) + ")"
	}
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(a, b *V) bool { return bool(a.Eq(*b)) }
	for _, m := range d.muts {
		r.muts = append(r.muts, mut[V]{"Unwrap." + m.name, func(v *V) {
			if v.IsOk() {
				m.do(p(v.Unwrap()))
			}
		}})
	}
	r.muts = append(r.muts, mut[V]{"overwrite", func(v *V) { *v = gost.Err[T](errB) }})
	return r
}

func pairOf[A, B any](a *D[A], b *D[B], maxGens int) *D[gost.Pair[A, B]] {
	type V = gost.Pair[A, B]
	r := &D[V]{name: "Pair[" + a.name + "," + b.name + "]"}
	for _, x := range capGens(a.gens, maxGens) {
		for _, y := range capGens(b.gens, maxGens) {
			r.gens = append(r.gens, gen[V]{"(" + x.name + " " + y.name + ")", func() *V { return &V{Key: *x.mk(), Value: *y.mk()} }})
		}
	}
	r.show = func(v *V) string { return "Pair[" + a.show(&v.Key) + " " + b.show(&v.Value) + "]" }
	r.clone = func(v *V) *V { return p(v.Clone()) }
	r.ref = func(v *V) *V { return v.AsRef() }
	r.eq = func(x, y *V) bool { return bool(x.Eq(*y)) }
	for _, m := range a.muts {
		r.muts = append(r.muts, mut[V]{"Key." + m.name, func(v *V) { m.do(&v.Key) }})
	}
	for _, m := range b.muts {
		r.muts = append(r.muts, mut[V]{"Value." + m.name, func(v *V) { m.do(&v.Value) }})
	}
	return r
}

// btreeMapOf has Eq only.
func btreeMapOf[T any](d *D[T], nKeys, maxGens int, sizes []int) *D[gost.BTreeMap[I, T]] {
	type V = gost.BTreeMap[I, T]
	r := &D[V]{name: "BTreeMap[I32," + d.name + "]"}
	gs := capGens(d.gens, maxGens)
	total := 1
	for i := 0; i < nKeys; i++ {
		total *= len(gs) + 1
	}
	for x := 0; x < total; x++ {
		for layout := 0; layout < 2; layout++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("%d/%d", x, layout), func() *V {
				v := gost.BTreeMapNew[I, T]()
				if layout == 1 {
					for k := I(0); k < 14; k++ {
						v.Insert(70+k, *gs[0].mk())
					}
					defer func() {
						for k := I(0); k < 14; k++ {
							v.Remove(70 + k)
						}
					}()
				}
				for k, y := 0, x; k < nKeys; k++ {
					if j := y % (len(gs) + 1); j > 0 {
						v.Insert(I(k), *gs[j-1].mk())
					}
					y /= len(gs) + 1
				}
				return &v
			}})
		}
	}
	for _, s := range sizes {
		for variant := 0; variant < 5; variant++ {
			r.gens = append(r.gens, gen[V]{fmt.Sprintf("size %d variant %d", s, variant), func() *V {
				v := gost.BTreeMapNew[I, T]()
				for i := 0; i < s; i++ {
					k := i
					if variant == 1 {
						k = s - 1 - i
					}
					g := gs[0]
					key := I(k * 2)
					if k == s-1 && variant == 2 {
						g = gs[1]
					}
					if k == s/2 && variant == 3 {
						key++
					}
					if k == 0 && variant == 4 {
						g = gs[1]
					}
					v.Insert(key, *g.mk())
				}
				return &v
			}})
		}
	}
	r.show = func(v *V) string {
		el, msg := ref.Drain[gost.Pair[I, T]](v.IntoIter(), 100000)
		var s []string
		for i := range el {
			s = append(s, fmt.Sprintf("%d:%s", el[i].Key, d.show(&el[i].Value)))
		}
		return fmt.Sprintf("BTreeMap[%s]%d%s", strings.Join(s, " "), v.Len(), msg)
	}
	r.eq = func(a, b *V) bool { return bool(a.Eq(b)) }
	r.ref = func(v *V) *V { return v.AsRef() }
	return r
}

func explore[T any](c *core.C, d *D[T]) {
	if d.clone != nil {
		c.Part("clone "+d.name, fmt.Sprintf("%d values; each cloned, compared, then each of %d changes made to one side with the other watched, and all changes in a row", len(d.gens), len(d.muts)), func() {
			c.Sample("value %s; change %s", d.gens[len(d.gens)-1].name, d.muts[len(d.muts)-1].name)
			c.Par(len(d.gens), func(w *core.W, i int) {
				g := d.gens[i]
				fail := func(format string, a ...any) {
					what := fmt.Sprintf(format, a...)
					c.Fail(fmt.Sprintf("%s %s: %s", d.name, g.name, what), "%s value %s: %s", d.name, g.name, what)
				}
				w.Begin(func() string { return d.name + " " + g.name })
				v := g.mk()
				want := d.show(v)
				cl := d.clone(v)
				w.S++
				w.T++
				w.V++
				if s := d.show(cl); s != want {
					fail("the clone is %s, want %s", s, want)
					return
				}
				if s := d.show(v); s != want {
					fail("Clone changed the original to %s", s)
					return
				}
				if d.ref != nil {
					w.T++
					one := d.ref(v)
					two := d.ref(d.gens[(i+1)%len(d.gens)].mk())
					if s := d.show(one); s != want {
						fail("AsRef points to %s, want %s", s, want)
						return
					}
					if one == two {
						fail("AsRef of two values gives the same pointer")
						return
					}
				}
				if !d.eq(v, cl) || !d.eq(cl, v) {
					fail("the clone is not Eq to the original")
					return
				}
				for side := 0; side < 2; side++ {
					for _, m := range append(d.muts, mut[T]{"every change in a row", func(x *T) {
						for _, m := range d.muts {
							core.Try(func() { m.do(x) })
						}
					}}) {
						a := g.mk()
						b := d.clone(a)
						if side == 1 {
							a, b = b, a
						}
						// changes through copied headers may leave a itself broken
						core.Try(func() { m.do(a) })
						w.T++
						w.V++
						if s := d.show(b); s != want {
							fail("%s on the %s changes the other to %s (was %s)", m.name, []string{"original", "clone"}[side], s, want)
							return
						}
					}
					// a clone is as usable as the original: the same changes
					// give the same result
					for _, m := range d.muts {
						if strings.Contains(m.name, ".") {
							continue // what a change through a copied header does is unspecified
						}
						a, b := g.mk(), d.clone(g.mk())
						m.do(a)
						m.do(b)
						w.T++
						if x, y := d.show(a), d.show(b); x != y {
							fail("%s gives %s on the original and %s on the clone", m.name, x, y)
							return
						}
					}
				}
			})
		})
	}
	c.Part("eq "+d.name, fmt.Sprintf("all %d pairs of values", len(d.gens)*len(d.gens)), func() {
		c.Par(len(d.gens), func(w *core.W, i int) {
			a := d.gens[i].mk()
			sa := d.show(a)
			for _, g := range d.gens {
				w.Begin(func() string { return fmt.Sprintf("%s %s Eq %s", d.name, d.gens[i].name, g.name) })
				b := g.mk()
				sb := d.show(b)
				w.S++
				w.T++
				w.V++
				if got := d.eq(a, b); got != (sa == sb) {
					c.Fail(fmt.Sprintf("%s: %s Eq %s", d.name, sa, sb), "%s: Eq(%s, %s) = %v (values %s, %s)", d.name, sa, sb, got, d.gens[i].name, g.name)
					return
				}
				if s := d.show(b); s != sb || d.show(a) != sa {
					c.Fail(fmt.Sprintf("%s: %s Eq %s modifies", d.name, sa, sb), "%s: Eq(%s, %s) changes an operand", d.name, sa, sb)
					return
				}
			}
		})
	})
}

func main() {
	core.Main("C18", func(c *core.C) {
		c.Assume("elements are of types that implement Clone and Eq", "two Err values holding different error objects with the same text are not compared")
		n := 4
		g := 6
		if c.Thorough {
			n, g = 5, 12
		}
		sizes := []int{11, 12, 23, 40, 75, 150}
		i := leaf()
		large(c)
		primitives(c)
		explore(c, vecOf(i, n+1, 2))
		explore(c, dequeOf(i, n, 2))
		explore(c, listOf(i, n+1, 2))
		explore(c, hashMapOf(i, n, 2))
		explore(c, hashSet(n+1))
		explore(c, btreeSet(n+1, sizes))
		explore(c, btreeMapOf(i, n, 2, sizes))
		explore(c, optionOf(i, 2))
		explore(c, resultOf(i, 2))
		explore(c, pairOf(i, i, 2))
		explore(c, vecOf(text(), 3, 3))
		explore(c, dequeOf(text(), 3, 3))
		explore(c, hashMapOf(text(), 2, 3))
		// one level of nesting: every container in every container
		v, l, hm, hst, bts := vecOf(i, 2, 2), listOf(i, 2, 2), hashMapOf(i, 2, 2), hashSet(2), btreeSet(2, []int{12})
		op, rs, pr := optionOf(v, g), resultOf(v, g), pairOf(i, v, g)
		nest(c, v, g)
		nest(c, l, g)
		nest(c, hm, g)
		nest(c, hst, g)
		nest(c, bts, g)
		nest(c, op, g)
		nest(c, rs, g)
		nest(c, pr, g)
		nest(c, box(), 2)
		explore(c, boxSet())
		// two levels
		vv, lv := vecOf(v, 2, g), listOf(v, 2, g)
		nest(c, vv, g)
		nest(c, lv, g)
		nest(c, hashMapOf(l, 2, g), g)
		nest(c, vecOf(hst, 2, g), g)
	})
}

func nest[T any](c *core.C, d *D[T], g int) {
	explore(c, vecOf(d, 2, g))
	explore(c, dequeOf(d, 2, g))
	explore(c, listOf(d, 2, g))
	explore(c, hashMapOf(d, 2, g))
	explore(c, btreeMapOf(d, 2, 3, []int{12, 40}))
	explore(c, optionOf(d, g))
	explore(c, resultOf(d, g))
	explore(c, pairOf(leaf(), d, g))
	explore(c, pairOf(d, text(), g))
}
