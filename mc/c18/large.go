package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/ref"
)

type inner = gost.Vec[I]

func cellOf(x int) inner {
	v := gost.VecNew[I]()
	v.Push(I(x))
	return v
}

// big is a collection of one-element vectors (or, for sets, numbers).
type big interface {
	clone() big
	eq(big) bool
	show() []int             // contents in order
	poke(i, x int)           // write x into the i-th element, in place
	put(x int)               // add one
	drop()                   // remove one
	swap(i, j int) (ok bool) // exchange two elements, where the order matters
}

type bigVec struct{ v *gost.Vec[inner] }

func (b bigVec) clone() big    { c := b.v.Clone(); return bigVec{&c} }
func (b bigVec) eq(o big) bool { return bool(b.v.Eq(*o.(bigVec).v)) }
func (b bigVec) show() (out []int) {
	for _, x := range b.v.AsSlice() {
		out = append(out, int(x.GetUnchecked(0)))
	}
	return
}
func (b bigVec) poke(i, x int) {
	e := b.v.GetUnchecked(gost.USize(i))
	e.SetUnchecked(0, I(x))
}
func (b bigVec) put(x int) { b.v.Push(cellOf(x)) }
func (b bigVec) drop()     { b.v.Pop() }
func (b bigVec) swap(i, j int) bool {
	b.v.Swap(gost.USize(i), gost.USize(j))
	return true
}

type bigDeque struct{ v *gost.VecDeque[inner] }

func (b bigDeque) clone() big    { return bigDeque{b.v.Clone()} }
func (b bigDeque) eq(o big) bool { return bool(b.v.Eq(*o.(bigDeque).v)) }
func (b bigDeque) show() (out []int) {
	for i := gost.USize(0); i < b.v.Len(); i++ {
		e := b.v.GetUnchecked(i)
		out = append(out, int(e.GetUnchecked(0)))
	}
	return
}
func (b bigDeque) poke(i, x int) {
	e := b.v.GetUnchecked(gost.USize(i))
	e.SetUnchecked(0, I(x))
}
func (b bigDeque) put(x int) { b.v.PushBack(cellOf(x)) }
func (b bigDeque) drop()     { b.v.PopBack() }
func (b bigDeque) swap(i, j int) bool {
	b.v.Swap(gost.USize(i), gost.USize(j))
	return true
}

type bigList struct{ v *gost.LinkedList[inner] }

func (b bigList) clone() big    { c := b.v.Clone(); return bigList{&c} }
func (b bigList) eq(o big) bool { return bool(b.v.Eq(*o.(bigList).v)) }
func (b bigList) elems() (out []inner) {
	es, _ := ref.Drain[inner](b.v.IntoIter(), 1<<20)
	return es
}
func (b bigList) show() (out []int) {
	for _, e := range b.elems() {
		out = append(out, int(e.GetUnchecked(0)))
	}
	return
}
func (b bigList) poke(i, x int) {
	e := b.elems()[i]
	e.SetUnchecked(0, I(x))
}
func (b bigList) put(x int)          { b.v.PushBack(cellOf(x)) }
func (b bigList) drop()              { b.v.PopBack() }
func (b bigList) swap(i, j int) bool { return false }

type bigMap struct{ v *gost.HashMap[I, inner] }

func (b bigMap) clone() big    { c := b.v.Clone(); return bigMap{&c} }
func (b bigMap) eq(o big) bool { return bool(b.v.Eq(*o.(bigMap).v)) }
func (b bigMap) show() (out []int) {
	for i := 0; i < int(b.v.Len()); i++ {
		e := b.v.Get(I(i))
		if e.IsNone() {
			return append(out, -1)
		}
		x := e.Unwrap()
		out = append(out, int(x.GetUnchecked(0)))
	}
	return
}
func (b bigMap) poke(i, x int) {
	e := b.v.Get(I(i)).Unwrap()
	e.SetUnchecked(0, I(x))
}
func (b bigMap) put(x int) { b.v.Insert(I(b.v.Len()), cellOf(x)) }
func (b bigMap) drop()     { b.v.Remove(I(b.v.Len()) - 1) }
func (b bigMap) swap(i, j int) bool {
	x, y := b.v.Get(I(i)).Unwrap(), b.v.Get(I(j)).Unwrap()
	b.v.Insert(I(i), y)
	b.v.Insert(I(j), x)
	return true
}

type bigHash struct{ v *gost.HashSet[I] }

func (b bigHash) clone() big    { c := b.v.Clone(); return bigHash{&c} }
func (b bigHash) eq(o big) bool { return bool(b.v.Eq(*o.(bigHash).v)) }
func (b bigHash) show() (out []int) {
	for i := 0; len(out) < int(b.v.Len()); i++ {
		if b.v.Contains(I(i)) {
			out = append(out, i)
		} else if i > 1<<20 {
			return append(out, -1)
		}
	}
	return
}
func (b bigHash) poke(i, x int) {
	b.v.Remove(I(b.show()[i]))
	b.v.Insert(I(x))
}
func (b bigHash) put(x int)          { b.v.Insert(I(x)) }
func (b bigHash) drop()              { s := b.show(); b.v.Remove(I(s[len(s)-1])) }
func (b bigHash) swap(i, j int) bool { return false }

type bigTree struct{ v *gost.BTreeSet[I] }

func (b bigTree) clone() big    { c := b.v.Clone(); return bigTree{&c} }
func (b bigTree) eq(o big) bool { return bool(b.v.Eq(*o.(bigTree).v)) }
func (b bigTree) show() (out []int) {
	es, _ := ref.Drain[I](b.v.IntoIter(), 1<<20)
	for _, e := range es {
		out = append(out, int(e))
	}
	return
}
func (b bigTree) poke(i, x int) {
	b.v.Remove(I(b.show()[i]))
	b.v.Insert(I(x))
}
func (b bigTree) put(x int)          { b.v.Insert(I(x)) }
func (b bigTree) drop()              { s := b.show(); b.v.Remove(I(s[len(s)-1])) }
func (b bigTree) swap(i, j int) bool { return false }

func large(c *core.C) {
	mk := []struct {
		name string
		f    func() big
	}{
		{"Vec", func() big { v := gost.VecNew[inner](); return bigVec{&v} }},
		{"VecDeque", func() big { v := gost.VecDequeNew[inner](); return bigDeque{&v} }},
		{"VecDeque with a moved start", func() big {
			v := gost.VecDequeWithCapacity[inner](7)
			for i := 0; i < 5; i++ {
				v.PushBack(cellOf(0))
				v.PopFront()
			}
			return bigDeque{&v}
		}},
		{"LinkedList", func() big { v := gost.LinkedListNew[inner](); return bigList{&v} }},
		{"HashMap", func() big { v := gost.HashMapNew[I, inner](); return bigMap{&v} }},
		{"HashSet", func() big { v := gost.HashSetNew[I](); return bigHash{&v} }},
		{"BTreeSet", func() big { v := gost.BTreeSetNew[I](); return bigTree{&v} }},
	}
	var ns []int
	for n := 0; n <= 70; n++ {
		ns = append(ns, n)
	}
	for b := 128; b <= 1024; b *= 2 {
		ns = append(ns, b-1, b, b+1)
	}
	ns = append(ns, 3000)
	if c.Thorough {
		ns = append(ns, 4095, 4096, 4097, 10000)
	}
	c.Part("large collections", "six collections of 0..70 and, around powers of two, to 3000 elements (10000 thorough), nested where possible: cloned; every single element (at most 40 places in large ones) changed in place on either side, exchanged, added, removed, with the other side and Eq watched", func() {
		c.Par(len(ns)*len(mk), func(w *core.W, job int) {
			n, k := ns[len(ns)-1-job/len(mk)], mk[job%len(mk)]
			name := fmt.Sprintf("%s of %d", k.name, n)
			w.Begin(func() string { return name })
			build := func() (big, []int) {
				b := k.f()
				var m []int
				for i := 0; i < n; i++ {
					b.put(i)
					m = append(m, i)
				}
				return b, m
			}
			a, m := build()
			fail := func(format string, args ...any) bool {
				c.Fail(name+" "+format, "%s: "+format, append([]any{name}, args...)...)
				return false
			}
			both := func(what string, x, y big, wx, wy []int) bool {
				w.T++
				if !ref.Same(x.show(), wx) {
					return fail("%s: one side holds %.200v", what, fmt.Sprint(x.show()))
				}
				if !ref.Same(y.show(), wy) {
					return fail("%s: the other side holds %.200v", what, fmt.Sprint(y.show()))
				}
				same := ref.Same(wx, wy)
				if x.eq(y) != same || y.eq(x) != same {
					return fail("%s: Eq is %v and %v, want %v", what, x.eq(y), y.eq(x), same)
				}
				return true
			}
			w.S++
			w.V++
			cl := a.clone()
			if !both("after Clone", a, cl, m, m) {
				return
			}
			var at []int
			step := 1
			if n > 70 {
				step = n / 40
			}
			for i := 0; i < n; i += step {
				at = append(at, i)
			}
			if n > 70 {
				at = append(at, n-1)
			}
			for _, i := range at {
				for side := 0; side < 2; side++ {
					x, y := a, cl
					if side == 1 {
						x, y = cl, a
					}
					x.poke(i, n+7)
					wx := ref.Copy(m)
					switch k.name {
					case "HashSet", "BTreeSet":
						wx = append(append(wx[:i:i], wx[i+1:]...), n+7)
					default:
						wx[i] = n + 7
					}
					if !both(fmt.Sprintf("element %d changed in place on side %d", i, side), x, y, wx, m) {
						return
					}
					switch k.name {
					case "HashSet", "BTreeSet":
						x.poke(n-1, i)
					default:
						x.poke(i, i)
					}
					if !both("changed back", x, y, m, m) {
						return
					}
					if i > 0 && x.swap(i-1, i) {
						wx := ref.Copy(m)
						wx[i-1], wx[i] = wx[i], wx[i-1]
						if !both(fmt.Sprintf("elements %d and %d exchanged", i-1, i), x, y, wx, m) {
							return
						}
						x.swap(i-1, i)
					}
				}
			}
			for side := 0; side < 2; side++ {
				x, y := a, cl
				if side == 1 {
					x, y = cl, a
				}
				x.put(n)
				if !both("one more element", x, y, append(ref.Copy(m), n), m) {
					return
				}
				x.drop()
				if !both("taken away again", x, y, m, m) {
					return
				}
				if n > 0 {
					x.drop()
					if !both("one element less", x, y, m[:n-1], m) {
						return
					}
					x.put(n - 1)
					if !both("put back", x, y, m, m) {
						return
					}
				}
			}
		})
	})
}
