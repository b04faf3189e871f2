// C32: what Capacity and Reserve promise holds.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
)

type E = gost.I32

// box is a growable collection seen from its capacity.
type box interface {
	len() int
	cap() int
	ptr() any
	ops() []op
}

// An op changes the collection. grows: the number of elements it adds one by
// one; reserve: the number of elements it makes room for, -1 if it does not.
type op struct {
	name    string
	grows   int
	reserve int
	exact   bool // documented to do nothing when there is room already
	run     func(b box)
}

func plain(name string, f func(b box)) op { return op{name, 0, -1, false, f} }
func adds(name string, f func(b box)) op  { return op{name, 1, -1, false, f} }

var amounts = []int{0, 1, 2, 3, 5, 8, 9, 40}

func reserves(exact bool, f func(b box, n gost.USize)) (out []op) {
	for _, n := range amounts {
		out = append(out, op{fmt.Sprintf("Reserve(%d)", n), 0, n, exact, func(b box) { f(b, gost.USize(n)) }})
	}
	return
}

type vec struct{ v *gost.Vec[E] }

func (x vec) len() int { return int(x.v.Len()) }
func (x vec) cap() int { return int(x.v.Capacity()) }
func (x vec) ptr() any { return x.v }

func v(b box) *gost.Vec[E] { return b.(vec).v }

func others(n int) gost.Vec[E] {
	o := gost.VecNew[E]()
	for i := 0; i < n; i++ {
		o.Push(1)
	}
	return o
}

func (x vec) ops() []op {
	out := []op{
		adds("Push", func(b box) { v(b).Push(1) }),
		adds("Insert(0)", func(b box) { v(b).Insert(0, 1) }),
		adds("Insert(Len)", func(b box) { v(b).Insert(v(b).Len(), 1) }),
		plain("Pop", func(b box) { v(b).Pop() }),
		plain("Clear", func(b box) { v(b).Clear() }),
		plain("Retain(none)", func(b box) { v(b).Retain(func(E) gost.Bool { return false }) }),
		plain("Dedup", func(b box) { v(b).Dedup() }),
		plain("Sort", func(b box) { v(b).Sort() }),
		plain("Clone", func(b box) { c := v(b).Clone(); *v(b) = c }),
	}
	for _, n := range []int{0, 1, 3, 9} {
		out = append(out, plain(fmt.Sprintf("Append of %d", n), func(b box) { o := others(n); v(b).Append(&o) }))
	}
	return append(out, reserves(true, func(b box, n gost.USize) { v(b).Reserve(n) })...)
}

type deque struct{ v *gost.VecDeque[E] }

func (x deque) len() int { return int(x.v.Len()) }
func (x deque) cap() int { return int(x.v.Capacity()) }
func (x deque) ptr() any { return x.v }

func d(b box) *gost.VecDeque[E] { return b.(deque).v }

func (x deque) ops() []op {
	out := []op{
		adds("PushBack", func(b box) { d(b).PushBack(1) }),
		adds("PushFront", func(b box) { d(b).PushFront(1) }),
		plain("PopFront", func(b box) { d(b).PopFront() }),
		plain("PopBack", func(b box) { d(b).PopBack() }),
		plain("Clear", func(b box) { d(b).Clear() }),
		plain("Retain(none)", func(b box) { d(b).Retain(func(E) gost.Bool { return false }) }),
		plain("Sort", func(b box) { d(b).Sort() }),
		plain("Clone", func(b box) { c := d(b).Clone(); *d(b) = *c }),
	}
	for _, n := range []int{0, 1, 3, 9} {
		out = append(out, plain(fmt.Sprintf("Append of %d", n), func(b box) {
			o := gost.VecDequeNew[E]()
			for i := 0; i < n; i++ {
				o.PushBack(1)
			}
			d(b).Append(&o)
		}))
	}
	return append(out, reserves(false, func(b box, n gost.USize) { d(b).Reserve(n) })...)
}

type heap struct{ v *gost.BinaryHeap[E] }

func (x heap) len() int { return int(x.v.Len()) }
func (x heap) cap() int { return int(x.v.Capacity()) }
func (x heap) ptr() any { return x.v }

func h(b box) *gost.BinaryHeap[E] { return b.(heap).v }

func (x heap) ops() []op {
	out := []op{
		adds("Push", func(b box) { h(b).Push(1) }),
		plain("Pop", func(b box) { h(b).Pop() }),
		plain("Clear", func(b box) { h(b).Clear() }),
	}
	for _, n := range []int{0, 1, 3, 9} {
		out = append(out, plain(fmt.Sprintf("Append of %d", n), func(b box) {
			o := gost.BinaryHeapNew[E]()
			for i := 0; i < n; i++ {
				o.Push(1)
			}
			h(b).Append(&o)
		}))
	}
	return append(out, reserves(true, func(b box, n gost.USize) { h(b).Reserve(n) })...)
}

func apply(b box, o op) string {
	n, room := b.len(), b.cap()
	o.run(b)
	switch now := b.cap(); {
	case now < b.len():
		return fmt.Sprintf("the capacity is %d with %d elements", now, b.len())
	case o.grows > 0 && n+o.grows <= room && now != room:
		return fmt.Sprintf("%s with %d elements and a capacity of %d changed the capacity to %d", o.name, n, room, now)
	case o.reserve >= 0 && b.len() != n:
		return fmt.Sprintf("%s changed the length from %d to %d", o.name, n, b.len())
	case o.reserve >= 0 && now < n+o.reserve:
		return fmt.Sprintf("%s with %d elements leaves a capacity of %d", o.name, n, now)
	case o.exact && room >= n+o.reserve && now != room:
		return fmt.Sprintf("%s with %d elements and a capacity of %d changed the capacity to %d", o.name, n, room, now)
	}
	return ""
}

func main() {
	core.Main("C32", func(c *core.C) {
		c.Assume("the growth policy is free; only what Capacity, Reserve and the constructors promise is checked")
		depth, top := 6, 3000
		if c.Thorough {
			depth, top = 8, 70000
		}
		kinds := []struct {
			name string
			new  func() box
			room func(n int) box
			full func(n int) box
			push func(b box, i int)
		}{
			{"Vec", func() box { x := gost.VecNew[E](); return vec{&x} },
				func(n int) box { x := gost.VecWithCapacity[E](gost.USize(n)); return vec{&x} },
				func(n int) box { x := gost.VecWithLen[E](gost.USize(n)); return vec{&x} },
				func(b box, i int) { v(b).Push(E(i)) }},
			{"VecDeque", func() box { x := gost.VecDequeNew[E](); return deque{&x} },
				func(n int) box { x := gost.VecDequeWithCapacity[E](gost.USize(n)); return deque{&x} },
				func(n int) box { x := gost.VecDequeWithLen[E](gost.USize(n)); return deque{&x} },
				func(b box, i int) {
					if i%3 == 1 {
						d(b).PushFront(E(i))
					} else {
						d(b).PushBack(E(i))
					}
				}},
			{"BinaryHeap", func() box { x := gost.BinaryHeapNew[E](); return heap{&x} },
				func(n int) box { x := gost.BinaryHeapWithCapacity[E](gost.USize(n)); return heap{&x} },
				func(n int) box { x := gost.BinaryHeapWithLen[E](gost.USize(n)); return heap{&x} },
				func(b box, i int) { h(b).Push(E(i)) }},
		}
		for _, k := range kinds {
			starts := map[string]func() box{"New": k.new}
			names := []string{"New"}
			for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 9, 17} {
				names = append(names, fmt.Sprintf("WithCapacity(%d)", n), fmt.Sprintf("WithLen(%d)", n))
				starts[fmt.Sprintf("WithCapacity(%d)", n)] = func() box { return k.room(n) }
				starts[fmt.Sprintf("WithLen(%d)", n)] = func() box { return k.full(n) }
			}
			list := k.new().ops()
			depth := depth
			if k.name == "VecDeque" {
				depth-- // its offset makes many more states
			}
			c.Part(k.name, fmt.Sprintf("from %d constructors every history of %d operations to depth %d (equal elements; states told apart by the whole memory)", len(names), len(list), depth), func() {
				for _, n := range names {
					m := &explore.Machine[box]{
						Name: k.name + " " + n, Init: starts[n], Depth: depth,
						Enabled: func(b box, o int) bool { return list[o].reserve <= 0 || b.cap() <= 60 },
						Apply:   func(b box, o int) string { return apply(b, list[o]) },
						Observe: func(b box) string {
							if b.cap() < b.len() {
								return fmt.Sprintf("the capacity is %d with %d elements", b.cap(), b.len())
							}
							return ""
						},
						Canon: func(b box) []byte {
							d := core.Dumper{}
							d.Dump(b.ptr())
							return d.Buf
						},
					}
					for _, o := range list {
						m.Ops = append(m.Ops, o.name)
					}
					m.Run(c)
				}
			})
			c.Part(k.name+" sizes", fmt.Sprintf("WithCapacity(n), and n elements plus Reserve(m), for sizes to 300 and around powers of two to %d: filled up to the capacity", top), func() {
				var ns []int
				for n := 0; n <= 300; n++ {
					ns = append(ns, n)
				}
				for p := 512; p <= top; p *= 2 {
					ns = append(ns, p-1, p, p+1)
				}
				c.Par(len(ns), func(w *core.W, i int) {
					n := ns[i]
					fill := func(what string, b box, promised int) {
						w.S++
						w.V++
						w.Begin(func() string { return k.name + " " + what })
						room, at := b.cap(), b.len()
						if room < promised {
							c.Fail(k.name+" "+what, "%s %s: the capacity is %d, want at least %d", k.name, what, room, promised)
							return
						}
						for j := at; j < room && j < 4*top; j++ {
							w.T++
							k.push(b, j)
							if b.cap() != room || b.len() != j+1 {
								c.Fail(k.name+" "+what, "%s %s has a capacity of %d; after %d pushes the length is %d and the capacity %d", k.name, what, room, j+1-at, b.len(), b.cap())
								return
							}
						}
						for j := 0; j < 3; j++ {
							w.T++
							k.push(b, j)
							if b.cap() < b.len() {
								c.Fail(k.name+" "+what, "%s %s: the capacity is %d with %d elements", k.name, what, b.cap(), b.len())
								return
							}
						}
					}
					b := k.room(n)
					if b.len() != 0 {
						c.Fail(fmt.Sprintf("%s WithCapacity(%d) length", k.name, n), "%s WithCapacity(%d) has length %d", k.name, n, b.len())
						return
					}
					fill(fmt.Sprintf("WithCapacity(%d)", n), b, n)
					b = k.full(n)
					if b.len() != n {
						c.Fail(fmt.Sprintf("%s WithLen(%d) length", k.name, n), "%s WithLen(%d) has length %d", k.name, n, b.len())
						return
					}
					fill(fmt.Sprintf("WithLen(%d)", n), b, n)
					for _, m := range []int{0, 1, 7, n, 2*n + 1, 1000} {
						for _, pops := range []int{0, 1, n / 2} {
							b := k.new()
							for j := 0; j < n; j++ {
								k.push(b, j)
							}
							if x, ok := b.(deque); ok {
								for j := 0; j < pops; j++ {
									x.v.PopFront()
									x.v.PushBack(E(j))
								}
							} else if pops > 0 {
								continue
							}
							switch x := b.(type) {
							case vec:
								x.v.Reserve(gost.USize(m))
							case deque:
								x.v.Reserve(gost.USize(m))
							case heap:
								x.v.Reserve(gost.USize(m))
							}
							fill(fmt.Sprintf("of %d elements (rotated by %d) after Reserve(%d)", n, pops, m), b, n+m)
						}
					}
				})
			})
		}
	})
}
