// C34: operations cost what is documented, counted in comparisons, executed
// statements and moved elements (never in time).
//
// The bounds leave room for other implementations of the same complexity: they
// are several times what today's code needs, and the sizes are chosen so that
// the next worse complexity exceeds them by far.
package main

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/mcrt"
)

var cmps int // comparisons of elements

// adversary, when there is one, decides comparisons.
var adversary func(a, b E) int

// E counts its comparisons.
type E struct{ K, ID int }

func (a E) Cmp(b E) gost.Ordering {
	cmps++
	if adversary != nil {
		return gost.Ordering(adversary(a, b))
	}
	switch {
	case a.K < b.K:
		return gost.OrderingLess
	case a.K > b.K:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a E) Clone() E          { return a }
func (a E) Eq(b E) gost.Bool  { return a.Cmp(b) == gost.OrderingEqual }
func (a E) Lt(b E) gost.Bool  { return a.Cmp(b) == gost.OrderingLess }
func (a E) Lte(b E) gost.Bool { return a.Cmp(b) != gost.OrderingGreater }
func (a E) Gt(b E) gost.Bool  { return a.Cmp(b) == gost.OrderingGreater }
func (a E) Gte(b E) gost.Bool { return a.Cmp(b) != gost.OrderingLess }

// usage is what a piece of work needed.
type usage struct{ cmps, steps, moves, makes int }

func meter(f func()) usage {
	a := usage{cmps, mcrt.Cost, mcrt.Moves, mcrt.Makes}
	f()
	return usage{cmps - a.cmps, mcrt.Cost - a.steps, mcrt.Moves - a.moves, mcrt.Makes - a.makes}
}

// within tells whether u stays below the limits (negative: none).
func (u usage) within(cmps, work int) bool {
	return (cmps < 0 || u.cmps <= cmps) && u.work() <= work
}

func (u usage) work() int { return u.steps + u.moves + u.makes }

func lg(n int) int { return bits.Len(uint(n)) }

type check struct {
	c     *core.C
	w     *core.W
	worst map[string]float64
}

// cost runs f, which works on n elements, and compares.
func (k *check) cost(what string, n int, cmpLimit, workLimit int, f func()) bool {
	k.w.Begin(func() string { return fmt.Sprintf("%s with %d elements", what, n) })
	u := meter(f)
	return k.judge(what, n, u, cmpLimit, workLimit)
}

func (k *check) judge(what string, n int, u usage, cmpLimit, workLimit int) bool {
	k.w.S++
	k.w.T++
	k.w.V++
	if cmpLimit > 0 {
		if r := float64(u.cmps) / float64(cmpLimit); r > k.worst["comparisons"] {
			k.worst["comparisons"] = r
		}
	}
	if r := float64(u.work()) / float64(workLimit); r > k.worst["work"] {
		k.worst["work"] = r
	}
	if u.within(cmpLimit, workLimit) {
		return true
	}
	k.c.Fail(fmt.Sprintf("%s %d", what, n), "%s with %d elements: %d comparisons (limit %d), %d statements + %d elements moved + %d allocated (limit %d in all)",
		what, n, u.cmps, cmpLimit, u.steps, u.moves, u.makes, workLimit)
	return false
}

func sizes(all, max int) (out []int) {
	for n := 0; n <= all; n++ {
		out = append(out, n)
	}
	for p := 256; p <= max; p *= 2 {
		for d := -1; d <= 1; d++ {
			if p+d > all {
				out = append(out, p+d)
			}
		}
	}
	return
}

// arrangement gives the key at place i of n.
type arrangement struct {
	name string
	key  func(i, n int) int
}

var arrangements = []arrangement{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - i }},
	{"equal", func(i, n int) int { return 7 }},
	{"two values", func(i, n int) int { return i & 1 }},
	{"halves swapped", func(i, n int) int { return (i + n/2) % n }},
	{"organ pipe", func(i, n int) int {
		if i < n/2 {
			return i
		}
		return n - i
	}},
	{"valley", func(i, n int) int {
		if i < n/2 {
			return n - i
		}
		return i
	}},
	{"sawtooth", func(i, n int) int { return i % 17 }},
	{"interleaved", func(i, n int) int {
		if i%2 == 0 {
			return i
		}
		return n - i
	}},
	{"bit reversal", func(i, n int) int { return int(bits.Reverse32(uint32(i))) }},
	{"scattered", func(i, n int) int { return i * 2654435761 % 4294967291 }},
	{"last smallest", func(i, n int) int { return (i + 1) % n }},
	{"first largest", func(i, n int) int { return (i + n - 1) % n }},
	{"median of three killer", func(i, n int) int {
		k := n / 2
		if i < k {
			if i%2 == 0 {
				return i + 1
			}
			return k + i + i%2
		}
		return 2 * (i - k + 1)
	}},
}

func elems(a arrangement, n int) []E {
	l := make([]E, n)
	for i := range l {
		l[i] = E{a.key(i, n), i}
	}
	return l
}

func vec(l []E) gost.Vec[E] {
	v := gost.VecNew[E]()
	for _, e := range l {
		v.Push(e)
	}
	return v
}

// deque holds l, its storage wrapping around.
func deque(l []E) gost.VecDeque[E] {
	v := gost.VecDequeNew[E]()
	m := len(l) / 3
	for _, e := range l[m:] {
		v.PushBack(e)
	}
	for i := m - 1; i >= 0; i-- {
		v.PushFront(l[i])
	}
	return v
}

func by(a, b E) gost.Ordering { return a.Cmp(b) }

type sorter struct {
	name string
	run  func(l []E) (usage, []E)
}

func sorters() (out []sorter) {
	for _, s := range []struct {
		name string
		v    func(v *gost.Vec[E])
		d    func(v *gost.VecDeque[E])
	}{
		{"Sort", func(v *gost.Vec[E]) { v.Sort() }, func(v *gost.VecDeque[E]) { v.Sort() }},
		{"SortBy", func(v *gost.Vec[E]) { v.SortBy(by) }, func(v *gost.VecDeque[E]) { v.SortBy(by) }},
		{"SortUnstable", func(v *gost.Vec[E]) { v.SortUnstable() }, func(v *gost.VecDeque[E]) { v.SortUnstable() }},
		{"SortUnstableBy", func(v *gost.Vec[E]) { v.SortUnstableBy(by) }, func(v *gost.VecDeque[E]) { v.SortUnstableBy(by) }},
	} {
		out = append(out, sorter{"Vec." + s.name, func(l []E) (usage, []E) {
			v := vec(l)
			u := meter(func() { s.v(&v) })
			return u, v.AsSlice()
		}}, sorter{"VecDeque." + s.name, func(l []E) (usage, []E) {
			v := deque(l)
			u := meter(func() { s.d(&v) })
			return u, v.AsSlice()
		}})
	}
	return
}

func (k *check) sorted(what string, n int, u usage) bool {
	return k.judge(what, n, u, 6*n*(lg(n)+4)+20, 60*n*(lg(n)+4)+400)
}

// killer is McIlroy's adversary for quicksorts: it fixes the order of elements as
// late as it can.
func killer(n int) func(a, b E) int {
	const gas = 1 << 60
	val := make([]int, n)
	for i := range val {
		val[i] = gas
	}
	solid, candidate := 0, 0
	freeze := func(i int) { val[i] = solid; solid++ }
	return func(a, b E) int {
		x, y := a.ID, b.ID
		if x != y && val[x] == gas && val[y] == gas {
			if x == candidate {
				freeze(x)
			} else {
				freeze(y)
			}
		}
		if val[x] == gas {
			candidate = x
		} else if val[y] == gas {
			candidate = y
		}
		switch {
		case val[x] < val[y]:
			return -1
		case val[x] > val[y]:
			return 1
		}
		return 0
	}
}

func main() {
	core.Main("C34", func(c *core.C) {
		k := &check{c, nil, map[string]float64{}}
		part := func(name, bounds string, f func()) {
			c.Part(name, bounds, func() {
				c.Solo(func(w *core.W) {
					k.w = w
					f()
				})
			})
		}
		top := func(quick, thorough int) int {
			if c.Thorough {
				return thorough
			}
			return quick
		}
		probe := gost.VecNew[E]()
		if meter(func() { probe.Push(E{}) }).steps == 0 {
			c.Assume("the library could not be instrumented: comparisons are counted, statements and moved elements are not")
			c.Extra("instrumented", false)
			c.Truncate()
		} else {
			c.Extra("instrumented", true)
		}
		c.Assume("the work done inside Go's own library (sort, map) is counted by its calls of comparisons only")

		ss := sorters()
		part("sorting", fmt.Sprintf("every sort of Vec and VecDeque on %d arrangements of every size to %d and around powers of two to %d", len(arrangements), top(200, 600), top(4096, 65536)), func() {
			for _, n := range sizes(top(200, 600), top(4096, 65536)) {
				for _, a := range arrangements {
					l := elems(a, n)
					for _, s := range ss {
						k.w.Begin(func() string { return fmt.Sprintf("%s of %d elements, %s", s.name, n, a.name) })
						u, got := s.run(l)
						if !k.sorted(s.name+", "+a.name+",", n, u) {
							return
						}
						if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].K < got[j].K }) {
							c.Fail(s.name, "%s of %d elements, %s: not sorted", s.name, n, a.name)
							return
						}
						if c.Stopped() {
							return
						}
					}
				}
			}
		})
		part("sorting every order", fmt.Sprintf("every sort on every permutation of up to %d elements", top(7, 8)), func() {
			for n := 0; n <= top(7, 8); n++ {
				perms(n, func(p []int) {
					l := make([]E, n)
					for i := range l {
						l[i] = E{p[i], i}
					}
					for _, s := range ss {
						if c.Stopped() {
							return
						}
						k.w.Begin(func() string { return fmt.Sprint(s.name, " of ", p) })
						u, _ := s.run(l)
						k.sorted(s.name, n, u)
					}
				})
			}
		})
		part("sorting against an adversary", fmt.Sprintf("every sort, the comparisons answered by an adversary that delays every decision, sizes around powers of two to %d", top(4096, 65536)), func() {
			for _, n := range sizes(top(100, 300), top(4096, 65536)) {
				for _, s := range ss {
					l := make([]E, n)
					for i := range l {
						l[i] = E{0, i}
					}
					k.w.Begin(func() string { return fmt.Sprintf("%s of %d elements, adversary", s.name, n) })
					adversary = killer(n)
					u, _ := s.run(l)
					adversary = nil
					if !k.sorted(s.name+", adversary,", n, u) {
						return
					}
				}
			}
		})
		part("searching", fmt.Sprintf("BinarySearch and BinarySearchBy for every place and gap in every size to 130 and around powers of two to %d", top(4096, 65536)), func() {
			for _, n := range sizes(130, top(4096, 65536)) {
				l := make([]E, n)
				for i := range l {
					l[i] = E{2 * i, i}
				}
				v, d := vec(l), deque(l)
				cl, wl := 3*lg(n)+6, 80*lg(n)+200
				step := 1 + n/300
				for t := -1; t <= 2*n; t += step {
					x := E{t, 0}
					ok := k.cost("Vec.BinarySearch", n, cl, wl, func() { v.BinarySearch(x) }) &&
						k.cost("Vec.BinarySearchBy", n, cl, wl, func() { v.BinarySearchBy(func(e E) gost.Ordering { return e.Cmp(x) }) }) &&
						k.cost("VecDeque.BinarySearch", n, cl, wl, func() { d.BinarySearch(x) }) &&
						k.cost("VecDeque.BinarySearchBy", n, cl, wl, func() { d.BinarySearchBy(func(e E) gost.Ordering { return e.Cmp(x) }) })
					if !ok || c.Stopped() {
						return
					}
				}
			}
		})
		constant(c, k, part, top)
		amortised(c, k, part, top)
		linear(c, k, part, top)
		trees(c, k, part, top)
		c.Extra("largest_share_of_a_limit_used", k.worst)
	})
}

func perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}
