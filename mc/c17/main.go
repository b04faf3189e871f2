// C17: iterators and adaptors see exactly the remaining elements.
package main

import (
	"fmt"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/ref"
)

type E = gost.I32
type P = gost.Pair[E, E]

// src is a way to make an iterator over a fresh collection of n elements.
type src[T comparable] struct {
	name string
	// mk returns the iterator source, the elements in order (any order if
	// !ordered) and a check that the collection still holds them.
	mk      func(n int) (iter func() gost.Iterator[T], want []T, intact func() string)
	ordered bool
	f       func(T) T         // mapping
	g       func(a, b T) T    // folding
	p       func(T, int) bool // predicates 0, 1
	zero    T
	min     int
}

// remaining elements of the model
type model[T comparable] struct {
	rem     []T
	ordered bool
}

func (m *model[T]) take(v T) bool {
	if m.ordered {
		if len(m.rem) == 0 || m.rem[0] != v {
			return false
		}
		m.rem = m.rem[1:]
		return true
	}
	for i, x := range m.rem {
		if x == v {
			m.rem = append(ref.Copy(m.rem[:i]), m.rem[i+1:]...)
			return true
		}
	}
	return false
}

func (m *model[T]) same(got []T) bool {
	if m.ordered {
		return ref.Same(got, m.rem)
	}
	if len(got) != len(m.rem) {
		return false
	}
	c := map[T]int{}
	for _, x := range got {
		c[x]++
	}
	for _, x := range m.rem {
		c[x]--
		if c[x] < 0 {
			return false
		}
	}
	return true
}

const (
	sNext = iota
	sMap
	sFilter0
	sFilter1
	sRev
	nSteps
)

var stepNames = []string{"Next", "Map", "Filter(even)", "Filter(none)", "Rev"}
var finalNames = []string{"drain", "Fold", "CollectToVec", "CollectToLinkedList", "Next*2, drain"}

// run executes one chain of steps and the final operation.
func run[T comparable](s *src[T], n int, chain []int, final int) string {
	iter, want, intact := s.mk(n)
	it := iter()
	m := &model[T]{ref.Copy(want), s.ordered}
	type log struct {
		what string
		want *model[T]
		got  []T
	}
	var logs []*log
	for _, st := range chain {
		switch st {
		case sNext:
			o := it.Next()
			if len(m.rem) == 0 {
				if !ref.IsNone(o) {
					return fmt.Sprintf("Next of an exhausted iterator = %v", o.Unwrap())
				}
			} else if o.IsNone() {
				return fmt.Sprintf("Next = None with %v remaining", m.rem)
			} else if v := o.Unwrap(); !m.take(v) {
				return fmt.Sprintf("Next = %v with %v remaining", v, m.rem)
			}
		case sMap:
			l := &log{"Map", &model[T]{ref.Copy(m.rem), m.ordered}, nil}
			logs = append(logs, l)
			it = it.Map(func(x T) T { l.got = append(l.got, x); return s.f(x) })
			for i := range m.rem {
				m.rem[i] = s.f(m.rem[i])
			}
		case sFilter0, sFilter1:
			l := &log{"Filter", &model[T]{ref.Copy(m.rem), m.ordered}, nil}
			logs = append(logs, l)
			it = it.Filter(func(x T) gost.Bool { l.got = append(l.got, x); return gost.Bool(s.p(x, st-sFilter0)) })
			kept := []T{}
			for _, x := range m.rem {
				if s.p(x, st-sFilter0) {
					kept = append(kept, x)
				}
			}
			m.rem = kept
		case sRev:
			it = it.Rev()
			m.rem = ref.Rev(m.rem)
		}
	}
	switch final {
	case 0, 4:
		if final == 4 {
			for i := 0; i < 2 && len(m.rem) > 0; i++ {
				o := it.Next()
				if bool(o.IsNone()) || !m.take(o.Unwrap()) {
					return fmt.Sprintf("Next = %s with %v remaining", ref.Opt(o), m.rem)
				}
			}
		}
		got, msg := ref.Drain(it, len(m.rem))
		if msg != "" {
			return msg
		}
		if !m.same(got) {
			return fmt.Sprintf("iteration yields %v, want %v", got, m.rem)
		}
	case 1:
		var got []T
		acc := s.zero
		bad := ""
		res := it.Fold(s.zero, func(a, x T) T {
			if a != acc && bad == "" {
				bad = fmt.Sprintf("Fold passes accumulator %v, want %v", a, acc)
			}
			got = append(got, x)
			acc = s.g(a, x)
			return acc
		})
		if bad != "" {
			return bad
		}
		if !m.same(got) {
			return fmt.Sprintf("Fold visits %v, want %v", got, m.rem)
		}
		if res != acc {
			return fmt.Sprintf("Fold = %v, want %v", res, acc)
		}
	case 2:
		v := it.CollectToVec()
		if !m.same(v.AsSlice()) || v.Len() != gost.USize(len(m.rem)) {
			return fmt.Sprintf("CollectToVec = %v, want %v", v.AsSlice(), m.rem)
		}
		for i := gost.USize(0); i < v.Len(); i++ {
			v.Set(i, s.zero)
		}
		v.Push(s.zero)
	case 3:
		l := it.CollectToLinkedList()
		if l.Len() != gost.USize(len(m.rem)) {
			return fmt.Sprintf("CollectToLinkedList has length %d, want %v", l.Len(), m.rem)
		}
		var got []T
		for {
			if p := l.Front(); p.IsSome() {
				*p.Unwrap() = *p.Unwrap()
			}
			o := l.PopFront()
			if o.IsNone() {
				break
			}
			got = append(got, o.Unwrap())
		}
		if !m.same(got) {
			return fmt.Sprintf("CollectToLinkedList = %v, want %v", got, m.rem)
		}
	}
	for _, l := range logs {
		if !l.want.same(l.got) {
			return fmt.Sprintf("%s calls its function with %v, want %v", l.what, l.got, l.want.rem)
		}
	}
	if msg := intact(); msg != "" {
		return "the collection changed: " + msg
	}
	again, msg := ref.Drain(iter(), n)
	if m := (&model[T]{want, s.ordered}); msg != "" || !m.same(again) {
		return fmt.Sprintf("the collection changed: a new iterator yields %v, want %v %s", again, want, msg)
	}
	return ""
}

func explore[T comparable](c *core.C, s *src[T], sizes []int, depth int) {
	var chains [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		chains = append(chains, ref.Copy(cur))
		if len(cur) == depth {
			return
		}
		for st := 0; st < nSteps; st++ {
			rec(append(ref.Copy(cur), st))
		}
	}
	rec(nil)
	c.Part(s.name, fmt.Sprintf("sizes %v: every chain of up to %d steps of %v, ended by each of %v", sizes, depth, stepNames, finalNames), func() {
		c.Par(len(chains), func(w *core.W, i int) {
			chain := chains[i]
			for _, n := range sizes {
				for f := range finalNames {
					name := func() string {
						var p []string
						for _, x := range chain {
							p = append(p, stepNames[x])
						}
						return fmt.Sprintf("%s of %d: %s; %s", s.name, n, strings.Join(p, ", "), finalNames[f])
					}
					w.Begin(name)
					w.S++
					w.T += int64(len(chain)) + 1
					w.V++
					if msg := run(s, n, chain, f); msg != "" {
						c.Fail(name(), "%s: %s", name(), msg)
						return
					}
					if n == 3 && len(chain) == 4 && i%97 == 0 && c.WantSample() {
						c.Sample("%s", name())
					}
				}
			}
		})
	})
}

// seq is the content of sequences: with repeats, both parities.
func seq(n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = []E{5, 2, 2, 7, 4, 1, 1, 8}[i%8] + E(i/8)*10
	}
	return r
}

func mono(n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = E(i * 3)
	}
	return r
}

func one(name string, ordered bool, mk func(n int) (func() gost.Iterator[E], []E, func() string)) *src[E] {
	return &src[E]{name: name, mk: mk, ordered: ordered,
		f: func(x E) E { return x*2 + 1001 - x%2 }, g: func(a, b E) E { return a*31 + b },
		p: func(x E, k int) bool { return k == 0 && (x/2)%2 == 0 }, zero: 17}
}

func two(name string, ordered bool, mk func(n int) (func() gost.Iterator[P], []P, func() string)) *src[P] {
	return &src[P]{name: name, mk: mk, ordered: ordered,
		f: func(x P) P { return P{Key: x.Key + 100, Value: x.Value - x.Key} }, g: func(a, b P) P { return P{Key: a.Key*31 + b.Key, Value: a.Value*7 + b.Value} },
		p: func(x P, k int) bool { return k == 0 && x.Key%2 == 0 }, zero: P{Key: 17, Value: 3}}
}

func vec(n int) (func() gost.Iterator[E], []E, func() string) {
	v := gost.VecNew[E]()
	for _, x := range seq(n) {
		v.Push(x)
	}
	return v.IntoIter, seq(n), func() string { return ref.Vec(&v, seq(n), -1) }
}

func deque(capacity, start int) func(n int) (func() gost.Iterator[E], []E, func() string) {
	return func(n int) (func() gost.Iterator[E], []E, func() string) {
		v := gost.VecDequeWithCapacity[E](gost.USize(capacity))
		for i := 0; i < start; i++ {
			v.PushBack(0)
			v.PopFront()
		}
		for i, x := range seq(n) {
			if start%2 == 1 && i == 0 {
				v.PushFront(x)
			} else {
				v.PushBack(x)
			}
		}
		return v.IntoIter, seq(n), func() string { return ref.Deque(&v, seq(n), -1) }
	}
}

func list(n int) (func() gost.Iterator[E], []E, func() string) {
	v := gost.LinkedListNew[E]()
	for _, x := range ref.Rev(seq(n)) {
		v.PushFront(x)
	}
	return v.IntoIter, seq(n), func() string { return ref.List(&v, seq(n)) }
}

func entries(n int) (ks, vs []E, ps []P) {
	for i := 0; i < n; i++ {
		k, v := E(i*3), seq(n)[i]
		ks, vs, ps = append(ks, k), append(vs, v), append(ps, P{Key: k, Value: v})
	}
	return
}

func btree(n int) *gost.BTreeMap[E, E] {
	m := gost.BTreeMapNew[E, E]()
	_, _, ps := entries(n)
	for i := range ps {
		p := ps[(i*5+2)%len(ps)]
		m.Insert(p.Key, p.Value)
	}
	for _, p := range ps {
		m.Insert(p.Key, p.Value)
	}
	return &m
}

func hash(n int) *gost.HashMap[E, E] {
	m := gost.HashMapNew[E, E]()
	_, _, ps := entries(n)
	for _, p := range ps {
		m.Insert(p.Key, p.Value)
	}
	return &m
}

func mapIntact(n int, length func() gost.USize, get func(E) gost.Option[E]) func() string {
	return func() string {
		_, _, ps := entries(n)
		if length() != gost.USize(n) {
			return fmt.Sprintf("length %d, want %d", length(), n)
		}
		for _, p := range ps {
			if g := get(p.Key); !ref.IsSome(g, p.Value) {
				return fmt.Sprintf("Get(%d) = %s, want %d", p.Key, ref.Opt(g), p.Value)
			}
		}
		return ""
	}
}

func main() {
	core.Main("C17", func(c *core.C) {
		c.Assume("the order of hash collections is unspecified: their results are compared as multisets", "whether an adaptor consumes the iterator it was made from is unspecified")
		sizes := []int{0, 1, 2, 3, 5}
		depth := 5
		if c.Thorough {
			sizes = []int{0, 1, 2, 3, 4, 5, 6, 8}
			depth = 6
		}
		explore(c, one("Vec", true, vec), sizes, depth)
		for _, l := range [][2]int{{0, 0}, {2, 1}, {4, 2}, {4, 3}, {8, 6}, {8, 7}} {
			explore(c, one(fmt.Sprintf("VecDeque(capacity %d, start %d)", l[0], l[1]), true, deque(l[0], l[1])), sizes, depth-1)
		}
		explore(c, one("LinkedList", true, list), sizes, depth)
		explore(c, two("BTreeMap.IntoIter", true, func(n int) (func() gost.Iterator[P], []P, func() string) {
			m := btree(n)
			_, _, ps := entries(n)
			return m.IntoIter, ps, mapIntact(n, m.Len, m.Get)
		}), sizes, depth)
		explore(c, one("BTreeMap.Keys", true, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := btree(n)
			ks, _, _ := entries(n)
			return m.Keys, ks, mapIntact(n, m.Len, m.Get)
		}), sizes, depth)
		explore(c, one("BTreeMap.Values", true, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := btree(n)
			_, vs, _ := entries(n)
			return m.Values, vs, mapIntact(n, m.Len, m.Get)
		}), sizes, depth)
		explore(c, one("BTreeSet", true, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := gost.BTreeSetNew[E]()
			for i := 0; i < n; i++ {
				m.Insert(E((i*7 + 3) % n * 3))
			}
			for i := 0; i < n; i++ {
				m.Insert(E(i * 3))
			}
			return m.IntoIter, mono(n), func() string {
				if m.Len() != gost.USize(n) {
					return "length"
				}
				return ""
			}
		}), sizes, depth)
		explore(c, two("HashMap.IntoIter", false, func(n int) (func() gost.Iterator[P], []P, func() string) {
			m := hash(n)
			_, _, ps := entries(n)
			return m.IntoIter, ps, mapIntact(n, m.Len, m.Get)
		}), sizes, depth-1)
		explore(c, one("HashMap.Keys", false, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := hash(n)
			ks, _, _ := entries(n)
			return m.Keys, ks, mapIntact(n, m.Len, m.Get)
		}), sizes, depth-1)
		explore(c, one("HashMap.Values", false, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := hash(n)
			_, vs, _ := entries(n)
			return m.Values, vs, mapIntact(n, m.Len, m.Get)
		}), sizes, depth-1)
		explore(c, one("HashSet", false, func(n int) (func() gost.Iterator[E], []E, func() string) {
			m := gost.HashSetFromSlice(mono(n))
			return m.IntoIter, mono(n), func() string {
				if m.Len() != gost.USize(n) {
					return "length"
				}
				return ""
			}
		}), sizes, depth-1)
		big := []int{}
		for n := 6; n <= 40; n++ {
			big = append(big, n)
		}
		big = append(big, 63, 64, 65, 73, 127, 128, 129, 145, 255, 256, 257, 433, 1023, 1024, 1025, 2500)
		// larger collections (several tree levels, ring growth), short chains
		explore(c, one("large Vec", true, vec), big, 2)
		explore(c, one("large VecDeque", true, deque(5, 3)), big, 2)
		explore(c, one("large LinkedList", true, list), big, 2)
		explore(c, two("large BTreeMap.IntoIter", true, func(n int) (func() gost.Iterator[P], []P, func() string) {
			m := btree(n)
			_, _, ps := entries(n)
			return m.IntoIter, ps, mapIntact(n, m.Len, m.Get)
		}), big, 2)
		explore(c, two("large HashMap.IntoIter", false, func(n int) (func() gost.Iterator[P], []P, func() string) {
			m := hash(n)
			_, _, ps := entries(n)
			return m.IntoIter, ps, mapIntact(n, m.Len, m.Get)
		}), big, 2)
	})
}
