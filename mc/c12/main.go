// C12: BinaryHeap always yields its elements in priority order.
package main

import (
	"fmt"
	"sort"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
	"verifmc/ref"
)

// T is ordered by K only; ID tells equal elements apart, so a lost or
// duplicated element is seen even among equal ones.
type T struct{ K, ID int32 }

func (a T) Cmp(b T) gost.Ordering {
	switch {
	case a.K < b.K:
		return gost.OrderingLess
	case a.K > b.K:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func (a T) Eq(b T) gost.Bool  { return a.K == b.K }
func (a T) Lt(b T) gost.Bool  { return a.K < b.K }
func (a T) Lte(b T) gost.Bool { return a.K <= b.K }
func (a T) Gt(b T) gost.Bool  { return a.K > b.K }
func (a T) Gte(b T) gost.Bool { return a.K >= b.K }

type H = gost.BinaryHeap[T]

type st struct {
	v    []*H
	m    [][]T // multisets
	next int32
}

func key(a, b T) bool { return a.K < b.K || a.K == b.K && a.ID < b.ID }

func sorted(m []T) []T {
	r := ref.Copy(m)
	sort.Slice(r, func(i, j int) bool { return key(r[i], r[j]) })
	return r
}

func sameMultiset(a, b []T) bool { return ref.Same(sorted(a), sorted(b)) }

func (s *st) observe() string {
	for i := range s.v {
		h, m := s.v[i], s.m[i]
		if h.Len() != gost.USize(len(m)) {
			return fmt.Sprintf("heap %d: Len() = %d, want %d", i, h.Len(), len(m))
		}
		if bool(h.IsEmpty()) != (len(m) == 0) {
			return fmt.Sprintf("heap %d: IsEmpty() = %v at length %d", i, h.IsEmpty(), len(m))
		}
		if h.Capacity() < h.Len() {
			return fmt.Sprintf("heap %d: Capacity() %d < Len() %d", i, h.Capacity(), h.Len())
		}
		if sl := h.AsSlice(); !sameMultiset(sl, m) {
			return fmt.Sprintf("heap %d: AsSlice() = %v, want the elements %v", i, sl, m)
		}
	}
	return ""
}

func (s *st) push(k int, key int32) string {
	s.next++
	t := T{key, s.next}
	s.v[k].Push(t)
	s.m[k] = append(ref.Copy(s.m[k]), t)
	return ""
}

func (s *st) pop(k int) string {
	r := s.v[k].Pop()
	m := s.m[k]
	if len(m) == 0 {
		if !ref.IsNone(r) {
			return "Pop of empty = " + ref.Opt(r)
		}
		return ""
	}
	if r.IsNone() {
		return fmt.Sprintf("Pop = None with %d elements", len(m))
	}
	x := r.Unwrap()
	max := m[0].K
	at := -1
	for i, e := range m {
		if e.K > max {
			max = e.K
		}
		if e == x {
			at = i
		}
	}
	if at < 0 {
		return fmt.Sprintf("Pop = %v, which is not among the elements %v", x, m)
	}
	if x.K != max {
		return fmt.Sprintf("Pop = %v, but the maximum of %v is %d", x, m, max)
	}
	s.m[k] = append(ref.Copy(m[:at]), m[at+1:]...)
	return ""
}

func (s *st) drain() string {
	for k := range s.v {
		for i := len(s.m[k]); i >= 0; i-- {
			if msg := s.pop(k); msg != "" {
				return "while draining: " + msg
			}
		}
	}
	return s.observe()
}

func (s *st) intoSorted() string {
	for k := range s.v {
		got := s.v[k].IntoSortedVec()
		sl := got.AsSlice()
		if !sameMultiset(sl, s.m[k]) {
			return fmt.Sprintf("IntoSortedVec = %v, want the elements %v", sl, s.m[k])
		}
		for i := 1; i < len(sl); i++ {
			if sl[i-1].K > sl[i].K {
				return fmt.Sprintf("IntoSortedVec = %v is not ascending", sl)
			}
		}
	}
	return ""
}

func (s *st) intoVec() string {
	for k := range s.v {
		got := s.v[k].IntoVec()
		if !sameMultiset(got.AsSlice(), s.m[k]) {
			return fmt.Sprintf("IntoVec = %v, want the elements %v", got.AsSlice(), s.m[k])
		}
	}
	return ""
}

func (s *st) canon() []byte {
	// contents with IDs renamed by first appearance; keys kept
	ren := map[int32]int64{}
	var d core.Dumper
	type img struct {
		K  int32
		ID int64
	}
	var im [][]img
	for k := range s.v {
		one := []img{}
		for _, t := range s.v[k].AsSlice() {
			if _, ok := ren[t.ID]; !ok {
				ren[t.ID] = int64(len(ren))
			}
			one = append(one, img{t.K, ren[t.ID]})
		}
		im = append(im, one[:len(one):len(one)])
		im = append(im, make([]img, 0))
		c := int64(s.v[k].Capacity())
		d.Dump(&c)
	}
	for i := range im {
		for _, x := range im[i] {
			d.Dump(&x)
		}
		z := int64(-9)
		d.Dump(&z)
	}
	return d.Buf
}

func newState(n int, kind int) *st {
	s := &st{}
	for i := 0; i < n; i++ {
		var h H
		var m []T
		switch kind {
		case 0:
			h = gost.BinaryHeapNew[T]()
		case 1:
			h = gost.BinaryHeapWithCapacity[T](2)
		case 2:
			h = gost.BinaryHeapWithLen[T](2)
			m = []T{{}, {}}
		}
		s.v = append(s.v, &h)
		s.m = append(s.m, m)
	}
	return s
}

type op struct {
	name string
	run  func(s *st) string
}

func ops(nv, keys int) []op {
	var out []op
	for k := 0; k < nv; k++ {
		p := ""
		if nv > 1 {
			p = string(rune('a'+k)) + "."
		}
		for key := 0; key < keys; key++ {
			out = append(out, op{fmt.Sprintf("%sPush(%d)", p, key-1), func(s *st) string { return s.push(k, int32(key-1)) }})
		}
		out = append(out, op{p + "Pop", func(s *st) string { return s.pop(k) }})
		out = append(out, op{p + "Clear", func(s *st) string { s.v[k].Clear(); s.m[k] = nil; return "" }})
		out = append(out, op{p + "Reserve(3)", func(s *st) string { s.v[k].Reserve(3); return "" }})
		if nv > 1 {
			o := 1 - k
			out = append(out, op{p + "Append(" + string(rune('a'+o)) + ")", func(s *st) string {
				s.v[k].Append(s.v[o])
				s.m[k] = append(ref.Copy(s.m[k]), s.m[o]...)
				s.m[o] = nil
				return ""
			}})
		}
	}
	return out
}

func main() {
	core.Main("C12", func(c *core.C) {
		c.Assume("elements are ordered by a lawful total order")
		d1, d2 := 9, 7
		maxWeak := 8
		if c.Thorough {
			d1, d2 = 10, 8
			maxWeak = 9
		}
		finals := []func(s *st) string{(*st).drain, (*st).intoSorted, (*st).intoVec}
		for kind, kn := range []string{"New", "WithCapacity(2)", "WithLen(2)"} {
			list := ops(1, 3)
			c.Part("single:"+kn, fmt.Sprintf("all histories of %d operations to depth %d, drained at every state", len(list), d1), func() {
				m := &explore.Machine[*st]{
					Name: "heap " + kn, Init: func() *st { return newState(1, kind) },
					Apply:   func(s *st, o int) string { return list[o].run(s) },
					Observe: (*st).observe, Canon: (*st).canon, Finals: finals, Depth: d1,
				}
				for _, o := range list {
					m.Ops = append(m.Ops, o.name)
				}
				m.Run(c)
			})
		}
		{
			list := ops(2, 3)
			c.Part("pair", fmt.Sprintf("two heaps, all histories of %d operations to depth %d, drained at every state", len(list), d2), func() {
				m := &explore.Machine[*st]{
					Name: "heaps", Init: func() *st { return newState(2, 0) },
					Apply:   func(s *st, o int) string { return list[o].run(s) },
					Observe: (*st).observe, Canon: (*st).canon, Finals: finals, Depth: d2,
				}
				for _, o := range list {
					m.Ops = append(m.Ops, o.name)
				}
				m.Run(c)
			})
		}
		for n := 1; n <= maxWeak; n++ {
			c.Part(fmt.Sprintf("orders:%d", n), fmt.Sprintf("every order type (with ties) of %d pushes, popped completely, also with the pops interleaved after half, and IntoSortedVec", n), func() {
				all := explore.AllWeakOrders(n)
				c.Sample("push %v then pop all", all[len(all)/2])
				const chunk = 256
				c.Par((len(all)+chunk-1)/chunk, func(w *core.W, ci int) {
					for _, seq := range all[ci*chunk : min((ci+1)*chunk, len(all))] {
						name := func() string { return fmt.Sprintf("push %v", seq) }
						w.Begin(name)
						w.S++
						for variant := 0; variant < 3; variant++ {
							s := newState(1, 0)
							msg := ""
							for i, x := range seq {
								s.push(0, int32(x))
								if variant == 1 && i >= n/2 && i%2 == 0 && msg == "" {
									msg = s.pop(0)
								}
								w.T++
							}
							if msg == "" && variant == 2 {
								msg = s.intoSorted()
							} else if msg == "" {
								msg = s.drain()
							}
							w.V++
							if msg != "" {
								c.Fail(name(), "%s (variant %d): %s", name(), variant, msg)
								return
							}
						}
					}
				})
			})
		}
		maxLen := 140
		if c.Thorough {
			maxLen = 700
		}
		c.Part("large", fmt.Sprintf("every length <= %d in 12 arrangements, also around powers of two to 2049: drained, appended, sorted", maxLen), func() {
			more := []int{2049, 2048, 1025, 1024, 1023, 513, 512, 511, 257, 256, 255}
			c.Par(maxLen+1+len(more), func(w *core.W, n int) {
				n -= len(more)
				if n < 0 {
					n = more[n+len(more)]
				}
				for pn, p := range explore.Patterns(n) {
					for variant := 0; variant < 4; variant++ {
						name := fmt.Sprintf("large %s(%d) variant %d", pn, n, variant)
						w.Begin(func() string { return name })
						s := newState(2, 0)
						for i, x := range p {
							k := 0
							if variant == 2 && i%3 == 0 || variant == 3 && i >= n/4 {
								k = 1
							}
							s.push(k, int32(x))
							w.T++
						}
						msg := ""
						if variant >= 2 {
							s.v[0].Append(s.v[1])
							s.m[0] = append(s.m[0], s.m[1]...)
							s.m[1] = nil
						}
						if msg = s.observe(); msg == "" {
							if variant == 1 {
								msg = s.intoSorted()
							} else {
								msg = s.drain()
							}
						}
						w.S++
						w.V++
						if msg != "" {
							c.Fail(name, "%s: %s", name, msg)
							return
						}
					}
				}
			})
		})
	})
}
