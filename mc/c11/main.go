// C11: LinkedList behaves as a double-ended sequence under every operation
// history.
package main

import (
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/eltypes"
	"verifmc/explore"
	"verifmc/ref"
)

type E = ref.E

type st struct {
	v    []*gost.LinkedList[E]
	m    [][]E
	next E
}

func (s *st) fresh() E { s.next++; return s.next }

func (s *st) observe() string {
	for i := range s.v {
		if msg := ref.List(s.v[i], s.m[i]); msg != "" {
			return fmt.Sprintf("list %d: %s", i, msg)
		}
	}
	return ""
}

func (s *st) canon() []byte {
	ren := map[int64]int64{0: 0}
	d := core.Dumper{ValueType: reflect.TypeOf(E(0)), Rename: func(v int64) int64 {
		if r, ok := ren[v]; ok {
			return r
		}
		ren[v] = int64(len(ren))
		return ren[v]
	}}
	for i := range s.v {
		d.Dump(s.v[i])
	}
	return d.Buf
}

type op struct {
	name string
	run  func(s *st) string
}

func pushF(s *st, k int) string {
	x := s.fresh()
	s.v[k].PushFront(x)
	s.m[k] = append([]E{x}, s.m[k]...)
	return ""
}

func pushB(s *st, k int) string {
	x := s.fresh()
	s.v[k].PushBack(x)
	s.m[k] = append(ref.Copy(s.m[k]), x)
	return ""
}

func popF(s *st, k int) string {
	r := s.v[k].PopFront()
	if len(s.m[k]) == 0 {
		if !ref.IsNone(r) {
			return "PopFront of empty = " + ref.Opt(r)
		}
		return ""
	}
	if !ref.IsSome(r, s.m[k][0]) {
		return fmt.Sprintf("PopFront = %s, want %d", ref.Opt(r), s.m[k][0])
	}
	s.m[k] = s.m[k][1:]
	return ""
}

func popB(s *st, k int) string {
	r := s.v[k].PopBack()
	n := len(s.m[k])
	if n == 0 {
		if !ref.IsNone(r) {
			return "PopBack of empty = " + ref.Opt(r)
		}
		return ""
	}
	if !ref.IsSome(r, s.m[k][n-1]) {
		return fmt.Sprintf("PopBack = %s, want %d", ref.Opt(r), s.m[k][n-1])
	}
	s.m[k] = s.m[k][:n-1]
	return ""
}

func writeF(s *st, k int) string {
	if len(s.m[k]) == 0 {
		return ""
	}
	x := s.fresh()
	*s.v[k].Front().Unwrap() = x
	s.m[k] = ref.Copy(s.m[k])
	s.m[k][0] = x
	return ""
}

func writeB(s *st, k int) string {
	if len(s.m[k]) == 0 {
		return ""
	}
	x := s.fresh()
	*s.v[k].Back().Unwrap() = x
	s.m[k] = ref.Copy(s.m[k])
	s.m[k][len(s.m[k])-1] = x
	return ""
}

func ops(nv int) []op {
	var out []op
	for k := 0; k < nv; k++ {
		p := ""
		if nv > 1 {
			p = string(rune('a'+k)) + "."
		}
		add := func(name string, run func(s *st) string) { out = append(out, op{p + name, run}) }
		add("PushBack", func(s *st) string { return pushB(s, k) })
		add("PushFront", func(s *st) string { return pushF(s, k) })
		add("PopFront", func(s *st) string { return popF(s, k) })
		add("PopBack", func(s *st) string { return popB(s, k) })
		add("*Front()=", func(s *st) string { return writeF(s, k) })
		add("*Back()=", func(s *st) string { return writeB(s, k) })
		add("Clear", func(s *st) string { s.v[k].Clear(); s.m[k] = []E{}; return "" })
		add("=own Clone", func(s *st) string { l := s.v[k].Clone(); s.v[k] = &l; return "" })
		for o := 0; o < nv; o++ {
			if o == k {
				continue
			}
			on := string(rune('a' + o))
			add("Append("+on+")", func(s *st) string {
				s.v[k].Append(s.v[o])
				s.m[k] = append(ref.Copy(s.m[k]), s.m[o]...)
				s.m[o] = []E{}
				return ""
			})
			add("="+on+".Clone", func(s *st) string {
				l := s.v[o].Clone()
				s.v[k] = &l
				s.m[k] = ref.Copy(s.m[o])
				return ""
			})
		}
	}
	return out
}

func newState(n int) *st {
	s := &st{}
	for i := 0; i < n; i++ {
		l := gost.LinkedListNew[E]()
		s.v = append(s.v, &l)
		s.m = append(s.m, []E{})
	}
	return s
}

func drainB(s *st) string {
	for k := range s.v {
		for i := len(s.m[k]) + 1; i >= 0; i-- {
			if msg := popB(s, k); msg != "" {
				return msg
			}
			if msg := s.observe(); msg != "" {
				return "while popping from the back: " + msg
			}
		}
	}
	return ""
}

func drainF(s *st) string {
	for k := range s.v {
		for i := len(s.m[k]) + 1; i >= 0; i-- {
			if msg := popF(s, k); msg != "" {
				return msg
			}
			if msg := s.observe(); msg != "" {
				return "while popping from the front: " + msg
			}
		}
	}
	return ""
}

func drainAlt(s *st) string {
	for k := range s.v {
		pushB(s, k)
		pushF(s, k)
		writeB(s, k)
	}
	for k := range s.v {
		for i := len(s.m[k]) + 1; i >= 0; i-- {
			f := popF
			if i%2 == 0 {
				f = popB
			}
			if msg := f(s, k); msg != "" {
				return msg
			}
			if msg := s.observe(); msg != "" {
				return "while popping alternately: " + msg
			}
		}
	}
	return ""
}

func main() {
	core.Main("C11", func(c *core.C) {
		c.Assume("element values are interchangeable", "l.Append(&l) and struct copies that share nodes are left unspecified")
		d1, d2, d3 := 14, 9, 7
		if c.Thorough {
			d1, d2, d3 = 20, 13, 10
		}
		for n, depth := range []int{0, d1, d2, d3} {
			if n == 0 {
				continue
			}
			list := ops(n)
			c.Part(fmt.Sprintf("%d lists", n), fmt.Sprintf("all histories of %d operations to depth %d, then drained from the front, the back and both", len(list), depth), func() {
				m := &explore.Machine[*st]{
					Name:    fmt.Sprintf("lists(%d)", n),
					Init:    func() *st { return newState(n) },
					Apply:   func(s *st, o int) string { return list[o].run(s) },
					Observe: func(s *st) string { return s.observe() },
					Canon:   func(s *st) []byte { return s.canon() },
					Finals:  []func(s *st) string{drainB, drainF, drainAlt},
					Depth:   depth,
				}
				for _, o := range list {
					m.Ops = append(m.Ops, o.name)
				}
				m.Run(c)
			})
		}
		maxN := 24
		if c.Thorough {
			maxN = 70
		}
		c.Part("append-lengths", fmt.Sprintf("Append of every two lengths <= %d, each list built in 3 ways, then drained", maxN), func() {
			c.Par(maxN+1, func(w *core.W, a int) {
				for b := 0; b <= maxN; b++ {
					for how := 0; how < 9; how++ {
						for _, drain := range []func(s *st) string{drainB, drainF, drainAlt} {
							name := fmt.Sprintf("append(%d,%d,built %d)", a, b, how)
							w.Begin(func() string { return name })
							s := newState(2)
							build := func(k, n, h int) {
								for i := 0; i < n; i++ {
									if h == 0 || h == 2 && i%2 == 0 {
										pushB(s, k)
									} else {
										pushF(s, k)
									}
								}
							}
							build(0, a, how%3)
							build(1, b, how/3)
							s.v[0].Append(s.v[1])
							s.m[0] = append(s.m[0], s.m[1]...)
							s.m[1] = []E{}
							msg := s.observe()
							if msg == "" {
								pushB(s, 1)
								pushF(s, 1)
								pushB(s, 0)
								msg = s.observe()
							}
							if msg == "" {
								msg = drain(s)
							}
							w.S++
							w.T += int64(a + b)
							w.V++
							if msg != "" {
								c.Fail(name, "%s: %s", name, msg)
								return
							}
						}
					}
				}
			})
		})
		c.Part("long lists", "lists of up to 5000 elements built from either end, drained from both, with every kind of Append", func() {
			var ns []int
			for b := 64; b <= 4096; b *= 2 {
				ns = append(ns, b-1, b, b+1)
			}
			ns = append(ns, 100, 1000, 5000)
			c.Par(len(ns)*6, func(w *core.W, i int) {
				n, how := ns[i/6], i%6
				name := fmt.Sprintf("long list of %d, built %d", n, how)
				w.Begin(func() string { return name })
				s := newState(2)
				for i := 0; i < n; i++ {
					if how%3 == 0 || how%3 == 2 && i%2 == 0 {
						pushB(s, 0)
					} else {
						pushF(s, 0)
					}
				}
				pushB(s, 1)
				msg := s.observe()
				if msg == "" {
					a, b := how/3, 1-how/3
					s.v[a].Append(s.v[b])
					s.m[a] = append(append([]E{}, s.m[a]...), s.m[b]...)
					s.m[b] = []E{}
					if msg = s.observe(); msg == "" {
						msg = []func(s *st) string{drainB, drainF, drainAlt}[how%3](s)
					}
				}
				w.S++
				w.T += int64(2 * n)
				w.V++
				if msg != "" {
					c.Fail(name, "%s: %s", name, msg)
				}
			})
		})
		eltypes.List(c)
	})
}
