// C10: VecDeque behaves as a double-ended sequence under every operation
// history, whatever the capacity and the position of its contents.
package main

import (
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/eltypes"
	"verifmc/explore"
	"verifmc/ref"
)

type E = ref.E

type st struct {
	v    []*gost.VecDeque[E]
	m    [][]E
	next E
}

func (s *st) fresh() E { s.next++; return s.next }

func (s *st) observe() string {
	for i := range s.v {
		if msg := ref.Deque(s.v[i], s.m[i], -77); msg != "" {
			return fmt.Sprintf("deque %d: %s", i, msg)
		}
	}
	return ""
}

func (s *st) canon() []byte {
	ren := map[int64]int64{0: 0}
	d := core.Dumper{ValueType: reflect.TypeOf(E(0)), Rename: func(v int64) int64 {
		if r, ok := ren[v]; ok {
			return r
		}
		ren[v] = int64(len(ren))
		return ren[v]
	}}
	for i := range s.v {
		d.Dump(s.v[i])
	}
	return d.Buf
}

type op struct {
	name string
	run  func(s *st) string
}

func pushF(s *st, k int) string {
	x := s.fresh()
	s.v[k].PushFront(x)
	s.m[k] = append([]E{x}, s.m[k]...)
	return ""
}

func pushB(s *st, k int) string {
	x := s.fresh()
	s.v[k].PushBack(x)
	s.m[k] = append(ref.Copy(s.m[k]), x)
	return ""
}

func popF(s *st, k int) string {
	r := s.v[k].PopFront()
	if len(s.m[k]) == 0 {
		if !ref.IsNone(r) {
			return "PopFront of empty = " + ref.Opt(r)
		}
		return ""
	}
	if !ref.IsSome(r, s.m[k][0]) {
		return fmt.Sprintf("PopFront = %s, want %d", ref.Opt(r), s.m[k][0])
	}
	s.m[k] = s.m[k][1:]
	return ""
}

func popB(s *st, k int) string {
	r := s.v[k].PopBack()
	n := len(s.m[k])
	if n == 0 {
		if !ref.IsNone(r) {
			return "PopBack of empty = " + ref.Opt(r)
		}
		return ""
	}
	if !ref.IsSome(r, s.m[k][n-1]) {
		return fmt.Sprintf("PopBack = %s, want %d", ref.Opt(r), s.m[k][n-1])
	}
	s.m[k] = s.m[k][:n-1]
	return ""
}

func set(s *st, k int, at gost.USize) string {
	x := s.fresh()
	r := s.v[k].Set(at, x)
	if at >= gost.USize(len(s.m[k])) {
		if !ref.IsSome(r, x) {
			return fmt.Sprintf("Set(%d,%d) at length %d = %s, want the given value", at, x, len(s.m[k]), ref.Opt(r))
		}
		return ""
	}
	if !ref.IsNone(r) {
		return fmt.Sprintf("Set(%d,%d) = %s, want None", at, x, ref.Opt(r))
	}
	s.m[k] = ref.Copy(s.m[k])
	s.m[k][at] = x
	return ""
}

func swap(s *st, k, i, j int) string {
	n := len(s.m[k])
	if i < 0 || j < 0 || i >= n || j >= n {
		return ""
	}
	s.v[k].Swap(gost.USize(i), gost.USize(j))
	s.m[k] = ref.Copy(s.m[k])
	s.m[k][i], s.m[k][j] = s.m[k][j], s.m[k][i]
	return ""
}

func retain(s *st, k int, keep func(i, n int) bool) string {
	n := len(s.m[k])
	verdict := map[E]bool{}
	for i, x := range s.m[k] {
		verdict[x] = verdict[x] || keep(i, n)
	}
	want := []E{}
	for _, x := range s.m[k] {
		if verdict[x] {
			want = append(want, x)
		}
	}
	total := 0
	s.v[k].Retain(func(x E) gost.Bool { total++; return gost.Bool(verdict[x]) })
	s.m[k] = want
	if total != n {
		return fmt.Sprintf("Retain called the predicate %d times for %d elements", total, n)
	}
	return ""
}

func fill(s *st, k int) string {
	x := s.fresh()
	s.v[k].Fill(x)
	s.m[k] = ref.Copy(s.m[k])
	for i := range s.m[k] {
		s.m[k][i] = x
	}
	return ""
}

func fillWith(s *st, k int) string {
	var made []E
	s.v[k].FillWith(func() E { x := s.fresh(); made = append(made, x); return x })
	if len(made) != len(s.m[k]) {
		return fmt.Sprintf("FillWith called its function %d times for %d elements", len(made), len(s.m[k]))
	}
	s.m[k] = made
	return ""
}

func reserve(s *st, k int, n gost.USize) string {
	s.v[k].Reserve(n)
	if s.v[k].Capacity() < gost.USize(len(s.m[k]))+n {
		return fmt.Sprintf("Reserve(%d) at length %d leaves capacity %d", n, len(s.m[k]), s.v[k].Capacity())
	}
	return ""
}

func appendTo(s *st, k, o int) string {
	s.v[k].Append(s.v[o])
	s.m[k] = append(ref.Copy(s.m[k]), s.m[o]...)
	s.m[o] = []E{}
	return ""
}

func ops(nv int) []op {
	var out []op
	for k := 0; k < nv; k++ {
		p := ""
		if nv > 1 {
			p = string(rune('a'+k)) + "."
		}
		add := func(name string, run func(s *st) string) { out = append(out, op{p + name, run}) }
		add("PushBack", func(s *st) string { return pushB(s, k) })
		add("PushFront", func(s *st) string { return pushF(s, k) })
		add("PopFront", func(s *st) string { return popF(s, k) })
		add("PopBack", func(s *st) string { return popB(s, k) })
		add("Set(0)", func(s *st) string { return set(s, k, 0) })
		add("Clear", func(s *st) string { s.v[k].Clear(); s.m[k] = []E{}; return "" })
		add("Reserve(3)", func(s *st) string { return reserve(s, k, 3) })
		add("Retain(not first)", func(s *st) string { return retain(s, k, func(i, n int) bool { return i != 0 }) })
		if nv > 1 {
			o := 1 - k
			add("Append("+string(rune('a'+o))+")", func(s *st) string { return appendTo(s, k, o) })
			continue
		}
		add("Set(last)", func(s *st) string { return set(s, k, gost.USize(len(s.m[k])-1)) })
		add("Set(len)", func(s *st) string { return set(s, k, gost.USize(len(s.m[k]))) })
		add("Swap(0,last)", func(s *st) string { return swap(s, k, 0, len(s.m[k])-1) })
		add("Swap(0,1)", func(s *st) string { return swap(s, k, 0, 1) })
		add("Retain(none)", func(s *st) string { return retain(s, k, func(i, n int) bool { return false }) })
		add("Retain(all)", func(s *st) string { return retain(s, k, func(i, n int) bool { return true }) })
		add("Retain(even)", func(s *st) string { return retain(s, k, func(i, n int) bool { return i%2 == 0 }) })
		add("Retain(not last)", func(s *st) string { return retain(s, k, func(i, n int) bool { return i != n-1 }) })
		add("Fill", func(s *st) string { return fill(s, k) })
		add("FillWith", func(s *st) string { return fillWith(s, k) })
		add("Reserve(0)", func(s *st) string { return reserve(s, k, 0) })
		add("Reserve(1)", func(s *st) string { return reserve(s, k, 1) })
	}
	return out
}

type ctor struct {
	name string
	make func() (gost.VecDeque[E], []E)
}

var ctors = []ctor{
	{"New", func() (gost.VecDeque[E], []E) { return gost.VecDequeNew[E](), []E{} }},
	{"WithCapacity(0)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithCapacity[E](0), []E{} }},
	{"WithCapacity(1)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithCapacity[E](1), []E{} }},
	{"WithCapacity(2)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithCapacity[E](2), []E{} }},
	{"WithCapacity(3)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithCapacity[E](3), []E{} }},
	{"WithCapacity(5)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithCapacity[E](5), []E{} }},
	{"WithLen(0)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithLen[E](0), []E{} }},
	{"WithLen(3)", func() (gost.VecDeque[E], []E) { return gost.VecDequeWithLen[E](3), []E{0, 0, 0} }},
}

func newState(cs ...ctor) *st {
	s := &st{}
	for _, c := range cs {
		v, m := c.make()
		s.v = append(s.v, &v)
		s.m = append(s.m, m)
	}
	return s
}

func machine(name string, list []op, depth int, cs ...ctor) *explore.Machine[*st] {
	m := &explore.Machine[*st]{
		Name:    name,
		Init:    func() *st { return newState(cs...) },
		Apply:   func(s *st, o int) string { return list[o].run(s) },
		Observe: func(s *st) string { return s.observe() },
		Canon:   func(s *st) []byte { return s.canon() },
		Depth:   depth,
	}
	for _, o := range list {
		m.Ops = append(m.Ops, o.name)
	}
	return m
}

// lay is a ring layout: capacity, physical start, length.
type lay struct{ cap, head, n int }

func (l lay) String() string { return fmt.Sprintf("ring(cap=%d,start=%d,len=%d)", l.cap, l.head, l.n) }

// put builds the layout with the public operations only.
func put(s *st, k int, l lay) {
	v := gost.VecDequeWithCapacity[E](gost.USize(l.cap))
	for i := 0; i < l.head; i++ {
		v.PushBack(-1)
		v.PopFront()
	}
	s.m[k] = []E{}
	*s.v[k] = v
	for i := 0; i < l.n; i++ {
		pushB(s, k)
	}
}

func main() {
	core.Main("C10", func(c *core.C) {
		c.Assume("element values are interchangeable (no operation of this property inspects them except through Eq and callbacks)",
			"Swap with an out-of-range index, self-append and struct copies sharing storage are left unspecified")
		depth1, depth2 := 8, 7
		if c.Thorough {
			depth1, depth2 = 10, 9
		}
		for _, k := range ctors {
			c.Part("single:"+k.name, fmt.Sprintf("all histories of %d operations to depth %d", len(ops(1)), depth1), func() {
				machine(k.name, ops(1), depth1, k).Run(c)
			})
		}
		pairs := [][2]int{{0, 0}, {4, 3}, {7, 2}}
		if c.Thorough {
			pairs = append(pairs, [2]int{1, 5}, [2]int{5, 7})
		}
		for _, p := range pairs {
			c.Part("pair:"+ctors[p[0]].name+"+"+ctors[p[1]].name, fmt.Sprintf("two deques, all histories to depth %d", depth2), func() {
				machine("a="+ctors[p[0]].name+",b="+ctors[p[1]].name, ops(2), depth2, ctors[p[0]], ctors[p[1]]).Run(c)
			})
		}
		maxCap, maxMask, maxApp := 9, 7, 5
		if c.Thorough {
			maxCap, maxMask, maxApp = 17, 12, 9
		}
		var lays, small []lay
		for cp := 1; cp <= maxCap; cp++ {
			for h := 0; h < cp; h++ {
				for n := 0; n <= cp; n++ {
					lays = append(lays, lay{cp, h, n})
					if cp <= maxApp {
						small = append(small, lay{cp, h, n})
					}
				}
			}
		}
		for _, cp := range []int{16, 31, 32, 33, 64} {
			for _, h := range []int{0, 1, cp / 2, cp - 1} {
				for _, n := range []int{0, 1, cp / 2, cp - 1, cp} {
					lays = append(lays, lay{cp, h, n})
				}
			}
		}
		run := func(w *core.W, name string, s *st, f func() string) bool {
			w.Begin(func() string { return name })
			w.S++
			w.T++
			w.V++
			var msg string
			if p := core.Try(func() {
				if msg = s.observe(); msg != "" {
					msg = "as built: " + msg
					return
				}
				if msg = f(); msg == "" {
					msg = s.observe()
				}
				// stays usable at both ends, across the next growth
				for i := 0; i < 3 && msg == ""; i++ {
					for k := range s.v {
						if msg == "" {
							pushB(s, k)
							pushF(s, k)
							w.T += 2
						}
					}
					if msg == "" {
						if msg = s.observe(); msg != "" {
							msg = "after further pushes: " + msg
						}
					}
				}
				for k := range s.v {
					for len(s.m[k]) > 0 && msg == "" {
						if len(s.m[k])%2 == 0 {
							msg = popB(s, k)
						} else {
							msg = popF(s, k)
						}
						w.T++
					}
				}
				if msg == "" {
					msg = s.observe()
				}
			}); p != nil {
				msg = fmt.Sprintf("panics: %v", p)
			}
			if msg != "" {
				c.Fail(name, "%s: %s", name, msg)
				return false
			}
			return true
		}
		c.Part("layouts", fmt.Sprintf("every ring layout with capacity <= %d (and selected up to 64), every operation with every index, every Retain mask up to length %d", maxCap, maxMask), func() {
			list := ops(1)
			c.Par(len(lays), func(w *core.W, i int) {
				l := lays[i]
				try := func(o string, f func(s *st) string) {
					if c.Stopped() {
						return
					}
					s := newState(ctors[0])
					put(s, 0, l)
					run(w, l.String()+"."+o, s, func() string { return f(s) })
				}
				for _, o := range list {
					try(o.name, o.run)
				}
				idx := []gost.USize{ref.Huge1, ref.Huge2}
				for i := 0; i <= l.cap+1; i++ {
					idx = append(idx, gost.USize(i))
				}
				for _, i := range idx {
					try(fmt.Sprintf("Set(%d)", i), func(s *st) string { return set(s, 0, i) })
					if i < gost.USize(l.n) {
						try(fmt.Sprintf("SetUnchecked(%d)", i), func(s *st) string {
							x := s.fresh()
							s.v[0].SetUnchecked(i, x)
							s.m[0][i] = x
							return ""
						})
					}
					if i < 64 {
						try(fmt.Sprintf("Reserve(%d)", i), func(s *st) string { return reserve(s, 0, i) })
					}
				}
				if l.cap <= 12 || c.Thorough {
					for i := 0; i < l.n; i++ {
						for j := 0; j < l.n; j++ {
							try(fmt.Sprintf("Swap(%d,%d)", i, j), func(s *st) string { return swap(s, 0, i, j) })
						}
					}
				}
				if l.n <= maxMask {
					for mask := 0; mask < 1<<l.n; mask++ {
						try(fmt.Sprintf("Retain(%0*b)", l.n, mask), func(s *st) string {
							return retain(s, 0, func(i, n int) bool { return mask>>i&1 == 1 })
						})
					}
				}
				if l.head > 0 && l.n > 1 && c.WantSample() {
					c.Sample("%v: every operation and index", l)
				}
			})
		})
		c.Part("append-layouts", fmt.Sprintf("Append between every two ring layouts with capacity <= %d", maxApp), func() {
			c.Par(len(small), func(w *core.W, i int) {
				for _, lb := range small {
					if c.Stopped() {
						return
					}
					s := newState(ctors[0], ctors[0])
					put(s, 0, small[i])
					put(s, 1, lb)
					run(w, fmt.Sprintf("%v.Append(%v)", small[i], lb), s, func() string { return appendTo(s, 0, 1) })
				}
			})
		})
		c.Part("large-layouts", "ring layouts with capacities around powers of two to 1025 (4097 thorough), heads at 0, 1, the middle and the end: every operation, indices at the ends, the middle and the wrap, Retain patterns, and Append between layouts of different sizes", func() {
			var big []lay
			caps := []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}
			if c.Thorough {
				caps = append(caps, 2047, 2048, 2049, 4095, 4096, 4097)
			}
			for _, cp := range caps {
				for _, h := range []int{0, 1, cp / 2, cp - 1} {
					for _, n := range []int{cp / 2, cp - 1, cp} {
						big = append(big, lay{cp, h, n})
					}
				}
			}
			list := ops(1)
			c.Par(len(big), func(w *core.W, i int) {
				l := big[i]
				try := func(o string, f func(s *st) string) {
					if c.Stopped() {
						return
					}
					s := newState(ctors[0])
					put(s, 0, l)
					run(w, l.String()+"."+o, s, func() string { return f(s) })
				}
				for _, o := range list {
					try(o.name, o.run)
				}
				for _, i := range []int{0, 1, l.n / 2, l.cap - l.head - 1, l.cap - l.head, l.n - 1} {
					if i < l.n {
						try(fmt.Sprintf("Set(%d)", i), func(s *st) string { return set(s, 0, gost.USize(i)) })
						try(fmt.Sprintf("Swap(%d,%d)", i, l.n-1-i), func(s *st) string { return swap(s, 0, i, l.n-1-i) })
					}
				}
				for _, r := range []int{0, 1, l.cap - l.n, l.cap - l.n + 1, l.cap, 3 * l.cap} {
					try(fmt.Sprintf("Reserve(%d)", r), func(s *st) string { return reserve(s, 0, gost.USize(r)) })
				}
				for k, keep := range []func(i, n int) bool{
					func(i, n int) bool { return i%2 == 0 }, func(i, n int) bool { return i%3 == 1 }, func(i, n int) bool { return i < n/2 },
					func(i, n int) bool { return i >= n/2 }, func(i, n int) bool { return i != n/2 }, func(i, n int) bool { return i == n-1 },
				} {
					try(fmt.Sprintf("Retain(pattern %d)", k), func(s *st) string { return retain(s, 0, keep) })
				}
				for _, o := range []lay{{1, 0, 1}, {5, 3, 4}, {128, 100, 90}, {513, 512, 513}} {
					for turn := 0; turn < 2; turn++ {
						s := newState(ctors[0], ctors[0])
						put(s, turn, l)
						put(s, 1-turn, o)
						run(w, fmt.Sprintf("%v and %v, Append to number %d", l, o, turn), s, func() string { return appendTo(s, turn, 1-turn) })
					}
				}
			})
		})
		c.Part("push-patterns", "from every ring layout with capacity <= 5, every front/back pattern of 10 pushes (across two growth steps)", func() {
			var ls []lay
			for _, l := range lays {
				if l.cap <= 5 {
					ls = append(ls, l)
				}
			}
			c.Par(len(ls), func(w *core.W, i int) {
				for mask := 0; mask < 1<<10 && !c.Stopped(); mask++ {
					s := newState(ctors[0])
					put(s, 0, ls[i])
					run(w, fmt.Sprintf("%v.pushes(%010b)", ls[i], mask), s, func() string {
						for b := 0; b < 10; b++ {
							if mask>>b&1 == 1 {
								pushF(s, 0)
							} else {
								pushB(s, 0)
							}
							w.T++
						}
						return ""
					})
				}
			})
		})
		c.Part("large", "queue and stack runs of up to 3000 elements through every growth step", func() {
			c.Par(8, func(w *core.W, i int) {
				s := newState(ctors[i])
				name := "large:" + ctors[i].name
				w.Begin(func() string { return name })
				var v = s.v[0]
				var lo, hi int // model: consecutive numbers lo..hi-1 after draining the initial contents
				for v.Len() > 0 {
					v.PopFront()
				}
				for round := 0; round < 3000; round++ {
					switch {
					case round%7 == 3:
						v.PushFront(E(lo - 1))
						lo--
					case round%5 == 4 && hi > lo:
						if g := v.PopFront(); !ref.IsSome(g, E(lo)) {
							c.Fail(name, "%s round %d: PopFront = %s, want %d", name, round, ref.Opt(g), lo)
							return
						}
						lo++
					default:
						v.PushBack(E(hi))
						hi++
					}
					w.T++
					if v.Len() != gost.USize(hi-lo) {
						c.Fail(name, "%s round %d: Len = %d, want %d", name, round, v.Len(), hi-lo)
						return
					}
					if round%97 == 0 || v.Len() == v.Capacity() {
						for j := lo; j < hi; j++ {
							if g := v.Get(gost.USize(j - lo)); !ref.IsSome(g, E(j)) {
								c.Fail(name, "%s round %d: Get(%d) = %s, want %d", name, round, j-lo, ref.Opt(g), j)
								return
							}
						}
						w.S++
						w.V++
					}
				}
			})
		})
		eltypes.Deque(c)
	})
}
