// C08: Vec behaves as a growable sequence under every operation history.
package main

import (
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/eltypes"
	"verifmc/explore"
	"verifmc/ref"
)

type E = ref.E

// st is one or two real vectors with their models.
type st struct {
	v    []*gost.Vec[E]
	m    [][]E
	next E
}

func (s *st) fresh() E { s.next++; return s.next }

func (s *st) observe() string {
	for i := range s.v {
		if msg := ref.Vec(s.v[i], s.m[i], -77); msg != "" {
			return fmt.Sprintf("vector %d: %s", i, msg)
		}
	}
	return ""
}

// canon: the real vectors with their capacities and stale slots, element
// values renamed in order of first appearance (no operation of C08 looks at
// values except through callbacks, which here look at positions only, and
// Contains, which is invariant under injective renaming).
func (s *st) canon() []byte {
	ren := map[int64]int64{0: 0}
	d := core.Dumper{ValueType: reflect.TypeOf(E(0)), Rename: func(v int64) int64 {
		if r, ok := ren[v]; ok {
			return r
		}
		ren[v] = int64(len(ren))
		return ren[v]
	}}
	for i := range s.v {
		d.Dump(s.v[i])
	}
	return d.Buf
}

type op struct {
	name string
	en   func(s *st) bool
	run  func(s *st) string
}

func insertAt(m []E, i int, v E) []E {
	out := append([]E{}, m[:i]...)
	out = append(out, v)
	return append(out, m[i:]...)
}

func clone(m []E) []E { return append([]E{}, m...) }

func expectPanic(s *st, what string, f func()) string {
	if !core.Panics(f) {
		return what + " did not panic"
	}
	return ""
}

func doInsert(s *st, k int, at gost.USize) string {
	x := s.fresh()
	n := len(s.m[k])
	if at > gost.USize(n) {
		return expectPanic(s, fmt.Sprintf("Insert(%d) at length %d", at, n), func() { s.v[k].Insert(at, x) })
	}
	s.v[k].Insert(at, x)
	s.m[k] = insertAt(s.m[k], int(at), x)
	return ""
}

func doSet(s *st, k int, at gost.USize) string {
	x := s.fresh()
	r := s.v[k].Set(at, x)
	if at >= gost.USize(len(s.m[k])) {
		if !ref.IsSome(r, x) {
			return fmt.Sprintf("Set(%d,%d) at length %d = %s, want the given value", at, x, len(s.m[k]), ref.Opt(r))
		}
		return ""
	}
	if !ref.IsNone(r) {
		return fmt.Sprintf("Set(%d,%d) = %s, want None", at, x, ref.Opt(r))
	}
	s.m[k] = clone(s.m[k])
	s.m[k][at] = x
	return ""
}

func doRetain(s *st, k int, keep func(pos, n int) bool) string {
	n := len(s.m[k])
	want := []E{}
	drop := map[E]int{}
	calls := map[E]int{}
	verdict := map[E]bool{}
	for i, x := range s.m[k] {
		verdict[x] = verdict[x] || keep(i, n)
		_ = drop
	}
	for _, x := range s.m[k] {
		if verdict[x] {
			want = append(want, x)
		}
	}
	total := 0
	s.v[k].Retain(func(x E) gost.Bool { calls[x]++; total++; return gost.Bool(verdict[x]) })
	s.m[k] = want
	if total != n {
		return fmt.Sprintf("Retain called the predicate %d times for %d elements", total, n)
	}
	return ""
}

func ops(two bool, full bool) []op {
	var out []op
	add := func(name string, run func(s *st) string) { out = append(out, op{name: name, run: run}) }
	nv := 1
	if two {
		nv = 2
	}
	for k := 0; k < nv; k++ {
		p := ""
		if two {
			p = string(rune('a'+k)) + "."
		}
		add(p+"Push", func(s *st) string {
			x := s.fresh()
			s.v[k].Push(x)
			s.m[k] = append(clone(s.m[k]), x)
			return ""
		})
		add(p+"Pop", func(s *st) string {
			r := s.v[k].Pop()
			n := len(s.m[k])
			if n == 0 {
				if !ref.IsNone(r) {
					return "Pop of empty = " + ref.Opt(r)
				}
				return ""
			}
			if !ref.IsSome(r, s.m[k][n-1]) {
				return fmt.Sprintf("Pop = %s, want %d", ref.Opt(r), s.m[k][n-1])
			}
			s.m[k] = s.m[k][:n-1]
			return ""
		})
		add(p+"Insert(0)", func(s *st) string { return doInsert(s, k, 0) })
		add(p+"Insert(mid)", func(s *st) string { return doInsert(s, k, gost.USize(len(s.m[k])/2)) })
		add(p+"Clear", func(s *st) string { s.v[k].Clear(); s.m[k] = []E{}; return "" })
		add(p+"Set(0)", func(s *st) string { return doSet(s, k, 0) })
		if two {
			o := 1 - k
			add(p+"Append("+string(rune('a'+o))+")", func(s *st) string {
				s.v[k].Append(s.v[o])
				s.m[k] = append(clone(s.m[k]), s.m[o]...)
				s.m[o] = []E{}
				return ""
			})
			add(p+"Reserve(3)", func(s *st) string { s.v[k].Reserve(3); return "" })
			add(p+"Retain(not first)", func(s *st) string {
				return doRetain(s, k, func(i, n int) bool { return i != 0 })
			})
			continue
		}
		add("Insert(len)", func(s *st) string { return doInsert(s, k, gost.USize(len(s.m[k]))) })
		add("Insert(len+1)", func(s *st) string { return doInsert(s, k, gost.USize(len(s.m[k])+1)) })
		add("Insert(cap+1)", func(s *st) string { return doInsert(s, k, s.v[k].Capacity()+1) })
		add("Insert(2^64-1)", func(s *st) string { return doInsert(s, k, ref.Huge2) })
		add("Set(last)", func(s *st) string { return doSet(s, k, gost.USize(len(s.m[k])-1)) })
		add("Set(len)", func(s *st) string { return doSet(s, k, gost.USize(len(s.m[k]))) })
		add("Swap(0,last)", func(s *st) string {
			n := len(s.m[k])
			if n == 0 {
				return ""
			}
			s.v[k].Swap(0, gost.USize(n-1))
			s.m[k] = clone(s.m[k])
			s.m[k][0], s.m[k][n-1] = s.m[k][n-1], s.m[k][0]
			return ""
		})
		add("Reverse", func(s *st) string {
			s.v[k].Reverse()
			r := []E{}
			for i := len(s.m[k]) - 1; i >= 0; i-- {
				r = append(r, s.m[k][i])
			}
			s.m[k] = r
			return ""
		})
		add("Fill", func(s *st) string {
			x := s.fresh()
			s.v[k].Fill(x)
			s.m[k] = clone(s.m[k])
			for i := range s.m[k] {
				s.m[k][i] = x
			}
			return ""
		})
		add("FillWith", func(s *st) string {
			var made []E
			s.v[k].FillWith(func() E { x := s.fresh(); made = append(made, x); return x })
			if len(made) != len(s.m[k]) {
				return fmt.Sprintf("FillWith called its function %d times for %d elements", len(made), len(s.m[k]))
			}
			s.m[k] = made
			return ""
		})
		for _, n := range []gost.USize{0, 1, 4} {
			add(fmt.Sprintf("Reserve(%d)", n), func(s *st) string {
				s.v[k].Reserve(n)
				if s.v[k].Capacity() < gost.USize(len(s.m[k]))+n {
					return fmt.Sprintf("Reserve(%d) at length %d leaves capacity %d", n, len(s.m[k]), s.v[k].Capacity())
				}
				return ""
			})
		}
		masks := []struct {
			n string
			f func(i, n int) bool
		}{
			{"none", func(i, n int) bool { return false }},
			{"all", func(i, n int) bool { return true }},
			{"even", func(i, n int) bool { return i%2 == 0 }},
			{"not last", func(i, n int) bool { return i != n-1 }},
			{"not first", func(i, n int) bool { return i != 0 }},
		}
		for _, mk := range masks {
			add("Retain("+mk.n+")", func(s *st) string { return doRetain(s, k, mk.f) })
		}
	}
	return out
}

type ctor struct {
	name string
	make func() (gost.Vec[E], []E)
}

var ctors = []ctor{
	{"VecNew", func() (gost.Vec[E], []E) { return gost.VecNew[E](), []E{} }},
	{"Vec{}", func() (gost.Vec[E], []E) { return gost.Vec[E]{}, []E{} }},
	{"VecWithCapacity(0)", func() (gost.Vec[E], []E) { return gost.VecWithCapacity[E](0), []E{} }},
	{"VecWithCapacity(1)", func() (gost.Vec[E], []E) { return gost.VecWithCapacity[E](1), []E{} }},
	{"VecWithCapacity(5)", func() (gost.Vec[E], []E) { return gost.VecWithCapacity[E](5), []E{} }},
	{"VecWithLen(0)", func() (gost.Vec[E], []E) { return gost.VecWithLen[E](0), []E{} }},
	{"VecWithLen(3)", func() (gost.Vec[E], []E) { return gost.VecWithLen[E](3), []E{0, 0, 0} }},
}

func newState(cs ...ctor) *st {
	s := &st{}
	for _, c := range cs {
		v, m := c.make()
		s.v = append(s.v, &v)
		s.m = append(s.m, m)
	}
	return s
}

func machine(name string, list []op, depth int, cs ...ctor) *explore.Machine[*st] {
	m := &explore.Machine[*st]{
		Name:    name,
		Init:    func() *st { return newState(cs...) },
		Apply:   func(s *st, o int) string { return list[o].run(s) },
		Observe: func(s *st) string { return s.observe() },
		Canon:   func(s *st) []byte { return s.canon() },
		Depth:   depth,
	}
	for _, o := range list {
		m.Ops = append(m.Ops, o.name)
	}
	return m
}

func main() {
	core.Main("C08", func(c *core.C) {
		c.Assume("element values are interchangeable (no Vec operation of this property inspects them except through Eq and callbacks)",
			"self-append (v.Append(&v)) and copies of the Vec struct that share storage are left unspecified")
		depth1, depth2 := 9, 9
		if c.Thorough {
			depth1, depth2 = 12, 12
		}
		for _, k := range ctors {
			c.Part("single:"+k.name, fmt.Sprintf("all histories of %d operations to depth %d", len(ops(false, false)), depth1), func() {
				machine(k.name, ops(false, false), depth1, k).Run(c)
			})
		}
		pairs := [][2]int{{0, 0}, {4, 2}, {6, 3}}
		if c.Thorough {
			pairs = append(pairs, [2]int{6, 4}, [2]int{1, 6}, [2]int{3, 3})
		}
		for _, p := range pairs {
			c.Part("pair:"+ctors[p[0]].name+"+"+ctors[p[1]].name, fmt.Sprintf("two vectors, all histories to depth %d", depth2), func() {
				machine("a="+ctors[p[0]].name+",b="+ctors[p[1]].name, ops(true, false), depth2, ctors[p[0]], ctors[p[1]]).Run(c)
			})
		}
		layouts(c)
	})
}

// layouts: from every (length, spare capacity) layout, every single operation
// with every index.
func layouts(c *core.C) {
	maxLen := 20
	if c.Thorough {
		maxLen = 70
	}
	maxMask := 10
	if c.Thorough {
		maxMask = 14
	}
	type lay struct {
		n, spare int
		how      string
	}
	var lays []lay
	for n := 0; n <= maxLen; n++ {
		for _, spare := range []int{0, 1, 2, 3, 7} {
			lays = append(lays, lay{n, spare, "cap"})
		}
		lays = append(lays, lay{n, 0, "grown"}, lay{n, 0, "popped"}, lay{n, 2, "front"})
	}
	build := func(l lay) *st {
		var v gost.Vec[E]
		s := &st{v: []*gost.Vec[E]{&v}, m: [][]E{{}}}
		switch l.how {
		case "cap":
			v = gost.VecWithCapacity[E](gost.USize(l.n + l.spare))
		case "grown", "popped", "front":
			v = gost.VecNew[E]()
		}
		extra := 0
		if l.how == "popped" {
			extra = 5
		}
		for i := 0; i < l.n+extra; i++ {
			x := s.fresh()
			if l.how == "front" {
				v.Insert(0, x)
				s.m[0] = insertAt(s.m[0], 0, x)
			} else {
				v.Push(x)
				s.m[0] = append(s.m[0], x)
			}
		}
		for i := 0; i < extra; i++ {
			v.Pop()
			s.m[0] = s.m[0][:len(s.m[0])-1]
		}
		return s
	}
	c.Part("layouts", fmt.Sprintf("every length <= %d with spare capacities and origins, every operation with every index (Retain: every mask up to length %d)", maxLen, maxMask), func() {
		c.Par(len(lays), func(w *core.W, li int) {
			l := lays[li]
			name := func(o string) string { return fmt.Sprintf("layout(%s,len=%d,spare=%d).%s", l.how, l.n, l.spare, o) }
			try := func(o string, f func(s *st) string) {
				if c.Stopped() {
					return
				}
				w.Begin(func() string { return name(o) })
				s := build(l)
				w.S++
				if msg := s.observe(); msg != "" {
					c.Fail(name("build"), "%s: %s", name("build"), msg)
					return
				}
				var msg string
				if p := core.Try(func() { msg = f(s) }); p != nil {
					msg = fmt.Sprintf("panics: %v", p)
				}
				if msg == "" {
					msg = s.observe()
				}
				// the vector stays usable: push, pop, and look again
				if msg == "" {
					x := s.fresh()
					s.v[0].Push(x)
					s.m[0] = append(clone(s.m[0]), x)
					if msg = s.observe(); msg != "" {
						msg = "after a further Push: " + msg
					}
				}
				w.T += 2
				w.V++
				if msg != "" {
					c.Fail(name(o), "%s: %s", name(o), msg)
				}
			}
			for i := 0; i <= l.n+2; i++ {
				try(fmt.Sprintf("Insert(%d)", i), func(s *st) string { return doInsert(s, 0, gost.USize(i)) })
				try(fmt.Sprintf("Set(%d)", i), func(s *st) string { return doSet(s, 0, gost.USize(i)) })
				try(fmt.Sprintf("SetUnchecked(%d)", i), func(s *st) string {
					if i < len(s.m[0]) {
						x := s.fresh()
						s.v[0].SetUnchecked(gost.USize(i), x)
						s.m[0][i] = x
					}
					return ""
				})
				try(fmt.Sprintf("Reserve(%d)", i), func(s *st) string { s.v[0].Reserve(gost.USize(i)); return "" })
			}
			for _, h := range []gost.USize{ref.Huge1, ref.Huge2, ref.Huge2 - 1} {
				try(fmt.Sprintf("Insert(%d)", h), func(s *st) string { return doInsert(s, 0, h) })
				try(fmt.Sprintf("Set(%d)", h), func(s *st) string { return doSet(s, 0, h) })
			}
			for i := 0; i < l.n; i++ {
				for j := 0; j < l.n; j++ {
					try(fmt.Sprintf("Swap(%d,%d)", i, j), func(s *st) string {
						s.v[0].Swap(gost.USize(i), gost.USize(j))
						s.m[0][i], s.m[0][j] = s.m[0][j], s.m[0][i]
						return ""
					})
				}
			}
			for _, o := range ops(false, false) {
				try(o.name, o.run)
			}
			if l.n <= maxMask {
				for mask := 0; mask < 1<<l.n; mask++ {
					try(fmt.Sprintf("Retain(%0*b)", l.n, mask), func(s *st) string {
						return doRetain(s, 0, func(i, n int) bool { return mask>>i&1 == 1 })
					})
				}
			}
			if l.spare == 0 && c.WantSample() {
				c.Sample("%s", name("all operations"))
			}
		})
	})
	lens := []int{30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}
	c.Part("large", "lengths around powers of two up to 1025: every operation, and Append of every pair of lengths", func() {
		list := ops(false, false)
		c.Par(len(lens)*(len(list)+len(lens)), func(w *core.W, k int) {
			n, o := lens[k%len(lens)], k/len(lens)
			s := newState(ctors[0], ctors[0])
			fill := func(i, n int) {
				for len(s.m[i]) < n {
					x := s.fresh()
					s.v[i].Push(x)
					s.m[i] = append(s.m[i], x)
				}
			}
			fill(0, n)
			name, msg := "", ""
			if o < len(list) {
				name = fmt.Sprintf("large(%d).%s", n, list[o].name)
				w.Begin(func() string { return name })
				msg = list[o].run(s)
			} else {
				m := lens[o-len(list)]
				name = fmt.Sprintf("large(%d).Append(%d)", n, m)
				w.Begin(func() string { return name })
				fill(1, m)
				s.v[0].Append(s.v[1])
				s.m[0] = append(s.m[0], s.m[1]...)
				s.m[1] = []E{}
			}
			w.S++
			w.T++
			w.V++
			for i := 0; i < 2 && msg == ""; i++ {
				if msg = s.observe(); msg == "" {
					fill(0, len(s.m[0])+1)
					fill(1, len(s.m[1])+1)
				}
			}
			if msg != "" {
				c.Fail(name, "%s: %s", name, msg)
			}
		})
	})
	big := []int{63, 64, 65, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 5000}
	c.Part("growth", "push/insert/append/pop runs across every growth step up to 5000 elements, observed at each step boundary", func() {
		c.Par(len(big), func(w *core.W, bi int) {
			n := big[bi]
			w.Begin(func() string { return fmt.Sprintf("grow to %d", n) })
			s := newState(ctors[0], ctors[3])
			for i := 0; i < n; i++ {
				x := s.fresh()
				s.v[0].Push(x)
				s.m[0] = append(s.m[0], x)
				w.T++
			}
			if msg := s.observe(); msg != "" {
				c.Fail("growth", "grow to %d: %s", n, msg)
				return
			}
			s.v[1].Append(s.v[0])
			s.m[1], s.m[0] = s.m[0], []E{}
			w.S += 2
			w.V++
			if msg := s.observe(); msg != "" {
				c.Fail("growth", "append of %d: %s", n, msg)
				return
			}
			for i := 0; i < n; i++ {
				r := s.v[1].Pop()
				if !ref.IsSome(r, s.m[1][n-1-i]) {
					c.Fail("growth", "pop %d of %d: %s", i, n, ref.Opt(r))
					return
				}
			}
			s.m[1] = []E{}
			if msg := s.observe(); msg != "" {
				c.Fail("growth", "drained %d: %s", n, msg)
			}
		})
		eltypes.Vec(c)
	})
}
