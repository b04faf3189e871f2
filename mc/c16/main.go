// C16: set algebra agrees with mathematical set operations.
package main

import (
	"fmt"
	"sort"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/ref"
)

type K = gost.I32

// Set is what BTreeSet[K] and HashSet[K] have in common, S being the type.
type Set[S any] interface {
	*S
	Insert(K) gost.Bool
	Remove(K) gost.Bool
	Contains(K) gost.Bool
	Clear()
}

// ops are the value-receiver methods, given per type.
type ops[S any] struct {
	name                           string
	mk                             func() S
	union, inter, sym              func(a, b S) S
	subset, superset, disjoint, eq func(a, b S) gost.Bool
	list                           func(s *S) ([]K, string)
	length                         func(s *S) gost.USize
	ordered                        bool
}

var bt = ops[gost.BTreeSet[K]]{
	name: "BTreeSet", mk: gost.BTreeSetNew[K], ordered: true,
	union:    func(a, b gost.BTreeSet[K]) gost.BTreeSet[K] { return a.Union(b) },
	inter:    func(a, b gost.BTreeSet[K]) gost.BTreeSet[K] { return a.Intersection(b) },
	sym:      func(a, b gost.BTreeSet[K]) gost.BTreeSet[K] { return a.SymmetricDifference(b) },
	subset:   func(a, b gost.BTreeSet[K]) gost.Bool { return a.IsSubset(b) },
	superset: func(a, b gost.BTreeSet[K]) gost.Bool { return a.IsSuperset(b) },
	disjoint: func(a, b gost.BTreeSet[K]) gost.Bool { return a.IsDisjoint(b) },
	eq:       func(a, b gost.BTreeSet[K]) gost.Bool { return a.Eq(b) },
	list:     func(s *gost.BTreeSet[K]) ([]K, string) { return ref.Drain(s.IntoIter(), 10000) },
	length:   func(s *gost.BTreeSet[K]) gost.USize { return s.Len() },
}

var hs = ops[gost.HashSet[K]]{
	name: "HashSet", mk: gost.HashSetNew[K],
	union:    func(a, b gost.HashSet[K]) gost.HashSet[K] { return a.Union(b) },
	inter:    func(a, b gost.HashSet[K]) gost.HashSet[K] { return a.Intersection(b) },
	sym:      func(a, b gost.HashSet[K]) gost.HashSet[K] { return a.SymmetricDifference(b) },
	subset:   func(a, b gost.HashSet[K]) gost.Bool { return a.IsSubset(b) },
	superset: func(a, b gost.HashSet[K]) gost.Bool { return a.IsSuperset(b) },
	disjoint: func(a, b gost.HashSet[K]) gost.Bool { return a.IsDisjoint(b) },
	eq:       func(a, b gost.HashSet[K]) gost.Bool { return a.Eq(b) },
	list:     func(s *gost.HashSet[K]) ([]K, string) { return ref.Drain(s.IntoIter(), 10000) },
	length:   func(s *gost.HashSet[K]) gost.USize { return s.Len() },
}

// build makes a set of the given ascending elements by one of several
// histories, so that different internal layouts of equal sets are paired.
func build[S any, P Set[S]](o *ops[S], el []K, how int) S {
	s := o.mk()
	p := P(&s)
	switch how {
	case 0:
		for _, k := range el {
			p.Insert(k)
		}
	case 1:
		for i := len(el) - 1; i >= 0; i-- {
			p.Insert(el[i])
			p.Insert(el[i])
		}
	case 2: // with passing guests between the elements and beyond both ends
		p.Insert(-1000000)
		for _, k := range el {
			p.Insert(k)
			p.Insert(k + 5000)
		}
		for i := range el {
			j := (i*7 + 3) % len(el)
			p.Remove(el[j] + 5000)
		}
		for _, k := range el {
			p.Remove(k + 5000)
		}
		p.Remove(-1000000)
	case 3: // re-used after Clear
		p.Insert(3)
		p.Insert(4)
		p.Clear()
		for i := range el {
			if i%2 == 0 {
				p.Insert(el[i])
			}
		}
		for i := range el {
			if i%2 == 1 {
				p.Insert(el[i])
			}
		}
	}
	return s
}

const hows = 4

func holds[S any, P Set[S]](o *ops[S], s *S, want []K) string {
	got, msg := o.list(s)
	if msg != "" {
		return msg
	}
	if !o.ordered {
		got = ref.Copy(got)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	}
	if !ref.Same(got, want) {
		return fmt.Sprintf("elements %v, want %v", got, want)
	}
	if o.length(s) != gost.USize(len(want)) {
		return fmt.Sprintf("length %d, want %d", o.length(s), len(want))
	}
	for _, k := range want {
		if !P(s).Contains(k) {
			return fmt.Sprintf("Contains(%d) = false, want elements %v", k, want)
		}
	}
	return ""
}

type sets struct{ union, inter, sym []K }

func merge(a, b []K) (r sets, sub, sup bool) {
	in := map[K]int{}
	for _, k := range a {
		in[k] |= 1
	}
	for _, k := range b {
		in[k] |= 2
	}
	sub, sup = true, true
	for k, w := range in {
		r.union = append(r.union, k)
		switch w {
		case 3:
			r.inter = append(r.inter, k)
		case 1:
			r.sym = append(r.sym, k)
			sub = false
		case 2:
			r.sym = append(r.sym, k)
			sup = false
		}
	}
	for _, x := range [][]K{r.union, r.inter, r.sym} {
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	}
	return
}

// pair checks every operation on the pair; self: the very same set twice.
func pair[S any, P Set[S]](w *core.W, o *ops[S], a, b []K, ha, hb int, self, independence bool) string {
	mk := func() (S, S) {
		x := build[S, P](o, a, ha)
		if self {
			return x, x
		}
		return x, build[S, P](o, b, hb)
	}
	want, sub, sup := merge(a, b)
	x, y := mk()
	check := func(what string, got gost.Bool, exp bool) string {
		w.T++
		if bool(got) != exp {
			return fmt.Sprintf("%s = %v, want %v", what, got, exp)
		}
		return ""
	}
	for _, q := range []struct {
		what string
		got  gost.Bool
		exp  bool
	}{
		{"IsSubset", o.subset(x, y), sub}, {"IsSuperset", o.superset(x, y), sup},
		{"IsDisjoint", o.disjoint(x, y), len(want.inter) == 0}, {"Eq", o.eq(x, y), sub && sup},
	} {
		if msg := check(q.what, q.got, q.exp); msg != "" {
			return msg
		}
	}
	for _, r := range []struct {
		what string
		f    func(a, b S) S
		want []K
	}{{"Union", o.union, want.union}, {"Intersection", o.inter, want.inter}, {"SymmetricDifference", o.sym, want.sym}} {
		w.T++
		got := r.f(x, y)
		if msg := holds[S, P](o, &got, r.want); msg != "" {
			return r.what + ": " + msg
		}
		if msg := holds[S, P](o, &x, a); msg != "" {
			return "after " + r.what + " the first operand has " + msg
		}
		if msg := holds[S, P](o, &y, b); msg != "" {
			return "after " + r.what + " the second operand has " + msg
		}
		if !independence {
			continue
		}
		// change the result: operands stay; change operands: result stays
		x2, y2 := mk()
		res := r.f(x2, y2)
		for _, k := range r.want {
			P(&res).Remove(k)
		}
		for k := K(100); k < 103; k++ {
			P(&res).Insert(k)
		}
		if msg := holds[S, P](o, &x2, a); msg != "" {
			return "changing the result of " + r.what + " changed the first operand: " + msg
		}
		if msg := holds[S, P](o, &y2, b); msg != "" {
			return "changing the result of " + r.what + " changed the second operand: " + msg
		}
		x2, y2 = mk()
		res = r.f(x2, y2)
		for i, p := range []P{&x2, &y2} {
			if i == 1 && self {
				break
			}
			for k := K(100); k < 103; k++ {
				p.Insert(k)
			}
			for _, k := range [][]K{a, b}[i] {
				p.Remove(k)
			}
		}
		if msg := holds[S, P](o, &res, r.want); msg != "" {
			return "changing the operands changed the result of " + r.what + ": " + msg
		}
		P(&x2).Clear()
		P(&y2).Clear()
		if msg := holds[S, P](o, &res, r.want); msg != "" {
			return "clearing the operands changed the result of " + r.what + ": " + msg
		}
	}
	return ""
}

func subset(mask, n int) (r []K) {
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			r = append(r, K(i))
		}
	}
	return
}

// families are index sets of about n elements, the shapes of larger sets.
func families(n int) (out [][]K) {
	seq := func(from, count, step int) {
		var r []K
		for i := 0; i < count; i++ {
			r = append(r, K(from+i*step))
		}
		out = append(out, r)
	}
	seq(0, 0, 1)
	seq(0, n, 1)
	seq(0, n-1, 1)
	seq(1, n-1, 1)
	seq(n, n, 1)
	seq(n-1, n, 1)
	seq(n/2, n, 1)
	seq(0, n/2, 2)
	seq(1, n/2, 2)
	seq(0, n/3+1, 3)
	seq(n/2, 1, 1)
	seq(-n, 3*n, 1)
	return
}

func run[S any, P Set[S]](c *core.C, o *ops[S]) {
	n := 7
	if c.Thorough {
		n = 8
	}
	c.Part(o.name+":universe", fmt.Sprintf("every pair of subsets of %d elements in %d construction histories each, with independence, and every set with itself", n, hows), func() {
		total := 1 << n
		c.Par(total, func(w *core.W, ma int) {
			a := subset(ma, n)
			for mb := 0; mb < total; mb++ {
				b := subset(mb, n)
				for h := 0; h < hows*hows; h++ {
					if h > 0 && n > 7 && (ma+mb)%16 != h {
						continue
					}
					ha, hb := h/hows, h%hows
					name := func() string { return fmt.Sprintf("%s %v (history %d), %v (history %d)", o.name, a, ha, b, hb) }
					w.Begin(name)
					w.S++
					w.V++
					if msg := pair[S, P](w, o, a, b, ha, hb, false, true); msg != "" {
						c.Fail(name(), "%s: %s", name(), msg)
						return
					}
					if ma == 5 && mb < 3 {
						c.Sample("%s", name())
					}
				}
			}
			for h := 0; h < hows; h++ {
				name := func() string { return fmt.Sprintf("%s %v (history %d) with itself", o.name, a, h) }
				w.Begin(name)
				w.S++
				w.V++
				if msg := pair[S, P](w, o, a, a, h, h, true, true); msg != "" {
					c.Fail(name(), "%s: %s", name(), msg)
					return
				}
			}
		})
	})
	maxLen := 90
	step := 1
	if c.Thorough {
		maxLen = 200
	}
	c.Part(o.name+":large", fmt.Sprintf("every pair of 12 families (ranges, strides, shifted, nested) for every size to %d and around powers of two to 1025", maxLen), func() {
		more := []int{1025, 1024, 1023, 513, 512, 511, 257, 256, 255, 129, 128, 127}
		c.Par(maxLen/step+len(more), func(w *core.W, i int) {
			size := maxLen - (i-len(more))*step
			if i < len(more) {
				size = more[i]
			}
			fs := families(size)
			for i, a := range fs {
				for j, b := range fs {
					ha, hb := (i+j)%hows, (i+2*j+1)%hows
					name := func() string { return fmt.Sprintf("%s families %d and %d of size %d", o.name, i, j, size) }
					w.Begin(name)
					w.S++
					w.V++
					if msg := pair[S, P](w, o, a, b, ha, hb, false, true); msg != "" {
						c.Fail(name(), "%s: %s", name(), msg)
						return
					}
				}
			}
		})
	})
}

func main() {
	core.Main("C16", func(c *core.C) {
		c.Assume("elements have a lawful order and equality")
		run[gost.BTreeSet[K], *gost.BTreeSet[K]](c, &bt)
		run[gost.HashSet[K], *gost.HashSet[K]](c, &hs)
	})
}
