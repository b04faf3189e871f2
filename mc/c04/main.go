// C04: I128 and U128 behave like fixed-width two's-complement integers.
package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"runtime/debug"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/wide"
)

type word2 struct{ hi, lo uint64 }

func (w word2) add(o word2) word2 {
	lo, c := bits.Add64(w.lo, o.lo, 0)
	hi, _ := bits.Add64(w.hi, o.hi, c)
	return word2{hi, lo}
}
func (w word2) sub(o word2) word2 {
	lo, c := bits.Sub64(w.lo, o.lo, 0)
	hi, _ := bits.Sub64(w.hi, o.hi, c)
	return word2{hi, lo}
}
func (w word2) neg() word2 { return word2{}.sub(w) }
func (w word2) mul(o word2) word2 {
	hi, lo := bits.Mul64(w.lo, o.lo)
	return word2{hi + w.hi*o.lo + w.lo*o.hi, lo}
}
func (w word2) zero() bool { return w.hi|w.lo == 0 }
func (w word2) less(o word2) bool {
	return w.hi < o.hi || w.hi == o.hi && w.lo < o.lo
}
func (w word2) sless(o word2) bool {
	return int64(w.hi) < int64(o.hi) || w.hi == o.hi && w.lo < o.lo
}
func (w word2) big() *big.Int {
	x := new(big.Int).SetUint64(w.hi)
	return x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(w.lo))
}
func (w word2) sbig() *big.Int {
	x := w.big()
	if int64(w.hi) < 0 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	return x
}

// divU divides by shift and subtract: the reference division.
func divU(a, b word2) (q, r word2) {
	n := 128
	for n > 0 {
		// skip leading zeros of a
		if bitAt(a, n-1) != 0 {
			break
		}
		n--
	}
	for i := n - 1; i >= 0; i-- {
		top := r.hi >> 63
		r = word2{r.hi<<1 | r.lo>>63, r.lo<<1 | bitAt(a, i)}
		if top != 0 || !r.less(b) {
			r = r.sub(b)
			if i >= 64 {
				q.hi |= 1 << (i - 64)
			} else {
				q.lo |= 1 << i
			}
		}
	}
	return
}

func bitAt(a word2, i int) uint64 {
	if i >= 64 {
		return a.hi >> (i - 64) & 1
	}
	return a.lo >> i & 1
}

func divS(a, b word2) (q, r word2) {
	na, nb := int64(a.hi) < 0, int64(b.hi) < 0
	if na {
		a = a.neg()
	}
	if nb {
		b = b.neg()
	}
	q, r = divU(a, b)
	if na != nb {
		q = q.neg()
	}
	if na {
		r = r.neg()
	}
	return
}

func (w word2) s() string { return w.sbig().String() }
func (w word2) u() string { return w.big().String() }

// alphabet of words
func words(level int) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	put := func(xs ...uint64) {
		for _, x := range xs {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	put(0, 1, ^uint64(0), 1<<63, 1<<63-1, 2, ^uint64(0)-1, 1<<32, 1<<32-1, 10)
	if level >= 1 {
		put(3, 1<<63+1, 1<<62, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1<<31, 1<<33-1, 7, 10000000000000000000, 0x123456789abcdef, ^uint64(0)-9)
	}
	if level >= 2 {
		for k := 0; k < 64; k += 3 {
			put(1<<k, 1<<k-1, ^uint64(1<<k))
		}
	}
	if level >= 3 {
		for k := 0; k < 64; k++ {
			put(1<<k, 1<<k-1, ^uint64(1<<k), -(uint64(1) << k))
		}
		for p := uint64(1); p < 1e19; p *= 10 {
			put(p, p-1)
		}
	}
	return out
}

func values(level int) []word2 {
	ws := words(level)
	var out []word2
	for _, h := range ws {
		for _, l := range ws {
			out = append(out, word2{h, l})
		}
	}
	if level <= 2 { // all single bits and their neighbours, both signs
		for k := 0; k < 128; k++ {
			b := word2{0, 1 << (k % 64)}
			if k >= 64 {
				b = word2{b.lo, 0}
			}
			one := word2{0, 1}
			for _, v := range []word2{b, b.sub(one), b.add(one), b.neg(), b.neg().add(one)} {
				if level >= 1 || k%8 == 7 || k%8 == 0 {
					out = append(out, v)
				}
			}
		}
		p := word2{0, 1}
		for i := 0; i < 39; i++ {
			out = append(out, p, p.neg())
			p = p.mul(word2{0, 10})
		}
	}
	seen := map[word2]bool{}
	u := out[:0:0]
	for _, v := range out {
		if !seen[v] {
			seen[v] = true
			u = append(u, v)
		}
	}
	return u
}

func gi(w word2) gost.I128 { return wide.I(w.hi, w.lo) }
func gu(w word2) gost.U128 { return wide.U(w.hi, w.lo) }
func fi(x gost.I128) word2 { h, l := wide.IWords(x); return word2{h, l} }
func fu(x gost.U128) word2 { h, l := wide.UWords(x); return word2{h, l} }

// rows runs f on all pairs as x bs(a).
func rows(c *core.C, typ string, as []word2, bs func(a word2) []word2, show func(word2) string, f func(a, b word2) string) {
	c.Par(len(as), func(w *core.W, i int) {
		a := as[i]
		var b word2
		defer func() {
			if r := recover(); r != nil {
				c.Fail(typ+"/panic", "%s: operands %s, %s: unexpected panic: %v\n%s", typ, show(a), show(b), r, debug.Stack())
			}
		}()
		w.Begin(func() string { return typ + ": pairs with " + show(a) })
		known := false
		for _, y := range bs(a) {
			b = y
			w.S++
			w.T++
			w.V++
			if m := f(a, y); m != "" {
				if m == knownRem {
					if !known {
						known = true
						c.Fail(knownRem, "%s: operands %s, %s: Rem with a negative divisor has the sign of the product", typ, show(a), show(y))
					}
					continue
				}
				c.Fail(typ+"/"+m, "%s: operands %s, %s: %s", typ, show(a), show(y), m)
				return
			}
		}
		if c.WantSample() {
			c.Sample("%s operands %s, %s agree", typ, show(a), show(b))
		}
	})
}

const knownRem = "I128.Rem/negative-divisor-sign"

func u(op string, got, want word2) string {
	return fmt.Sprintf("%s gives %s instead of %s", op, got.u(), want.u())
}
func s(op string, got, want word2) string {
	return fmt.Sprintf("%s gives %s instead of %s", op, got.s(), want.s())
}

func cheapU(a, b word2) string {
	x, y := gu(a), gu(b)
	if g, w := fu(x.Add(y)), a.add(b); g != w {
		return u("Add", g, w)
	}
	if g, w := fu(x.Sub(y)), a.sub(b); g != w {
		return u("Sub", g, w)
	}
	z := x
	z.AddAssign(y)
	if g, w := fu(z), a.add(b); g != w {
		return u("AddAssign", g, w)
	}
	z = x
	z.SubAssign(y)
	if g, w := fu(z), a.sub(b); g != w {
		return u("SubAssign", g, w)
	}
	want := gost.OrderingEqual
	if a.less(b) {
		want = gost.OrderingLess
	} else if b.less(a) {
		want = gost.OrderingGreater
	}
	if g := x.Cmp(y); g != want {
		return fmt.Sprintf("Cmp gives %d instead of %d", g, want)
	}
	if g := x.Eq(y); bool(g) != (a == b) {
		return fmt.Sprintf("Eq gives %v", g)
	}
	return ""
}

func cheapI(a, b word2) string {
	x, y := gi(a), gi(b)
	if g, w := fi(x.Add(y)), a.add(b); g != w {
		return s("Add", g, w)
	}
	if g, w := fi(x.Sub(y)), a.sub(b); g != w {
		return s("Sub", g, w)
	}
	z := x
	z.AddAssign(y)
	if g, w := fi(z), a.add(b); g != w {
		return s("AddAssign", g, w)
	}
	z = x
	z.SubAssign(y)
	if g, w := fi(z), a.sub(b); g != w {
		return s("SubAssign", g, w)
	}
	want := gost.OrderingEqual
	if a.sless(b) {
		want = gost.OrderingLess
	} else if b.sless(a) {
		want = gost.OrderingGreater
	}
	if g := x.Cmp(y); g != want {
		return fmt.Sprintf("Cmp gives %d instead of %d", g, want)
	}
	if g := x.Eq(y); bool(g) != (a == b) {
		return fmt.Sprintf("Eq gives %v", g)
	}
	return ""
}

func mulU(a, b word2) string {
	if g, w := fu(gu(a).Mul(gu(b))), a.mul(b); g != w {
		return u("Mul", g, w)
	}
	z := gu(a)
	z.MulAssign(gu(b))
	if g, w := fu(z), a.mul(b); g != w {
		return u("MulAssign", g, w)
	}
	return ""
}

func mulI(a, b word2) string {
	if g, w := fi(gi(a).Mul(gi(b))), a.mul(b); g != w {
		return s("Mul", g, w)
	}
	z := gi(a)
	z.MulAssign(gi(b))
	if g, w := fi(z), a.mul(b); g != w {
		return s("MulAssign", g, w)
	}
	return ""
}

func divUs(a, b word2) string {
	x, y := gu(a), gu(b)
	z := x
	if b.zero() {
		for i, f := range []func(){func() { x.Div(y) }, func() { z.DivAssign(y) }, func() { z = x; z.RemAssign(y) }} {
			if !core.Panics(f) {
				return []string{"Div", "DivAssign", "RemAssign"}[i] + " by zero does not panic"
			}
		}
		return ""
	}
	q, r := divU(a, b)
	if g := fu(x.Div(y)); g != q {
		return u("Div", g, q)
	}
	z = x
	z.DivAssign(y)
	if g := fu(z); g != q {
		return u("DivAssign", g, q)
	}
	z = x
	z.RemAssign(y)
	if g := fu(z); g != r {
		return u("RemAssign", g, r)
	}
	if g := fu(x.Rem(y)); g != r {
		return u("Rem", g, r)
	}
	return ""
}

func divIs(a, b word2) string {
	x, y := gi(a), gi(b)
	z := x
	if b.zero() {
		for i, f := range []func(){func() { x.Div(y) }, func() { x.Rem(y) }, func() { z.DivAssign(y) }, func() { z = x; z.RemAssign(y) }} {
			if !core.Panics(f) {
				return []string{"Div", "Rem", "DivAssign", "RemAssign"}[i] + " by zero does not panic"
			}
		}
		return ""
	}
	q, r := divS(a, b)
	if g := fi(x.Div(y)); g != q {
		return s("Div", g, q)
	}
	z = x
	z.DivAssign(y)
	if g := fi(z); g != q {
		return s("DivAssign", g, q)
	}
	bad := ""
	for i, g := range []word2{fi(x.Rem(y)), func() word2 { z = x; z.RemAssign(y); return fi(z) }()} {
		if g == r {
			continue
		}
		if int64(b.hi) < 0 && !r.zero() && g == r.neg() {
			bad = knownRem
			continue
		}
		return s([]string{"Rem", "RemAssign"}[i], g, r)
	}
	return bad
}

// near are the divisors and factors at which the result meets a limit.
func near(signed bool) func(a word2) []word2 {
	return func(a word2) []word2 {
		one := word2{0, 1}
		out := []word2{a, a.add(one), a.sub(one), a.neg(), a.neg().add(one), a.neg().sub(one), {a.lo, 0}, {0, a.hi}, {0, a.lo}, {a.lo, a.hi}}
		for _, k := range []uint64{2, 3, 7, 10} {
			q, _ := divU(a, word2{0, k})
			out = append(out, q, q.add(one), a.mul(word2{0, k}))
		}
		if !a.zero() {
			for _, t := range []word2{{^uint64(0), ^uint64(0)}, {1<<63 - 1, ^uint64(0)}, {1 << 63, 0}, {0, ^uint64(0)}, {1, 0}} {
				q, _ := divU(t, a)
				out = append(out, q, q.add(one), q.sub(one), q.neg())
				m := a
				if signed && int64(a.hi) < 0 {
					m = a.neg()
				}
				q, _ = divU(t, m)
				out = append(out, q, q.add(one), q.neg(), q.neg().sub(one))
			}
		}
		return out
	}
}

func constant(vs []word2) func(word2) []word2 { return func(word2) []word2 { return vs } }

func unary(c *core.C, vs []word2) {
	c.Par(len(vs), func(w *core.W, i int) {
		a := vs[i]
		w.Begin(func() string { return "128-bit value " + a.u() + " / " + a.s() })
		w.S++
		w.T += 10
		w.V += 10
		fail := func(m string) { c.Fail("unary/"+m, "value %s: %s", a.s(), m) }
		x := gi(a)
		if g := fi(x.Neg()); g != a.neg() {
			fail(s("I128.Neg", g, a.neg()))
		}
		abs := a
		if int64(a.hi) < 0 {
			abs = a.neg()
		}
		if g := fi(x.Abs()); g != abs {
			fail(s("I128.Abs", g, abs))
		}
		if g, w := bool(x.IsPositive()), int64(a.hi) >= 0 && !a.zero(); g != w {
			fail(fmt.Sprintf("I128.IsPositive gives %v", g))
		}
		if g, w := bool(x.IsNegative()), int64(a.hi) < 0; g != w {
			fail(fmt.Sprintf("I128.IsNegative gives %v", g))
		}
		if g := string(x.ToString()); g != a.s() {
			fail("I128.ToString gives " + g)
		}
		if g := string(x.Display()); g != a.s() {
			fail("I128.Display gives " + g)
		}
		y := gu(a)
		if g := string(y.ToString()); g != a.u() {
			c.Fail("unary/U128.ToString", "value %s: U128.ToString gives %s", a.u(), g)
		}
		if g := string(y.Display()); g != a.u() {
			c.Fail("unary/U128.Display", "value %s: U128.Display gives %s", a.u(), g)
		}
		if fi(x) != a || fu(y) != a {
			fail("a method altered its operand")
		}
		if c.WantSample() {
			c.Sample("%s and %s print, negate and compare as expected", a.s(), a.u())
		}
	})
}

func conversions(c *core.C) {
	ws := words(3)
	c.Par(len(ws), func(w *core.W, i int) {
		x := ws[i]
		w.Begin(func() string { return fmt.Sprintf("conversion of %#x", x) })
		w.S++
		w.T += 3
		w.V += 3
		if g := fu(gost.U128_FromU64(gost.U64(x))); g != (word2{0, x}) {
			c.Fail("conv/U128_FromU64", "U128_FromU64(%d) gives %s", x, g.u())
		}
		if g := fi(gost.I128_FromU64(gost.U64(x))); g != (word2{0, x}) {
			c.Fail("conv/I128_FromU64", "I128_FromU64(%d) gives %s", x, g.s())
		}
		want := word2{uint64(int64(x) >> 63), x}
		if g := fi(gost.I128_FromI64(gost.I64(x))); g != want {
			c.Fail("conv/I128_FromI64", "I128_FromI64(%d) gives %s", int64(x), g.s())
		}
		c.Sample("%d converts to 128 bits unchanged", x)
	})
}

// histories applies every sequence of operations to an accumulator: operands
// which are results of the real operations, not values built from words.
func histories(c *core.C, depth int) {
	consts := []word2{{0, 1}, {0, ^uint64(0)}, {^uint64(0), ^uint64(0)}, {1 << 63, 0}, {0, 3}}
	const nops = 5
	base := len(consts) * nops
	total := 1
	for i := 0; i < depth; i++ {
		total *= base
	}
	c.Par(base*base, func(w *core.W, first int) {
		for rest := 0; rest < total/(base*base); rest++ {
			code := rest*base*base + first
			w.Begin(func() string { return fmt.Sprintf("operation history %d", code) })
			x, y := gi(word2{0, 7}), gu(word2{0, 7})
			mi, mu := word2{0, 7}, word2{0, 7}
			desc := "7"
			for k, d := 0, code; k < depth; k++ {
				o := d % base
				d /= base
				v := consts[o/nops]
				w.T += 2
				switch o % nops {
				case 0:
					x.AddAssign(gi(v))
					y.AddAssign(gu(v))
					mi, mu = mi.add(v), mu.add(v)
				case 1:
					x.SubAssign(gi(v))
					y.SubAssign(gu(v))
					mi, mu = mi.sub(v), mu.sub(v)
				case 2:
					x.MulAssign(gi(v))
					y.MulAssign(gu(v))
					mi, mu = mi.mul(v), mu.mul(v)
				case 3:
					x = x.Neg()
					mi = mi.neg()
				case 4:
					x.DivAssign(gi(v))
					y.DivAssign(gu(v))
					mi, _ = divS(mi, v)
					mu, _ = divU(mu, v)
				}
				desc += fmt.Sprintf(" %c %s", "+-*n/"[o%nops], v.s())
				if fi(x) != mi || fu(y) != mu {
					c.Fail("history", "after %s: I128 is %s instead of %s, U128 is %s instead of %s", desc, fi(x).s(), mi.s(), fu(y).u(), mu.u())
					return
				}
			}
			w.S++
			w.V++
		}
		if c.WantSample() {
			c.Sample("history %d of %d operations agrees", first, depth)
		}
	})
}

func main() {
	core.Main("C04", func(c *core.C) {
		c.Assume("the operations depend on the two operand values only", "operand pairs are enumerated over alphabets of high and low words and the partners at which a result meets a limit")
		lc, lm, ld := 2, 1, 0
		if c.Thorough {
			lc, lm, ld = 3, 2, 1
		}
		vc, vm, vd := values(lc), values(lm), values(ld)
		c.Part("conversions from 64 bits", fmt.Sprintf("%d words", len(words(3))), func() { conversions(c) })
		c.Part("unary operations and printing", fmt.Sprintf("%d values", len(vc)), func() { unary(c, vc) })
		su, ss := word2.u, word2.s
		c.Part("Add, Sub, Cmp, Eq on U128", fmt.Sprintf("all pairs of %d values and limit partners", len(vc)), func() {
			rows(c, "U128", vc, constant(vc), su, cheapU)
			rows(c, "U128", vc, near(false), su, cheapU)
		})
		c.Part("Add, Sub, Cmp, Eq on I128", fmt.Sprintf("all pairs of %d values and limit partners", len(vc)), func() {
			rows(c, "I128", vc, constant(vc), ss, cheapI)
			rows(c, "I128", vc, near(true), ss, cheapI)
		})
		c.Part("Mul on U128", fmt.Sprintf("all pairs of %d values and limit partners", len(vm)), func() {
			rows(c, "U128", vm, constant(vm), su, mulU)
			rows(c, "U128", vm, near(false), su, mulU)
		})
		c.Part("Mul on I128", fmt.Sprintf("all pairs of %d values and limit partners", len(vm)), func() {
			rows(c, "I128", vm, constant(vm), ss, mulI)
			rows(c, "I128", vm, near(true), ss, mulI)
		})
		c.Part("Div and Rem on U128", fmt.Sprintf("all pairs of %d values; %d values x limit partners", len(vd), len(vm)), func() {
			rows(c, "U128", vd, constant(vd), su, divUs)
			rows(c, "U128", vm, near(false), su, divUs)
		})
		c.Part("Div and Rem on I128", fmt.Sprintf("all pairs of %d values; %d values x limit partners", len(vd), len(vm)), func() {
			rows(c, "I128", vd, constant(vd), ss, divIs)
			rows(c, "I128", vm, near(true), ss, divIs)
		})
		depth := 4
		c.Part("operation histories", fmt.Sprintf("every sequence of %d of 25 operation/operand choices", depth), func() { histories(c, depth) })
	})
}
