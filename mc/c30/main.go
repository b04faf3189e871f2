// C30: floating-point operations match IEEE-754 semantics.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

func same64(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func same32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}

// --- exact unary functions, from the bits ---

func trunc64(x float64) float64 {
	b := math.Float64bits(x)
	e := int(b>>52&0x7FF) - 1023
	switch {
	case e >= 52:
		return x
	case e < 0:
		return math.Float64frombits(b & (1 << 63))
	}
	return math.Float64frombits(b &^ (1<<(52-uint(e)) - 1))
}

type exact struct{ floor, ceil, trunc, round, abs, frac float64 }

// exactly gives the exact results (all are representable in both formats).
func exactly(x float64) (r exact) {
	b := math.Float64bits(x)
	r.abs = math.Float64frombits(b &^ (1 << 63))
	t := trunc64(x)
	r.trunc, r.floor, r.ceil, r.round = t, t, t, t
	switch {
	case x != x:
		r.frac = x
		return
	case t == x:
		if r.abs > math.MaxFloat64 {
			r.frac = math.NaN()
		} else {
			r.frac = 0
		}
		return
	}
	d := x - t // exact
	r.frac = d
	neg := b>>63 == 1
	if neg {
		r.floor = t - 1
		if d <= -0.5 {
			r.round = t - 1
		}
	} else {
		r.ceil = t + 1
		if d >= 0.5 {
			r.round = t + 1
		}
	}
	return
}

// sqrtOK32 decides exactly whether r is the correctly rounded root of x > 0.
func sqrtOK32(x, r float32) bool {
	if !(r > 0) || math.IsInf(float64(r), 0) {
		return false
	}
	lo := (float64(r) + float64(math.Nextafter32(r, 0))) / 2
	hi := (float64(r) + float64(math.Nextafter32(r, math.MaxFloat32))) / 2
	return lo*lo <= float64(x) && float64(x) <= hi*hi // all exact in double
}

func sqrtOK64(x, r float64) bool {
	if !(r > 0) || math.IsInf(r, 0) {
		return false
	}
	mid := func(a, b float64) *big.Float {
		m := new(big.Float).SetPrec(200).Add(bf(a), bf(b))
		m.SetMantExp(m, -1)
		return new(big.Float).SetPrec(400).Mul(m, m)
	}
	X := bf(x)
	return mid(r, math.Nextafter(r, 0)).Cmp(X) <= 0 && X.Cmp(mid(r, math.Nextafter(r, math.Inf(1)))) <= 0
}

func unary32(c *core.C, w *core.W, bits uint32) bool {
	v := math.Float32frombits(bits)
	x := gost.F32(v)
	w.S++
	w.T += 7
	r := exactly(float64(v))
	bad := func(f string, got gost.F32, want any) bool {
		c.Fail(fmt.Sprintf("F32(%#08x).%s", bits, f), "F32(%g, bits %#08x).%s() = %g, want %v", v, bits, f, float32(got), want)
		return false
	}
	if g := x.Floor(); !same32(float32(g), float32(r.floor)) {
		return bad("Floor", g, r.floor)
	}
	if g := x.Ceil(); !same32(float32(g), float32(r.ceil)) {
		return bad("Ceil", g, r.ceil)
	}
	if g := x.Trunc(); !same32(float32(g), float32(r.trunc)) {
		return bad("Trunc", g, r.trunc)
	}
	if g := x.Round(); !same32(float32(g), float32(r.round)) {
		return bad("Round", g, r.round)
	}
	if g := x.Abs(); !same32(float32(g), float32(r.abs)) {
		return bad("Abs", g, r.abs)
	}
	if g := x.Frac(); float32(g) != float32(r.frac) && !(g != g && r.frac != r.frac) {
		return bad("Frac", g, r.frac)
	}
	g := float32(x.Sqrt())
	switch {
	case v == 0 || v != v || v > math.MaxFloat32:
		if !same32(g, v) {
			return bad("Sqrt", gost.F32(g), v)
		}
	case v < 0:
		if g == g {
			return bad("Sqrt", gost.F32(g), "NaN")
		}
	case !sqrtOK32(v, g):
		return bad("Sqrt", gost.F32(g), "the nearest value")
	}
	return true
}

func unary64(c *core.C, w *core.W, v float64) bool {
	x := gost.F64(v)
	w.S++
	w.T += 7
	w.V++
	w.Begin(func() string { return fmt.Sprintf("F64(%g)", v) })
	r := exactly(v)
	bad := func(f string, got gost.F64, want any) bool {
		c.Fail(fmt.Sprintf("F64(%#x).%s", math.Float64bits(v), f), "F64(%g, bits %#x).%s() = %g, want %v", v, math.Float64bits(v), f, float64(got), want)
		return false
	}
	if g := x.Floor(); !same64(float64(g), r.floor) {
		return bad("Floor", g, r.floor)
	}
	if g := x.Ceil(); !same64(float64(g), r.ceil) {
		return bad("Ceil", g, r.ceil)
	}
	if g := x.Trunc(); !same64(float64(g), r.trunc) {
		return bad("Trunc", g, r.trunc)
	}
	if g := x.Round(); !same64(float64(g), r.round) {
		return bad("Round", g, r.round)
	}
	if g := x.Abs(); !same64(float64(g), r.abs) {
		return bad("Abs", g, r.abs)
	}
	if g := x.Frac(); float64(g) != r.frac && !(g != g && r.frac != r.frac) {
		return bad("Frac", g, r.frac)
	}
	g := float64(x.Sqrt())
	switch {
	case v == 0 || v != v || v > math.MaxFloat64:
		if !same64(g, v) {
			return bad("Sqrt", gost.F64(g), v)
		}
	case v < 0:
		if g == g {
			return bad("Sqrt", gost.F64(g), "NaN")
		}
	case !sqrtOK64(v, g):
		return bad("Sqrt", gost.F64(g), "the nearest value")
	}
	return true
}

// --- alphabets ---

func alpha64(rich bool) []float64 {
	seen := map[uint64]bool{}
	var out []float64
	one := func(x float64) {
		b := math.Float64bits(x)
		if x != x {
			b = 0x7FF8000000000000
		}
		if !seen[b] {
			seen[b] = true
			out = append(out, x)
		}
	}
	add := func(x float64) {
		for _, s := range []float64{x, -x} {
			one(s)
			one(math.Nextafter(s, math.Inf(1)))
			one(math.Nextafter(s, math.Inf(-1)))
		}
	}
	one(math.NaN())
	for _, x := range []float64{0, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Float64frombits(0x000FFFFFFFFFFFFF), 0x1p-1022, math.MaxFloat32, math.SmallestNonzeroFloat32,
		1, 1.5, 2, 2.5, 3, 3.5, 0.5, 0.25, 0.75, 0.1, 1.0 / 3, 10, 100, 1000, math.E, math.Pi, math.Ln2, math.Sqrt2, 0.49999999999999994, 4503599627370495.5, 4503599627370497.5, 1e15, 1e16, 1e17, 1e300, 1e-300, 709.78, 709.79, 745.13, 745.14, 1023, 1024, 1074, 1075, 88.72, 88.73, 103.97, 127, 128, 149, 150} {
		add(x)
	}
	step := 31
	if rich {
		step = 3
	}
	for e := -1074; e <= 1023; e += step {
		add(math.Ldexp(1, e))
		if rich {
			add(math.Ldexp(1.7320508, e))
		}
	}
	for e := 48; e <= 66; e++ {
		x := math.Ldexp(1, e)
		add(x)
		if rich || e == 52 {
			one(x + 0.5)
			one(x + 1)
			one(x - 0.5)
			one(x - 1)
			one(x - 1.5)
			one(-x + 0.5)
			one(-x - 0.5)
		}
	}
	if rich {
		for i := 0; i <= 64; i++ {
			add(float64(i))
			add(float64(i) + 0.5)
			add(float64(i) / 16)
		}
		for k := -300; k <= 300; k += 7 {
			one(math.Pow(10, float64(k)))
			one(-math.Pow(10, float64(k)))
		}
		for e := -1022; e <= 1023; e += 5 {
			for _, m := range []uint64{0x5555555555555, 0xAAAAAAAAAAAAA, 0x123456789ABCD, 0xFFFFFFFFFFFFF, 0x0000000000F0F, 0x8000000000001} {
				one(math.Float64frombits(uint64(e+1023)<<52 | m))
			}
		}
		for e := -60; e < 0; e++ { // near one
			one(1 + math.Ldexp(1, e))
			one(1 - math.Ldexp(1, e))
		}
		for x := -760.0; x <= 720; x += 3.7 {
			one(x)
		}
	}
	return out
}

func alpha32(rich bool) (out []float32) {
	seen := map[uint32]bool{}
	add := func(x float32) {
		b := math.Float32bits(x)
		if x != x {
			b = 0x7FC00000
		}
		if !seen[b] {
			seen[b] = true
			out = append(out, x)
		}
	}
	for _, x := range alpha64(rich) {
		f := float32(x)
		add(f)
		if rich && f == f {
			add(math.Nextafter32(f, float32(math.Inf(1))))
			add(math.Nextafter32(f, float32(math.Inf(-1))))
		}
	}
	return
}

// --- functions of limited accuracy ---

// spec is a specified value: a special float, or a number to approximate.
type spec struct {
	special bool
	v       float64
	b       *big.Float
	n       float64 // allowed ulps
	extra   float64 // allowed absolutely
}

func sp(v float64) spec { return spec{special: true, v: v} }

func fnExp(x float64, base2 bool) spec {
	switch {
	case x != x:
		return sp(x)
	case math.IsInf(x, 1):
		return sp(math.Inf(1))
	case math.IsInf(x, -1):
		return sp(0)
	}
	e := bf(x)
	if base2 {
		e.Mul(e, ln2)
	}
	r, s := expBig(e)
	switch s {
	case 1:
		return sp(math.Inf(1))
	case -1:
		return sp(0)
	}
	return spec{b: r, n: 4}
}

func lnSpecial(x float64) (spec, bool) {
	switch {
	case x != x || x < 0:
		return sp(math.NaN()), true
	case x == 0:
		return sp(math.Inf(-1)), true
	case math.IsInf(x, 1):
		return sp(x), true
	}
	return spec{}, false
}

func fnLn(x float64, div *big.Float, extra float64) spec {
	if s, ok := lnSpecial(x); ok {
		return s
	}
	r := lnBig(bf(x))
	if div != nil {
		r.Quo(r, div)
	}
	return spec{b: r, n: 4, extra: extra}
}

// fnPow follows C99 Annex F for the special values.
func fnPow(x, y float64, ulpPerExp float64) spec {
	inf := math.Inf(1)
	yInt := y == trunc64(y) && !math.IsInf(y, 0)
	yOdd := yInt && math.Abs(y) < 1<<53 && int64(y)&1 != 0
	neg := math.Signbit(x)
	switch {
	case y == 0 || x == 1:
		return sp(1)
	case x != x || y != y:
		return sp(math.NaN())
	case x == 0:
		r := 0.0
		if y < 0 {
			r = inf
		}
		if neg && yOdd {
			r = -r
			if r == 0 {
				r = math.Copysign(0, -1)
			}
		}
		return sp(r)
	case math.IsInf(y, 0):
		a := math.Abs(x)
		switch {
		case a == 1:
			return sp(1)
		case (a < 1) == (y > 0):
			return sp(0)
		}
		return sp(inf)
	case math.IsInf(x, 0):
		r := inf
		if y < 0 {
			r = 0
		}
		if neg && yOdd {
			return sp(math.Copysign(r, -1))
		}
		return sp(r)
	case x < 0 && !yInt:
		return sp(math.NaN())
	}
	l := lnBig(bf(math.Abs(x)))
	l.Mul(l, bf(y))
	r, s := expBig(l)
	if s != 0 {
		v := 0.0
		if s > 0 {
			v = inf
		}
		if neg && yOdd {
			v = math.Copysign(v, -1)
		}
		return sp(v)
	}
	if neg && yOdd {
		r.Neg(r)
	}
	return spec{b: r, n: 8 + ulpPerExp*math.Abs(y) + 2*math.Abs(y-trunc64(y))*math.Abs(math.Log2(math.Abs(x)))}
}

func fnLog(x, base float64, extra float64) (spec, bool) {
	if !(base > 0) || base == 1 || math.IsInf(base, 0) || !(x > 0) || math.IsInf(x, 0) {
		return spec{}, false
	}
	q := nw().Quo(lnBig(bf(x)), lnBig(bf(base)))
	return spec{b: q, n: 6, extra: extra}, true
}

func (f format) check(c *core.C, w *core.W, what func() string, got float64, s spec) bool {
	w.T++
	ok := false
	switch {
	case s.special && s.v != s.v:
		ok = got != got
	case s.special && s.v == 0:
		ok = same64(got, s.v) || !math.Signbit(s.v) && math.Abs(got) <= 4*math.Ldexp(1, f.emin-f.p+1)
	case s.special:
		ok = got == s.v
	default:
		ok = f.close(got, s.b, s.n, s.extra)
	}
	if !ok {
		want := ""
		if s.special {
			want = fmt.Sprint(s.v)
		} else {
			want = s.b.Text('g', 22) + fmt.Sprintf(" (to %g ulp)", s.n)
		}
		c.Fail(what(), "%s = %.17g, want %s", what(), got, want)
	}
	return ok
}

func main() {
	core.Main("C30", func(c *core.C) {
		c.Assume("Exp, Exp2, Ln, Log to 4 ulp, Log2, Log10, Log to 6 ulp plus 4*2^-p absolutely (cancellation near 1), powers to 8 ulp plus 1 ulp per unit of the exponent (error of repeated multiplication) plus 2 log2|x| ulp times the exponent's fraction (error of the logarithm); the sign of a zero Frac and logarithms with bases <= 0, 1 and infinity are unspecified")
		ln10 := lnBig(bf(10))
		r64, r32 := alpha64(true), alpha32(true)
		s64, s32 := alpha64(false), alpha32(false)

		if c.Thorough {
			c.Part("F32 exact, all values", "all 2^32 F32 values: Floor, Ceil, Trunc, Round, Abs, Frac, Sqrt", func() {
				c.Par(1<<14, func(w *core.W, i int) {
					w.Begin(func() string { return fmt.Sprintf("F32 bits %#x...", i<<18) })
					for b := uint64(i) << 18; b < uint64(i+1)<<18; b++ {
						if !unary32(c, w, uint32(b)) {
							return
						}
					}
					w.V += 1 << 18
				})
			})
		} else {
			c.Part("F32 exact", "all signs, exponents and leading 13 mantissa bits with eight patterns of the rest: Floor, Ceil, Trunc, Round, Abs, Frac, Sqrt", func() {
				c.Par(1<<12, func(w *core.W, i int) {
					w.Begin(func() string { return fmt.Sprintf("F32 bits %#x...", i<<20) })
					for k := uint32(0); k < 1<<10; k++ {
						for _, low := range []uint32{0, 1, 2, 0x155, 0x200, 0x2AA, 0x3FE, 0x3FF} {
							if !unary32(c, w, uint32(i)<<20|k<<10|low) {
								return
							}
						}
					}
					w.V += 1 << 13
				})
			})
		}
		c.Part("F64 exact", fmt.Sprintf("%d boundary values, and every exponent with 64 leading and trailing bit patterns: Floor, Ceil, Trunc, Round, Abs, Frac, Sqrt", len(r64)), func() {
			c.Par(len(r64), func(w *core.W, i int) { unary64(c, w, r64[i]) })
			c.Par(4096, func(w *core.W, i int) {
				for k := 0; k < 52; k++ {
					for _, m := range []uint64{1 << uint(k), 1<<uint(k) - 1, (1<<52 - 1) &^ (1<<uint(k) - 1), 1<<uint(k) | 1, 0x5555555555555 & (1<<52 - 1<<uint(k))} {
						if !unary64(c, w, math.Float64frombits(uint64(i)<<52|m&(1<<52-1))) {
							return
						}
					}
				}
			})
		})
		c.Part("F64 elementary functions", fmt.Sprintf("Exp, Exp2, Ln, Log2, Log10 on %d values", len(r64)), func() {
			c.Par(len(r64), func(w *core.W, i int) {
				v := r64[i]
				x := gost.F64(v)
				w.S++
				w.V++
				w.Begin(func() string { return fmt.Sprintf("F64(%g)", v) })
				n := func(f string) func() string {
					return func() string { return fmt.Sprintf("F64(%.17g).%s()", v, f) }
				}
				const eps = 0x1p-51
				_ = f64.check(c, w, n("Exp"), float64(x.Exp()), fnExp(v, false)) &&
					f64.check(c, w, n("Exp2"), float64(x.Exp2()), fnExp(v, true)) &&
					f64.check(c, w, n("Ln"), float64(x.Ln()), fnLn(v, nil, 0)) &&
					f64.check(c, w, n("Log2"), float64(x.Log2()), fnLn(v, ln2, eps)) &&
					f64.check(c, w, n("Log10"), float64(x.Log10()), fnLn(v, ln10, eps))
				if v > 5 && v < 700 && c.WantSample() {
					c.Sample("F64(%g): Exp %g Ln %g Log2 %g", v, float64(x.Exp()), float64(x.Ln()), float64(x.Log2()))
				}
			})
		})
		c.Part("F32 elementary functions", fmt.Sprintf("Exp, Exp2, Ln, Log2, Log10 on %d values", len(r32)), func() {
			c.Par(len(r32), func(w *core.W, i int) {
				v := float64(r32[i])
				x := gost.F32(r32[i])
				w.S++
				w.V++
				w.Begin(func() string { return fmt.Sprintf("F32(%g)", v) })
				n := func(f string) func() string {
					return func() string { return fmt.Sprintf("F32(%.9g).%s()", v, f) }
				}
				const eps = 0x1p-22
				_ = f32.check(c, w, n("Exp"), float64(x.Exp()), fnExp(v, false)) &&
					f32.check(c, w, n("Exp2"), float64(x.Exp2()), fnExp(v, true)) &&
					f32.check(c, w, n("Ln"), float64(x.Ln()), fnLn(v, nil, 0)) &&
					f32.check(c, w, n("Log2"), float64(x.Log2()), fnLn(v, ln2, eps)) &&
					f32.check(c, w, n("Log10"), float64(x.Log10()), fnLn(v, ln10, eps))
			})
		})
		c.Part("powers of two and ten", "exact powers: Exp2 of every integer, Log2 of every power of two, Powi of 2 and 10", func() {
			c.Solo(func(w *core.W) {
				for k := -1074; k <= 1023; k++ {
					w.S++
					w.V++
					w.T += 3
					p := math.Ldexp(1, k)
					if g := float64(gost.F64(p).Log2()); math.Abs(g-float64(k)) > 1e-12 {
						c.Fail(fmt.Sprintf("Log2 2^%d", k), "F64(2^%d).Log2() = %g", k, g)
					}
					if g := float64(gost.F64(k).Exp2()); g != p {
						c.Fail(fmt.Sprintf("Exp2 %d", k), "F64(%d).Exp2() = %g", k, g)
					}
					if g := float64(gost.F64(2).Powi(k)); g != p {
						c.Fail(fmt.Sprintf("2 Powi %d", k), "F64(2).Powi(%d) = %g", k, g)
					}
					if k >= -149 && k <= 127 {
						if g := float64(gost.F32(2).Powi(k)); g != p {
							c.Fail(fmt.Sprintf("F32 2 Powi %d", k), "F32(2).Powi(%d) = %g", k, g)
						}
					}
				}
			})
		})
		ps, ys := s64, []float64{}
		for _, y := range s64 {
			ys = append(ys, y)
		}
		for _, y := range []float64{4, 5, 7, 8, 31, 1001, 53, 1e3, 1 << 52, 1 << 53, 0.3, 2.0 / 3} {
			ys = append(ys, y, -y)
		}
		c.Part("F64 powers", fmt.Sprintf("Powf and Log on every pair of %d x %d values, Powi with %d exponents", len(ps), len(ys), 200), func() {
			c.Par(len(ps), func(w *core.W, i int) {
				v := ps[i]
				x := gost.F64(v)
				for _, y := range ys {
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("F64(%g).Powf(%g)", v, y) })
					if !f64.check(c, w, func() string { return fmt.Sprintf("F64(%.17g).Powf(%.17g)", v, y) }, float64(x.Powf(gost.F64(y))), fnPow(v, y, 1)) {
						return
					}
					if s, ok := fnLog(v, y, 0x1p-51); ok {
						if !f64.check(c, w, func() string { return fmt.Sprintf("F64(%.17g).Log(%.17g)", v, y) }, float64(x.Log(gost.F64(y))), s) {
							return
						}
					}
				}
				for _, n := range exps() {
					w.S++
					w.V++
					if !f64.check(c, w, func() string { return fmt.Sprintf("F64(%.17g).Powi(%d)", v, n) }, float64(x.Powi(n)), fnPow(v, float64(n), 1)) {
						return
					}
				}
			})
		})
		c.Part("F32 powers", fmt.Sprintf("Powf and Log on every pair of %d values, Powi", len(s32)), func() {
			c.Par(len(s32), func(w *core.W, i int) {
				v := s32[i]
				x := gost.F32(v)
				for _, y := range s32 {
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("F32(%g).Powf(%g)", v, y) })
					if !f32.check(c, w, func() string { return fmt.Sprintf("F32(%.9g).Powf(%.9g)", v, y) }, float64(x.Powf(gost.F32(y))), fnPow(float64(v), float64(y), 1)) {
						return
					}
					if s, ok := fnLog(float64(v), float64(y), 0x1p-22); ok {
						if !f32.check(c, w, func() string { return fmt.Sprintf("F32(%.9g).Log(%.9g)", v, y) }, float64(x.Log(gost.F32(y))), s) {
							return
						}
					}
				}
				for _, n := range exps() {
					w.S++
					w.V++
					if !f32.check(c, w, func() string { return fmt.Sprintf("F32(%.9g).Powi(%d)", v, n) }, float64(x.Powi(n)), fnPow(float64(v), float64(n), 1)) {
						return
					}
				}
			})
		})
		c.Part("arithmetic", fmt.Sprintf("Add, Sub, Mul, Div and their Assign forms on every pair of %d F64 and %d F32 values", len(s64), len(s32)), func() {
			c.Par(len(s64), func(w *core.W, i int) {
				a := s64[i]
				for _, b := range s64 {
					w.S++
					w.V++
					w.T += 8
					x, y := gost.F64(a), gost.F64(b)
					as := func(f func(*gost.F64, gost.F64)) float64 { z := x; f(&z, y); return float64(z) }
					for k, g := range []float64{float64(x.Add(y)), as((*gost.F64).AddAssign), float64(x.Sub(y)), as((*gost.F64).SubAssign), float64(x.Mul(y)), as((*gost.F64).MulAssign), float64(x.Div(y)), as((*gost.F64).DivAssign)} {
						want := []float64{a + b, a - b, a * b, a / b}[k/2]
						if !same64(g, want) || !same64(float64(x), a) {
							op := []string{"Add", "AddAssign", "Sub", "SubAssign", "Mul", "MulAssign", "Div", "DivAssign"}[k]
							c.Fail(fmt.Sprintf("F64(%g).%s(%g)", a, op, b), "F64(%.17g).%s(%.17g) = %.17g, want %.17g", a, op, b, g, want)
							return
						}
					}
				}
			})
			c.Par(len(s32), func(w *core.W, i int) {
				a := s32[i]
				for _, b := range s32 {
					w.S++
					w.V++
					w.T += 8
					x, y := gost.F32(a), gost.F32(b)
					A, B := float64(a), float64(b)
					as := func(f func(*gost.F32, gost.F32)) float32 { z := x; f(&z, y); return float32(z) }
					for k, g := range []float32{float32(x.Add(y)), as((*gost.F32).AddAssign), float32(x.Sub(y)), as((*gost.F32).SubAssign), float32(x.Mul(y)), as((*gost.F32).MulAssign), float32(x.Div(y)), as((*gost.F32).DivAssign)} {
						want := float32([]float64{A + B, A - B, A * B, A / B}[k/2])
						if !same32(g, want) {
							op := []string{"Add", "AddAssign", "Sub", "SubAssign", "Mul", "MulAssign", "Div", "DivAssign"}[k]
							c.Fail(fmt.Sprintf("F32(%g).%s(%g)", a, op, b), "F32(%.9g).%s(%.9g) = %.9g, want %.9g", a, op, b, g, want)
							return
						}
					}
				}
			})
		})
		var cs []complex128
		parts := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -2.5, 3, 1e10, -1e-10, 1e30, 1.0 / 3}
		for _, re := range parts {
			for _, im := range parts {
				cs = append(cs, complex(re, im))
			}
		}
		c.Part("complex arithmetic", fmt.Sprintf("Add, Sub, Mul, Div and their Assign forms on every pair of %d Complex64 and Complex128 values", len(cs)), func() {
			c.Par(len(cs), func(w *core.W, i int) {
				for _, b := range cs {
					a := cs[i]
					w.S += 2
					w.V += 2
					w.T += 16
					x, y := gost.Complex128(a), gost.Complex128(b)
					as := func(f func(*gost.Complex128, gost.Complex128)) complex128 {
						z := x
						f(&z, y)
						return complex128(z)
					}
					ops := []string{"Add", "AddAssign", "Sub", "SubAssign", "Mul", "MulAssign", "Div", "DivAssign"}
					for k, g := range []complex128{complex128(x.Add(y)), as((*gost.Complex128).AddAssign), complex128(x.Sub(y)), as((*gost.Complex128).SubAssign), complex128(x.Mul(y)), as((*gost.Complex128).MulAssign), complex128(x.Div(y)), as((*gost.Complex128).DivAssign)} {
						want := []complex128{a + b, a - b, a * b, a / b}[k/2]
						if !near(g, want, 1e-15) {
							c.Fail(fmt.Sprintf("Complex128 %v %s %v", a, ops[k], b), "Complex128 %v %s %v = %v, want %v", a, ops[k], b, g, want)
							return
						}
					}
					a4, b4 := complex64(a), complex64(b)
					p, q := gost.Complex64(a4), gost.Complex64(b4)
					as4 := func(f func(*gost.Complex64, gost.Complex64)) complex64 { z := p; f(&z, q); return complex64(z) }
					for k, g := range []complex64{complex64(p.Add(q)), as4((*gost.Complex64).AddAssign), complex64(p.Sub(q)), as4((*gost.Complex64).SubAssign), complex64(p.Mul(q)), as4((*gost.Complex64).MulAssign), complex64(p.Div(q)), as4((*gost.Complex64).DivAssign)} {
						want := []complex64{a4 + b4, a4 - b4, a4 * b4, a4 / b4}[k/2]
						if !near(complex128(g), complex128(want), 1e-6) {
							c.Fail(fmt.Sprintf("Complex64 %v %s %v", a4, ops[k], b4), "Complex64 %v %s %v = %v, want %v", a4, ops[k], b4, g, want)
							return
						}
					}
				}
			})
		})
		if c.Thorough {
			c.Part("F32 elementary functions, all values", "all 2^32 F32 values against double precision, to 2 ulp", func() {
				fs := []struct {
					name string
					got  func(gost.F32) gost.F32
					want func(float64) float64
				}{{"Exp", gost.F32.Exp, math.Exp}, {"Exp2", gost.F32.Exp2, math.Exp2}, {"Ln", gost.F32.Ln, math.Log}, {"Log2", gost.F32.Log2, math.Log2}, {"Log10", gost.F32.Log10, math.Log10}}
				c.Par(1<<14, func(w *core.W, i int) {
					w.Begin(func() string { return fmt.Sprintf("F32 bits %#x...", i<<18) })
					for b := uint64(i) << 18; b < uint64(i+1)<<18; b++ {
						v := math.Float32frombits(uint32(b))
						w.S++
						for _, f := range fs {
							w.T++
							g, want := float32(f.got(gost.F32(v))), float32(f.want(float64(v)))
							if !same32(g, want) && !(math.Abs(float64(g)-float64(want)) <= 2.1*float64(ulp32(want))) {
								c.Fail(fmt.Sprintf("F32(%#x).%s", b, f.name), "F32(%.9g).%s() = %.9g, want %.9g", v, f.name, g, want)
								return
							}
						}
					}
					w.V += 1 << 18
				})
			})
		}
	})
}

func ulp32(x float32) float32 {
	a := float32(math.Abs(float64(x)))
	if a > math.MaxFloat32 {
		return 0
	}
	return math.Nextafter32(a, float32(math.Inf(1))) - a
}

func exps() (out []int) {
	for n := -40; n <= 40; n++ {
		out = append(out, n)
	}
	for _, n := range []int{63, 64, 65, 100, 127, 128, 149, 150, 255, 256, 333, 1000, 1023, 1024, 1074, 1075, 4096, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 40} {
		out = append(out, n, -n)
	}
	return
}

// near compares complex results normwise; infinite or undefined components
// only have to be infinite or undefined likewise as a whole.
func near(a, b complex128, tol float64) bool {
	odd := func(c complex128) bool { return cmplx.IsNaN(c) || cmplx.IsInf(c) }
	if odd(a) || odd(b) {
		return odd(a) && odd(b)
	}
	if a == b {
		return true
	}
	return cmplx.Abs(a-b) <= tol*cmplx.Abs(b)
}
