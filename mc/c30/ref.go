package main

import (
	"math"
	"math/big"
)

// Reference functions on big floats, accurate far beyond double precision.

const prec = 192

func bf(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }
func nw() *big.Float          { return new(big.Float).SetPrec(prec) }

var ln2 = func() *big.Float {
	// ln 2 = 2 atanh(1/3)
	return atanh2(nw().Quo(bf(1), bf(3)))
}()

// atanh2 is 2 atanh(z) for small z.
func atanh2(z *big.Float) *big.Float {
	sum := nw().Set(z)
	z2 := nw().Mul(z, z)
	t := nw().Set(z)
	for k := int64(3); ; k += 2 {
		t.Mul(t, z2)
		q := nw().Quo(t, nw().SetInt64(k))
		if q.Sign() == 0 || q.MantExp(nil) < sum.MantExp(nil)-prec {
			break
		}
		sum.Add(sum, q)
	}
	return sum.Mul(sum, bf(2))
}

// lnBig is the natural logarithm of a positive number.
func lnBig(x *big.Float) *big.Float {
	m := nw()
	e := x.MantExp(m)           // m in [0.5, 1)
	if m.Cmp(bf(0.70710)) < 0 { // bring m near 1
		m.Mul(m, bf(2))
		e--
	}
	z := nw().Quo(nw().Sub(m, bf(1)), nw().Add(m, bf(1)))
	r := nw()
	if z.Sign() != 0 {
		r = atanh2(z)
	}
	return r.Add(r, nw().Mul(nw().SetInt64(int64(e)), ln2))
}

// expBig is e^x; ok is false when it is out of any float's range.
func expBig(x *big.Float) (r *big.Float, sign int) {
	f, _ := x.Float64()
	if f > 2000 {
		return nil, 1
	}
	if f < -2000 {
		return nil, -1
	}
	k := math.Round(f / math.Ln2)
	d := nw().Sub(x, nw().Mul(bf(k), ln2))
	const halvings = 8
	if d.Sign() != 0 {
		d.SetMantExp(d, -halvings)
	}
	sum, t := bf(1), bf(1)
	for i := int64(1); i < 40; i++ {
		t.Mul(t, d)
		t.Quo(t, nw().SetInt64(i))
		if t.Sign() == 0 || t.MantExp(nil) < -prec {
			break
		}
		sum.Add(sum, t)
	}
	for i := 0; i < halvings; i++ {
		sum.Mul(sum, sum)
	}
	return sum.SetMantExp(sum, int(k)), 0
}

// A format is F32 or F64: precision, smallest exponent.
type format struct {
	name string
	p    int     // mantissa bits
	emin int     // exponent of the smallest normal
	max  float64 // largest finite
}

var f32 = format{"F32", 24, -126, math.MaxFloat32}
var f64 = format{"F64", 53, -1022, math.MaxFloat64}

// ulp is the distance between neighbours at magnitude |x|.
func (f format) ulp(x *big.Float) *big.Float {
	e := f.emin
	if x.Sign() != 0 {
		if k := x.MantExp(nil) - 1; k > e {
			e = k
		}
	}
	return nw().SetMantExp(bf(1), e-f.p+1)
}

// close tells whether got is within n ulps of want (plus extra absolutely).
func (f format) close(got float64, want *big.Float, n float64, extra float64) bool {
	if math.IsNaN(got) {
		return false
	}
	u := f.ulp(want)
	tol := nw().Mul(u, bf(n))
	tol.Add(tol, bf(extra))
	if math.IsInf(got, 0) {
		// overflow: right when the true value is beyond the largest finite one,
		// or within the tolerance of it
		lim := nw().Sub(bf(f.max), tol)
		a := nw().Abs(want)
		return a.Cmp(lim) >= 0 && (got > 0) == (want.Sign() > 0)
	}
	if nw().Abs(want).Cmp(nw().Add(bf(f.max), tol)) > 0 {
		return false // should have overflowed
	}
	d := nw().Sub(bf(got), want)
	return d.Abs(d).Cmp(tol) <= 0
}
