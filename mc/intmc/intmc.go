// Package intmc enumerates operand pairs of the integer types and gives the
// exact mathematical result of the basic operations as a reference.
package intmc

import (
	"fmt"
	"math"
	"math/bits"
	"runtime/debug"
	"sort"
	"unsafe"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// Native is any integer type with a machine representation.
type Native interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// Basic operators (also those of Byte and Char).
type Basic[T any] interface {
	Native
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
}

// Int is the method set shared by the ten integer types.
type Int[T any] interface {
	Basic[T]
	Rem(T) T
	WrappingAdd(T) T
	WrappingSub(T) T
	WrappingMul(T) T
	WrappingDiv(T) T
	CheckedAdd(T) gost.Option[T]
	CheckedSub(T) gost.Option[T]
	CheckedMul(T) gost.Option[T]
	CheckedDiv(T) gost.Option[T]
	CheckedRem(T) gost.Option[T]
	SaturatingAdd(T) T
	SaturatingSub(T) T
	SaturatingMul(T) T
	SaturatingDiv(T) T
	Pow(gost.U32) T
	Shl(T) T
	Shr(T) T
	Cmp(T) gost.Ordering
	Eq(T) gost.Bool
	ToString() gost.String
	Display() gost.String
}

// Val is an exact integer of magnitude below 2^128.
type Val struct {
	Neg    bool
	Hi, Lo uint64
}

func (v Val) String() string {
	s := ""
	if v.Neg {
		s = "-"
	}
	if v.Hi == 0 {
		return fmt.Sprintf("%s%d", s, v.Lo)
	}
	return fmt.Sprintf("%s%#x%016x", s, v.Hi, v.Lo)
}

func norm(v Val) Val {
	if v.Hi == 0 && v.Lo == 0 {
		v.Neg = false
	}
	return v
}

// Width is the number of bits of T.
func Width[T Native]() int { var z T; return int(unsafe.Sizeof(z)) * 8 }

// Signed tells whether T has negative values.
func Signed[T Native]() bool { var z T; return z-1 < 0 }

// Of is the exact value of x.
func Of[T Native](x T) Val {
	if x < 0 {
		return Val{true, 0, -uint64(int64(x))}
	}
	return Val{false, 0, uint64(x)}
}

// Wrap reduces v modulo 2^w into T.
func Wrap[T Native](v Val) T {
	if v.Neg {
		return T(-v.Lo)
	}
	return T(v.Lo)
}

// Fits tells whether v is a value of T.
func Fits[T Native](v Val) bool {
	if v.Hi != 0 {
		return false
	}
	w := uint(Width[T]())
	if !Signed[T]() {
		return !v.Neg && (w == 64 || v.Lo>>w == 0)
	}
	if v.Neg {
		return v.Lo <= 1<<(w-1)
	}
	return v.Lo < 1<<(w-1)
}

// Min and Max of T.
func Min[T Native]() T {
	if !Signed[T]() {
		return 0
	}
	one := T(1)
	return one << (Width[T]() - 1)
}
func Max[T Native]() T { return ^Min[T]() }

// Clamp is the value of T nearest to v.
func Clamp[T Native](v Val) T {
	if Fits[T](v) {
		return Wrap[T](v)
	}
	if v.Neg {
		return Min[T]()
	}
	return Max[T]()
}

func Add(a, b Val) Val {
	if a.Neg == b.Neg {
		lo, c := bits.Add64(a.Lo, b.Lo, 0)
		hi, _ := bits.Add64(a.Hi, b.Hi, c)
		return norm(Val{a.Neg, hi, lo})
	}
	if a.Hi > b.Hi || a.Hi == b.Hi && a.Lo >= b.Lo {
		lo, c := bits.Sub64(a.Lo, b.Lo, 0)
		return norm(Val{a.Neg, a.Hi - b.Hi - c, lo})
	}
	lo, c := bits.Sub64(b.Lo, a.Lo, 0)
	return norm(Val{b.Neg, b.Hi - a.Hi - c, lo})
}

func Sub(a, b Val) Val {
	b.Neg = !b.Neg
	return Add(a, norm(b))
}

// Mul multiplies values below 2^64 in magnitude.
func Mul(a, b Val) Val {
	hi, lo := bits.Mul64(a.Lo, b.Lo)
	return norm(Val{a.Neg != b.Neg, hi, lo})
}

// Div and Rem truncate toward zero; magnitudes below 2^64, b not zero.
func Div(a, b Val) Val { return norm(Val{a.Neg != b.Neg, 0, a.Lo / b.Lo}) }
func Rem(a, b Val) Val { return norm(Val{a.Neg, 0, a.Lo % b.Lo}) }

// FloorShr is the floor of a / 2^n.
func FloorShr(a Val, n uint) Val {
	q := a.Lo >> n
	if a.Neg && q<<n != a.Lo {
		q++
	}
	return norm(Val{a.Neg, 0, q})
}

// PowFits gives base^exp if it is a value of T.
func PowFits[T Native](base T, exp uint32) (T, bool) {
	b := Of(base)
	if b.Lo <= 1 {
		if exp == 0 || b.Lo == 1 && (!b.Neg || exp%2 == 0) {
			return 1, true
		}
		return base, true
	}
	r := Val{false, 0, 1}
	for i := uint32(0); i < exp; i++ {
		r = Mul(r, b)
		if r.Hi != 0 {
			return 0, false
		}
	}
	return Wrap[T](r), Fits[T](r)
}

// Alphabet is the set of boundary values of T, sorted.
func Alphabet[T Native](thorough bool) []T {
	seen := map[T]bool{}
	w := Width[T]()
	put := func(x uint64) {
		for d := -2; d <= 2; d++ {
			y := x + uint64(d)
			seen[T(y)] = true
			seen[T(-y)] = true
		}
	}
	for k := 0; k <= w && k < 64; k++ {
		put(uint64(1) << k)
	}
	for x := -20; x <= 20; x++ {
		seen[T(x)] = true
	}
	mx := uint64(Max[T]())
	for _, d := range []uint64{1, 2, 3, 5, 6, 7, 9, 10, 100, 127, 128, 255, 256, 257, 1000} {
		put(mx / d)
		if d < mx {
			put(d)
		}
	}
	put(uint64(math.Sqrt(float64(mx))))
	put(isqrt(mx))
	put(isqrt(uint64(1)<<(w-1) - 1))
	for p := uint64(1); p <= mx/10; p *= 10 {
		put(p * 10)
	}
	for _, pat := range []uint64{0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0x00ff00ff00ff00ff, 0x0000ffff0000ffff, 0x0123456789abcdef, 0xfedcba9876543210, 0x9e3779b97f4a7c15} {
		seen[T(pat)] = true
		seen[T(pat>>(64-uint(w)))] = true
	}
	if thorough {
		for j := 0; j < w; j++ {
			for k := 0; k < j; k++ {
				for _, x := range []uint64{1<<j + 1<<k, 1<<j - 1<<k} {
					seen[T(x)] = true
					seen[T(-x)] = true
				}
			}
		}
	}
	out := make([]T, 0, len(seen))
	for x := range seen {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func isqrt(x uint64) uint64 {
	r := uint64(math.Sqrt(float64(x)))
	for r*r > x || r > 1<<32-1 {
		r--
	}
	return r
}

// Partners are the operands at which the result with a meets a limit of T.
func Partners[T Native](a T) []T {
	var out []T
	put := func(x T) {
		for d := -2; d <= 2; d++ {
			out = append(out, x+T(d))
		}
	}
	mx, mn := Max[T](), Min[T]()
	for _, t := range []T{mx, mn, mx / 2, mn / 2} {
		put(t - a)
		put(t + a)
		put(a - t)
		if a != 0 {
			if !(Signed[T]() && a+1 == 0) {
				put(t / a)
			}
			put(-(t / 2 / a))
		}
	}
	if !Signed[T]() && a != 0 {
		put(mx/a + 1)
	}
	put(a)
	put(-a)
	put(^a)
	for _, d := range []T{2, 3, 7, 10} {
		put(a / d)
		put(a * d)
	}
	return out
}

// Check judges one pair and returns a description of what is wrong, or "".
type Check[T Native] func(a, b T) string

// Pairs runs the check of every pair of the declared space of T. mk makes an
// independent checker (with its own scratch space).
func Pairs[T Native](c *core.C, typ string, mk func() Check[T]) {
	w := Width[T]()
	switch {
	case w == 8:
		c.Part(typ, "all 65536 pairs", func() {
			all := everything[T]()
			rows(c, typ, all, func(T) []T { return all }, mk)
		})
	case w == 16 && c.Thorough:
		c.Part(typ, "all 2^32 pairs", func() {
			all := everything[T]()
			rows(c, typ, all, func(T) []T { return all }, mk)
		})
	case w == 16:
		al := Alphabet[T](true)
		c.Part(typ, fmt.Sprintf("all 65536 values x %d boundary values, both ways round, and x limit partners", len(al)), func() {
			all := everything[T]()
			rows(c, typ, al, func(T) []T { return all }, mk)
			rows(c, typ, all, func(a T) []T { return append(Partners(a), al...) }, mk)
		})
	default:
		al := Alphabet[T](true)
		if !c.Thorough {
			al = Alphabet[T](false)
			full := Alphabet[T](true)
			c.Part(typ, fmt.Sprintf("all pairs of %d boundary values, and %d values x limit partners and boundary values", len(al), len(full)), func() {
				rows(c, typ, full, func(a T) []T { return append(Partners(a), al...) }, mk)
				rows(c, typ, al, func(a T) []T { return full }, mk)
			})
			return
		}
		c.Part(typ, fmt.Sprintf("all pairs of %d boundary values, each also x limit partners", len(al)), func() {
			rows(c, typ, al, func(a T) []T { return append(Partners(a), al...) }, mk)
		})
	}
}

// Values runs f on every value of the space of T (full to 16 bits).
func Values[T Native](c *core.C, typ string, f func(a T) (n int, msg string)) {
	var al []T
	if Width[T]() <= 16 {
		al = everything[T]()
	} else {
		al = Alphabet[T](true)
	}
	c.Part(typ, fmt.Sprintf("%d values", len(al)), func() {
		const chunk = 64
		c.Par((len(al)+chunk-1)/chunk, func(w *core.W, k int) {
			var cur T
			w.Begin(func() string { return fmt.Sprintf("%s around %d", typ, al[k*chunk]) })
			defer func() {
				if r := recover(); r != nil {
					c.Fail(typ+"/panic", "%s: value %d: unexpected panic: %v\n%s", typ, cur, r, debug.Stack())
				}
			}()
			for i := k * chunk; i < len(al) && i < (k+1)*chunk; i++ {
				cur = al[i]
				n, msg := f(cur)
				w.S++
				w.T += int64(n)
				w.V += int64(n)
				if msg != "" {
					c.Fail(typ+"/"+msg, "%s: value %d: %s", typ, cur, msg)
					return
				}
			}
			if c.WantSample() {
				c.Sample("%s value %d agrees on every operation", typ, cur)
			}
		})
	})
}

func everything[T Native]() []T {
	n := 1 << Width[T]()
	out := make([]T, n)
	x := Min[T]()
	for i := range out {
		out[i] = x
		x++
	}
	return out
}

func rows[T Native](c *core.C, typ string, as []T, bs func(a T) []T, mk func() Check[T]) {
	c.Par(len(as), func(w *core.W, i int) {
		a := as[i]
		var b T
		w.Begin(func() string { return fmt.Sprintf("%s: pairs with %d", typ, a) })
		defer func() {
			if r := recover(); r != nil {
				c.Fail(typ+"/panic", "%s: operands %d, %d: unexpected panic: %v\n%s", typ, a, b, r, debug.Stack())
			}
		}()
		f := mk()
		for _, y := range bs(a) {
			b = y
			w.S++
			if msg := f(a, y); msg != "" {
				c.Fail(typ+"/"+msg, "%s: operands %d, %d: %s", typ, a, y, msg)
				return
			}
		}
		w.T = w.S
		w.V = w.S
		if c.WantSample() {
			c.Sample("%s operands %d, %d agree with the exact results", typ, a, b)
		}
		w.Flush()
	})
}

// Show formats a mismatch.
func Show[T Native](op string, got, want T) string {
	return fmt.Sprintf("%s gives %d instead of %d", op, got, want)
}
