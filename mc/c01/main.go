// C01: plain and wrapping operations agree with arithmetic modulo 2^w.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
)

type basicAssign[T any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
}

type assign[T any] interface {
	basicAssign[T]
	RemAssign(T)
}

type signed[T, U any] interface {
	Int[T]
	Abs() T
	AbsDiff(T) U
	IsPositive() gost.Bool
	IsNegative() gost.Bool
	Neg(T) T
}

type unsigned[T any] interface {
	Int[T]
	AbsDiff(T) T
}

func basic[T Basic[T], PT basicAssign[T]]() Check[T] {
	acc := PT(new(T))
	return func(a, b T) string {
		x, y := Of(a), Of(b)
		if w := Wrap[T](Add(x, y)); true {
			if g := a.Add(b); g != w {
				return Show("Add", g, w)
			}
			*acc = a
			acc.AddAssign(b)
			if *acc != w {
				return Show("AddAssign", *acc, w)
			}
		}
		if w := Wrap[T](Sub(x, y)); true {
			if g := a.Sub(b); g != w {
				return Show("Sub", g, w)
			}
			*acc = a
			acc.SubAssign(b)
			if *acc != w {
				return Show("SubAssign", *acc, w)
			}
		}
		if w := Wrap[T](Mul(x, y)); true {
			if g := a.Mul(b); g != w {
				return Show("Mul", g, w)
			}
			*acc = a
			acc.MulAssign(b)
			if *acc != w {
				return Show("MulAssign", *acc, w)
			}
		}
		if b == 0 {
			if !core.Panics(func() { a.Div(b) }) {
				return "Div by zero does not panic"
			}
			if !core.Panics(func() { *acc = a; acc.DivAssign(b) }) {
				return "DivAssign by zero does not panic"
			}
			return ""
		}
		w := Wrap[T](Div(x, y))
		if g := a.Div(b); g != w {
			return Show("Div", g, w)
		}
		*acc = a
		acc.DivAssign(b)
		if *acc != w {
			return Show("DivAssign", *acc, w)
		}
		return ""
	}
}

func full[T Int[T], PT assign[T]]() Check[T] {
	first := basic[T, PT]()
	acc := PT(new(T))
	return func(a, b T) string {
		if m := first(a, b); m != "" {
			return m
		}
		x, y := Of(a), Of(b)
		if g, w := a.WrappingAdd(b), Wrap[T](Add(x, y)); g != w {
			return Show("WrappingAdd", g, w)
		}
		if g, w := a.WrappingSub(b), Wrap[T](Sub(x, y)); g != w {
			return Show("WrappingSub", g, w)
		}
		if g, w := a.WrappingMul(b), Wrap[T](Mul(x, y)); g != w {
			return Show("WrappingMul", g, w)
		}
		if b == 0 {
			if !core.Panics(func() { a.WrappingDiv(b) }) {
				return "WrappingDiv by zero does not panic"
			}
			if !core.Panics(func() { a.Rem(b) }) {
				return "Rem by zero does not panic"
			}
			if !core.Panics(func() { *acc = a; acc.RemAssign(b) }) {
				return "RemAssign by zero does not panic"
			}
			return ""
		}
		if g, w := a.WrappingDiv(b), Wrap[T](Div(x, y)); g != w {
			return Show("WrappingDiv", g, w)
		}
		w := Wrap[T](Rem(x, y))
		if g := a.Rem(b); g != w {
			return Show("Rem", g, w)
		}
		*acc = a
		acc.RemAssign(b)
		if *acc != w {
			return Show("RemAssign", *acc, w)
		}
		return ""
	}
}

func dist[T Native, U Native](a, b T) U {
	d := Sub(Of(a), Of(b))
	d.Neg = false
	return Wrap[U](d)
}

// exponents for bases 0, 1 and -1 (representable for every exponent)
var huge = []gost.U32{64, 65, 127, 128, 255, 256, 257, 999, 1000, 65535, 65536, 1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func pow[T Int[T]](a T) (int, string) {
	n := 0
	for e := gost.U32(0); e <= 66; e++ {
		w, ok := PowFits(a, uint32(e))
		if !ok {
			if e > 0 && !Of(a).Neg {
				break
			}
			continue
		}
		n++
		if g := a.Pow(e); g != w {
			return n, fmt.Sprintf("Pow(%d) gives %d instead of %d", e, g, w)
		}
	}
	if m := Of(a); m.Lo <= 1 {
		for _, e := range huge {
			w, _ := PowFits(a, uint32(e))
			n++
			if g := a.Pow(e); g != w {
				return n, fmt.Sprintf("Pow(%d) gives %d instead of %d", e, g, w)
			}
		}
	}
	return n, ""
}

func sgn[T signed[T, U], U Native, PT assign[T]](c *core.C, typ string) {
	Values(c, typ+" unary", func(a T) (int, string) {
		n, m := pow(a)
		if m != "" {
			return n, m
		}
		x := Of(a)
		neg := x
		neg.Neg = !neg.Neg
		if g, w := a.Neg(0), Wrap[T](neg); g != w {
			return n, Show("Neg", g, w)
		}
		if g, w := a.Neg(a), Wrap[T](neg); g != w {
			return n, Show("Neg", g, w)
		}
		if a != Min[T]() {
			abs := x
			abs.Neg = false
			if g, w := a.Abs(), Wrap[T](abs); g != w {
				return n, Show("Abs", g, w)
			}
		}
		if g, w := bool(a.IsPositive()), a > 0; g != w {
			return n, fmt.Sprintf("IsPositive gives %v", g)
		}
		if g, w := bool(a.IsNegative()), a < 0; g != w {
			return n, fmt.Sprintf("IsNegative gives %v", g)
		}
		return n + 5, ""
	})
	Pairs(c, typ, func() Check[T] {
		f := full[T, PT]()
		return func(a, b T) string {
			if m := f(a, b); m != "" {
				return m
			}
			if g, w := a.AbsDiff(b), dist[T, U](a, b); g != w {
				return Show("AbsDiff", g, w)
			}
			return ""
		}
	})
}

func uns[T unsigned[T], PT assign[T]](c *core.C, typ string) {
	Values(c, typ+" unary", pow[T])
	Pairs(c, typ, func() Check[T] {
		f := full[T, PT]()
		return func(a, b T) string {
			if m := f(a, b); m != "" {
				return m
			}
			if g, w := a.AbsDiff(b), dist[T, T](a, b); g != w {
				return Show("AbsDiff", g, w)
			}
			return ""
		}
	})
}

func main() {
	core.Main("C01", func(c *core.C) {
		c.Assume("arithmetic depends on the two operand values only", "operand pairs of 32 and 64 bits are enumerated over boundary alphabets and the partners at which a result meets a limit, not over all 2^64 and 2^128 pairs")
		sgn[gost.ISize, gost.USize, *gost.ISize](c, "ISize")
		sgn[gost.I8, gost.U8, *gost.I8](c, "I8")
		sgn[gost.I32, gost.U32, *gost.I32](c, "I32")
		sgn[gost.I64, gost.U64, *gost.I64](c, "I64")
		uns[gost.USize, *gost.USize](c, "USize")
		uns[gost.U8, *gost.U8](c, "U8")
		uns[gost.U32, *gost.U32](c, "U32")
		uns[gost.U64, *gost.U64](c, "U64")
		Pairs(c, "Byte", basic[gost.Byte, *gost.Byte])
		Pairs(c, "Char", basic[gost.Char, *gost.Char])
		sgn[gost.I16, gost.U16, *gost.I16](c, "I16")
		uns[gost.U16, *gost.U16](c, "U16")
	})
}
