// C02: checked operations return None exactly when the result does not fit.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
)

func verdict[T Native](op string, got gost.Option[T], exact Val, defined bool) string {
	ok := defined && Fits[T](exact)
	if bool(got.IsSome()) != ok || bool(got.IsNone()) == ok {
		if ok {
			return fmt.Sprintf("%s gives None although the result %v fits", op, exact)
		}
		if !defined {
			return op + " by zero gives Some"
		}
		return fmt.Sprintf("%s gives Some(%d) although the result %v does not fit", op, got.Unwrap(), exact)
	}
	if ok {
		if g, w := got.Unwrap(), Wrap[T](exact); g != w {
			return Show(op, g, w)
		}
	}
	return ""
}

func check[T Int[T]]() Check[T] {
	return func(a, b T) string {
		x, y := Of(a), Of(b)
		if m := verdict("CheckedAdd", a.CheckedAdd(b), Add(x, y), true); m != "" {
			return m
		}
		if m := verdict("CheckedSub", a.CheckedSub(b), Sub(x, y), true); m != "" {
			return m
		}
		if m := verdict("CheckedMul", a.CheckedMul(b), Mul(x, y), true); m != "" {
			return m
		}
		var q, r Val
		if b != 0 {
			q, r = Div(x, y), Rem(x, y)
		}
		if m := verdict("CheckedDiv", a.CheckedDiv(b), q, b != 0); m != "" {
			return m
		}
		if b != 0 && !Fits[T](q) { // MIN / -1: the remainder is not computable either
			if got := a.CheckedRem(b); got.IsSome() {
				return fmt.Sprintf("CheckedRem gives Some(%d) although the quotient overflows", got.Unwrap())
			}
			return ""
		}
		return verdict("CheckedRem", a.CheckedRem(b), r, b != 0)
	}
}

func main() {
	core.Main("C02", func(c *core.C) {
		c.Assume("arithmetic depends on the two operand values only", "operand pairs of 32 and 64 bits are enumerated over boundary alphabets and the partners at which a result meets a limit")
		Pairs(c, "ISize", check[gost.ISize])
		Pairs(c, "I8", check[gost.I8])
		Pairs(c, "I32", check[gost.I32])
		Pairs(c, "I64", check[gost.I64])
		Pairs(c, "USize", check[gost.USize])
		Pairs(c, "U8", check[gost.U8])
		Pairs(c, "U32", check[gost.U32])
		Pairs(c, "U64", check[gost.U64])
		Pairs(c, "I16", check[gost.I16])
		Pairs(c, "U16", check[gost.U16])
	})
}
