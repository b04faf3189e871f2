// C03: saturating operations clamp to the nearest representable value.
package main

import (
	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
)

func check[T Int[T]]() Check[T] {
	return func(a, b T) string {
		x, y := Of(a), Of(b)
		if g, w := a.SaturatingAdd(b), Clamp[T](Add(x, y)); g != w {
			return Show("SaturatingAdd", g, w)
		}
		if g, w := a.SaturatingSub(b), Clamp[T](Sub(x, y)); g != w {
			return Show("SaturatingSub", g, w)
		}
		if g, w := a.SaturatingMul(b), Clamp[T](Mul(x, y)); g != w {
			return Show("SaturatingMul", g, w)
		}
		if b != 0 {
			if g, w := a.SaturatingDiv(b), Clamp[T](Div(x, y)); g != w {
				return Show("SaturatingDiv", g, w)
			}
		}
		return ""
	}
}

func main() {
	core.Main("C03", func(c *core.C) {
		c.Assume("arithmetic depends on the two operand values only", "operand pairs of 32 and 64 bits are enumerated over boundary alphabets and the partners at which a result meets a limit", "SaturatingDiv by zero is outside the property")
		Pairs(c, "ISize", check[gost.ISize])
		Pairs(c, "I8", check[gost.I8])
		Pairs(c, "I32", check[gost.I32])
		Pairs(c, "I64", check[gost.I64])
		Pairs(c, "USize", check[gost.USize])
		Pairs(c, "U8", check[gost.U8])
		Pairs(c, "U32", check[gost.U32])
		Pairs(c, "U64", check[gost.U64])
		Pairs(c, "I16", check[gost.I16])
		Pairs(c, "U16", check[gost.U16])
	})
}
