// C05: shifts move bits by exactly the requested amount.
package main

import (
	"fmt"
	"math/big"

	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
	"verifmc/wide"
)

func native[T Int[T]](c *core.C, typ string) {
	width := Width[T]()
	Values(c, typ, func(a T) (int, string) {
		x := Of(a)
		for n := 0; n < width; n++ {
			b := a
			left := Wrap[T](Mul(x, Val{Lo: 1 << n}))
			if g := a.Shl(T(n)); g != left {
				return 2 * n, fmt.Sprintf("Shl(%d) gives %d instead of %d", n, g, left)
			}
			right := Wrap[T](FloorShr(x, uint(n)))
			if g := a.Shr(T(n)); g != right {
				return 2 * n, fmt.Sprintf("Shr(%d) gives %d instead of %d", n, g, right)
			}
			if a != b {
				return 2 * n, "the operand was altered"
			}
		}
		return 2 * width, ""
	})
}

var mod = new(big.Int).Lsh(big.NewInt(1), 128)

func bigOf(hi, lo uint64, signed bool) *big.Int {
	x := new(big.Int).SetUint64(hi)
	x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(lo))
	if signed && int64(hi) < 0 {
		x.Sub(x, mod)
	}
	return x
}

func split(x *big.Int) (hi, lo uint64) {
	y := new(big.Int).Mod(x, mod)
	return new(big.Int).Rsh(y, 64).Uint64(), new(big.Int).And(y, new(big.Int).SetUint64(^uint64(0))).Uint64()
}

func main() {
	core.Main("C05", func(c *core.C) {
		c.Assume("shift amounts of the width or more, and negative ones, are outside the property", "values above 16 bits are enumerated over boundary alphabets")
		native[gost.ISize](c, "ISize")
		native[gost.I8](c, "I8")
		native[gost.I16](c, "I16")
		native[gost.I32](c, "I32")
		native[gost.I64](c, "I64")
		native[gost.USize](c, "USize")
		native[gost.U8](c, "U8")
		native[gost.U16](c, "U16")
		native[gost.U32](c, "U32")
		native[gost.U64](c, "U64")

		al := Alphabet[uint64](true)
		if !c.Thorough {
			small := map[uint64]bool{}
			for _, x := range Alphabet[uint64](false) {
				small[x] = true
			}
			var thin []uint64
			for i, x := range al {
				if i%8 == 0 || small[x] {
					thin = append(thin, x)
				}
			}
			al = thin
		}
		for _, signed := range []bool{true, false} {
			name := "U128"
			if signed {
				name = "I128"
			}
			c.Part(name, fmt.Sprintf("%d high x %d low words x 128 amounts", len(al), len(al)), func() {
				c.Par(len(al), func(w *core.W, i int) {
					hi := al[i]
					w.Begin(func() string { return fmt.Sprintf("%s values with high word %#x", name, hi) })
					for _, lo := range al {
						w.S++
						for n := 0; n < 128; n++ {
							var gl, gr [2]uint64
							// the same in words
							var el, er [2]uint64
							if n < 64 {
								el = [2]uint64{hi<<n | lo>>(64-n), lo << n}
							} else {
								el = [2]uint64{lo << (n - 64), 0}
							}
							fill := uint64(0)
							if signed {
								fill = uint64(int64(hi) >> 63)
							}
							if n < 64 {
								er = [2]uint64{hi>>n | fill<<(64-n), lo>>n | hi<<(64-n)}
							} else {
								er = [2]uint64{fill, hi>>(n-64) | fill<<(128-n)}
							}
							if signed {
								x := wide.I(hi, lo)
								gl[0], gl[1] = wide.IWords(x.Shl(gost.I128_FromU64(gost.U64(n))))
								gr[0], gr[1] = wide.IWords(x.Shr(gost.I128_FromU64(gost.U64(n))))
							} else {
								x := wide.U(hi, lo)
								gl[0], gl[1] = wide.UWords(x.Shl(gost.U128_FromU64(gost.U64(n))))
								gr[0], gr[1] = wide.UWords(x.Shr(gost.U128_FromU64(gost.U64(n))))
							}
							if gl != el || gr != er {
								// the verdict is the mathematical one
								b := bigOf(hi, lo, signed)
								l0, l1 := split(new(big.Int).Lsh(b, uint(n)))
								r0, r1 := split(new(big.Int).Rsh(b, uint(n)))
								if gl != [2]uint64{l0, l1} {
									c.Fail(name+".Shl", "%s value %v: Shl(%d) gives words %#x instead of %#x", name, b, n, gl, [2]uint64{l0, l1})
									return
								}
								if gr != [2]uint64{r0, r1} {
									c.Fail(name+".Shr", "%s value %v: Shr(%d) gives words %#x instead of %#x", name, b, n, gr, [2]uint64{r0, r1})
									return
								}
								panic("the two reference shifts disagree")
							}
						}
						w.T += 256
						w.V += 256
					}
					if c.WantSample() {
						c.Sample("%s high word %#x: all amounts agree", name, hi)
					}
				})
			})
		}
	})
}
