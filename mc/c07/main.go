// C07: comparisons form one consistent total order.
package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
	"verifmc/wide"
)

type ordered[T any] interface {
	Cmp(T) gost.Ordering
	Eq(T) gost.Bool
}

func sign(n int) gost.Ordering {
	switch {
	case n < 0:
		return gost.OrderingLess
	case n > 0:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func ints[T Int[T]](c *core.C, typ string) {
	Pairs(c, typ, func() Check[T] {
		return func(a, b T) string {
			d := Sub(Of(a), Of(b))
			want := gost.OrderingEqual
			if d.Neg {
				want = gost.OrderingLess
			} else if d.Lo != 0 {
				want = gost.OrderingGreater
			}
			if g := a.Cmp(b); g != want {
				return fmt.Sprintf("Cmp gives %d instead of %d", g, want)
			}
			if g := a.Eq(b); bool(g) != (want == gost.OrderingEqual) {
				return fmt.Sprintf("Eq gives %v", g)
			}
			return ""
		}
	})
}

type smallInt[T any] interface {
	Native
	ordered[T]
}

func small[T smallInt[T]](c *core.C, typ string) {
	Pairs(c, typ, func() Check[T] {
		return func(a, b T) string {
			want := gost.OrderingEqual
			if a < b {
				want = gost.OrderingLess
			} else if a > b {
				want = gost.OrderingGreater
			}
			if g := a.Cmp(b); g != want {
				return fmt.Sprintf("Cmp gives %d instead of %d", g, want)
			}
			if g := a.Eq(b); bool(g) != (want == gost.OrderingEqual) {
				return fmt.Sprintf("Eq gives %v", g)
			}
			return ""
		}
	})
}

// list compares all pairs of a list of values whose order is given by cmp;
// show must also reveal any alteration of a value.
func list[T ordered[T]](c *core.C, typ string, vs []T, cmp func(i, j int) int, show func(T) string) {
	c.Part(typ, fmt.Sprintf("all pairs of %d values", len(vs)), func() {
		before := make([]string, len(vs))
		for i, v := range vs {
			before[i] = show(v)
		}
		c.Par(len(vs), func(w *core.W, i int) {
			w.Begin(func() string { return typ + ": pairs with " + before[i] })
			j := 0
			defer func() {
				if r := recover(); r != nil {
					c.Fail(typ+"/panic", "%s: comparing %s with %s panics: %v\n%s", typ, before[i], before[j], r, debug.Stack())
				}
			}()
			a := vs[i]
			for j = 0; j < len(vs); j++ {
				want := sign(cmp(i, j))
				w.S++
				w.T += 2
				w.V++
				if g := a.Cmp(vs[j]); g != want {
					c.Fail(typ+"/Cmp", "%s: %s Cmp %s gives %d instead of %d", typ, before[i], before[j], g, want)
					return
				}
				if g := a.Eq(vs[j]); bool(g) != (want == gost.OrderingEqual) {
					c.Fail(typ+"/Eq", "%s: %s Eq %s gives %v", typ, before[i], before[j], g)
					return
				}
			}
			if show(a) != before[i] {
				c.Fail(typ+"/altered", "%s: comparing altered %s to %s", typ, before[i], show(a))
			}
			if c.WantSample() {
				c.Sample("%s compared with %d values as expected", before[i], len(vs))
			}
		})
		for i, v := range vs {
			if show(v) != before[i] {
				c.Fail(typ+"/altered", "%s: comparing altered %s to %s", typ, before[i], show(v))
			}
		}
	})
}

// floatCmp decides the numeric order from the bits.
func floatCmp(a, b uint64, width uint) int {
	key := func(x uint64) int64 {
		m := int64(x & (1<<(width-1) - 1))
		if x>>(width-1) != 0 {
			return -m
		}
		return m
	}
	x, y := key(a), key(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func strCmp(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return int(a[i]) - int(b[i])
		}
	}
	return len(a) - len(b)
}

// all strings over the alphabet with at most n letters
func texts(alphabet []string, n int) []gost.String {
	out := []gost.String{""}
	last := out
	for i := 0; i < n; i++ {
		var next []gost.String
		for _, s := range last {
			for _, a := range alphabet {
				next = append(next, s+gost.String(a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func pairs[K ordered[K], V ordered[V]](c *core.C, typ string, ks []K, kc func(i, j int) int, vs []V, vc func(i, j int) int) {
	var ps []gost.Pair[K, V]
	type ij struct{ i, j int }
	var at []ij
	for i, k := range ks {
		for j, v := range vs {
			ps = append(ps, gost.Pair[K, V]{Key: k, Value: v})
			at = append(at, ij{i, j})
		}
	}
	list(c, "Pair of "+typ, ps, func(x, y int) int {
		if d := kc(at[x].i, at[y].i); d != 0 {
			return d
		}
		return vc(at[x].j, at[y].j)
	}, func(p gost.Pair[K, V]) string { return fmt.Sprintf("%v", p) })
}

func natural[T smallInt[T]](vs []T) func(i, j int) int {
	return func(i, j int) int {
		switch {
		case vs[i] < vs[j]:
			return -1
		case vs[i] > vs[j]:
			return 1
		}
		return 0
	}
}

func main() {
	core.Main("C07", func(c *core.C) {
		c.Assume("NaN is outside the property", "pairs of 32 and 64 bits, floats and strings are enumerated over boundary alphabets")
		small[gost.Byte](c, "Byte")
		small[gost.Char](c, "Char")
		ints[gost.ISize](c, "ISize")
		ints[gost.I8](c, "I8")
		ints[gost.I32](c, "I32")
		ints[gost.I64](c, "I64")
		ints[gost.USize](c, "USize")
		ints[gost.U8](c, "U8")
		ints[gost.U32](c, "U32")
		ints[gost.U64](c, "U64")
		ints[gost.I16](c, "I16")
		ints[gost.U16](c, "U16")

		bools := []gost.Bool{false, true}
		bc := func(i, j int) int { return i - j }
		list(c, "Bool", bools, bc, func(b gost.Bool) string { return fmt.Sprint(bool(b)) })

		// 128 bits
		ws := []uint64{0, 1, 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 1 << 32, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 10}
		if c.Thorough {
			ws = nil
			for k := 0; k < 64; k += 2 {
				ws = append(ws, 1<<k, 1<<k-1, ^uint64(1<<k))
			}
			ws = append(ws, ^uint64(0), 1<<63)
		}
		var is []gost.I128
		var us []gost.U128
		var hl [][2]uint64
		for _, h := range ws {
			for _, l := range ws {
				is = append(is, wide.I(h, l))
				us = append(us, wide.U(h, l))
				hl = append(hl, [2]uint64{h, l})
			}
		}
		ucmp := func(a, b uint64) int {
			if a < b {
				return -1
			} else if a > b {
				return 1
			}
			return 0
		}
		ic := func(i, j int) int {
			if hl[i][0] != hl[j][0] {
				if int64(hl[i][0]) < int64(hl[j][0]) {
					return -1
				}
				return 1
			}
			return ucmp(hl[i][1], hl[j][1])
		}
		uc := func(i, j int) int {
			if d := ucmp(hl[i][0], hl[j][0]); d != 0 {
				return d
			}
			return ucmp(hl[i][1], hl[j][1])
		}
		list(c, "I128", is, ic, func(x gost.I128) string { h, l := wide.IWords(x); return fmt.Sprintf("%#x:%#x", h, l) })
		list(c, "U128", us, uc, func(x gost.U128) string { h, l := wide.UWords(x); return fmt.Sprintf("%#x:%#x", h, l) })

		// floats
		var f64 []gost.F64
		var f32 []gost.F32
		mants := []uint64{0, 1, 2, 1 << 51, 1<<52 - 1, 1<<51 - 1, 1 << 29, 1<<29 - 1}
		if c.Thorough {
			mants = append(mants, 3, 1<<50, 1<<51+1, 1<<52-2, 0x5555555555555, 0xaaaaaaaaaaaaa)
		}
		for e := uint64(0); e < 2047; e++ {
			if e > 8 && e < 2038 && (e < 1015 || e > 1031) && e%64 != 0 && e%64 != 63 && !(c.Thorough && e%5 == 0) {
				continue
			}
			for _, m := range mants {
				for s := uint64(0); s < 2; s++ {
					f64 = append(f64, gost.F64(math.Float64frombits(s<<63|e<<52|m)))
				}
			}
		}
		f64 = append(f64, gost.F64(math.Inf(1)), gost.F64(math.Inf(-1)))
		for e := uint32(0); e < 255; e++ {
			for _, m := range []uint32{0, 1, 1 << 22, 1<<23 - 1} {
				for s := uint32(0); s < 2; s++ {
					f32 = append(f32, gost.F32(math.Float32frombits(s<<31|e<<23|m)))
				}
			}
		}
		f32 = append(f32, gost.F32(math.Inf(1)), gost.F32(math.Inf(-1)))
		list(c, "F64", f64, func(i, j int) int {
			return floatCmp(math.Float64bits(float64(f64[i])), math.Float64bits(float64(f64[j])), 64)
		}, func(x gost.F64) string { return fmt.Sprintf("%x", math.Float64bits(float64(x))) })
		list(c, "F32", f32, func(i, j int) int {
			return floatCmp(uint64(math.Float32bits(float32(f32[i]))), uint64(math.Float32bits(float32(f32[j]))), 32)
		}, func(x gost.F32) string { return fmt.Sprintf("%x", math.Float32bits(float32(x))) })

		// strings
		n := 4
		if c.Thorough {
			n = 5
		}
		ss := texts([]string{"a", "b", "B", "é", "\x00", "日"}, n)
		ss = append(ss, texts([]string{"\xff", "z"}, 4)...)
		for k := 1; k <= 70; k++ { // common prefixes of every length
			p := strings.Repeat("x", k)
			for _, t := range []string{"", "a", "y", "x\x00", "ay", "\x00"} {
				ss = append(ss, gost.String(p+t))
			}
		}
		sc := func(i, j int) int { return strCmp(string(ss[i]), string(ss[j])) }
		list(c, "String", ss, sc, func(s gost.String) string { return fmt.Sprintf("%q", string(s)) })

		// pairs
		i64 := []gost.I64{math.MinInt64, -1, 0, 1, 256, math.MaxInt64}
		u8 := []gost.U8{0, 1, 127, 128, 255}
		us64 := []gost.USize{0, 1, 1 << 63, math.MaxUint64}
		st := texts([]string{"a", "b"}, 2)
		stc := func(i, j int) int { return strCmp(string(st[i]), string(st[j])) }
		ff := []gost.F64{gost.F64(math.Inf(-1)), -1.5, 0, 5e-324, 2, gost.F64(math.Inf(1))}
		ffc := func(i, j int) int { return i - j }
		ch := []gost.Char{-1, 0, 'a', 'b', 0x10ffff}
		by := []gost.Byte{0, 'a', 255}
		i128 := []gost.I128{wide.I(1<<63, 0), wide.I(^uint64(0), 5), wide.I(0, 0), wide.I(0, 1<<63), wide.I(1, 0)}
		u128 := []gost.U128{wide.U(0, 0), wide.U(0, 1<<63), wide.U(1, 0), wide.U(1<<63, 1), wide.U(1<<63, 2)}
		pairs(c, "I64, I64", i64, natural(i64), i64, natural(i64))
		pairs(c, "I64, String", i64, natural(i64), st, stc)
		pairs(c, "String, I64", st, stc, i64, natural(i64))
		pairs(c, "String, String", st, stc, st, stc)
		pairs(c, "U8, USize", u8, natural(u8), us64, natural(us64))
		pairs(c, "USize, Bool", us64, natural(us64), bools, bc)
		pairs(c, "Bool, Bool", bools, bc, bools, bc)
		pairs(c, "Bool, F64", bools, bc, ff, ffc)
		pairs(c, "F64, Char", ff, ffc, ch, natural(ch))
		pairs(c, "Char, Byte", ch, natural(ch), by, natural(by))
		pairs(c, "Byte, F64", by, natural(by), ff, ffc)
		pairs(c, "I128, U128", i128, ffc, u128, ffc)
		pairs(c, "U128, I128", u128, ffc, i128, ffc)
		// nested
		inner := []gost.Pair[gost.U8, gost.String]{}
		type at struct{ i, j int }
		var where []at
		for i, x := range u8 {
			for j, s := range st {
				inner = append(inner, gost.Pair[gost.U8, gost.String]{Key: x, Value: s})
				where = append(where, at{i, j})
			}
		}
		innerCmp := func(x, y int) int {
			if d := where[x].i - where[y].i; d != 0 {
				return d
			}
			return stc(where[x].j, where[y].j)
		}
		pairs(c, "(Pair of U8, String), Bool", inner, innerCmp, bools, bc)
		pairs(c, "Bool, (Pair of U8, String)", bools, bc, inner, innerCmp)
		pairs(c, "(Pair), (Pair)", inner, innerCmp, inner, innerCmp)
	})
}
