package main

import (
	"fmt"
	"math"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// prim is what every primitive type offers.
type prim[T any] interface {
	comparable
	Clone() T
	AsRef() *T
	Eq(T) gost.Bool
}

// values checks values of one type by themselves, told apart by same.
func values[T interface {
	Clone() T
	AsRef() *T
}](c *core.C, name string, all int, value func(i int) T, same func(a, b T) bool) {
	c.Part("primitive "+name, fmt.Sprintf("Clone and AsRef of %d values; a change through one AsRef or Clone leaves the other ones alone", all), func() {
		const chunk = 1 << 12
		c.Par((all+chunk-1)/chunk, func(w *core.W, k int) {
			var last *T
			var was T
			for i := k * chunk; i < all && i < (k+1)*chunk; i++ {
				x := value(i)
				keep := x
				w.S++
				w.T += 2
				w.V++
				cl, ref := x.Clone(), x.AsRef()
				if !same(cl, keep) || !same(x, keep) || ref == nil || !same(*ref, keep) {
					c.Fail(fmt.Sprintf("%s %v", name, keep), "%s value %v (number %d): the clone is %v, AsRef points to %v, the value is now %v", name, keep, i, cl, ref, x)
					return
				}
				if last != nil && (last == ref || !same(*last, was)) {
					c.Fail(fmt.Sprintf("%s %v shared", name, keep), "%s: AsRef of %v and of %v share memory", name, was, keep)
					return
				}
				last, was = ref, keep
			}
		})
	})
}

// primitive checks the values of one type by themselves and inside a Vec and
// further places.
func primitive[T prim[T]](c *core.C, name string, all int, value func(i int) T, few []T, same func(a, b T) bool, more func(d *D[T])) {
	values(c, name, all, value, same)
	d := &D[T]{name: name,
		show:  func(x *T) string { return fmt.Sprintf("%#v", *x) },
		clone: func(x *T) *T { return p((*x).Clone()) },
		ref:   func(x *T) *T { return (*x).AsRef() },
		eq:    func(a, b *T) bool { return bool((*a).Eq(*b)) },
	}
	for _, v := range few {
		d.gens = append(d.gens, gen[T]{fmt.Sprintf("%#v", v), func() *T { return p(v) }})
		d.muts = append(d.muts, mut[T]{fmt.Sprintf("set to %#v", v), func(x *T) { *x = v }})
	}
	explore(c, d)
	explore(c, vecOf(d, 2, len(few)))
	if more != nil {
		more(d)
	}
}

// everywhere puts the values into each collection and wrapper (a few types
// only: the compiler needs much memory for each).
func everywhere[T prim[T]](c *core.C, few []T) func(d *D[T]) {
	return func(d *D[T]) {
		explore(c, dequeOf(d, 2, len(few)))
		explore(c, listOf(d, 2, len(few)))
		explore(c, hashMapOf(d, 2, 2))
		explore(c, optionOf(d, len(few)))
		explore(c, resultOf(d, len(few)))
		explore(c, pairOf(d, leaf(), len(few)))
		keys(c, d.name, few)
	}
}

// keys puts the values into a HashMap's keys and a HashSet: every subset.
func keys[T comparable](c *core.C, name string, few []T) {
	type M = gost.HashMap[T, I]
	type H = gost.HashSet[T]
	m := &D[M]{name: "HashMap[" + name + ",I32]"}
	h := &D[H]{name: "HashSet[" + name + "]"}
	for x := 0; x < 1<<len(few); x++ {
		m.gens = append(m.gens, gen[M]{fmt.Sprint(x), func() *M {
			v := gost.HashMapNew[T, I]()
			for k, f := range few {
				if x>>k&1 == 1 {
					v.Insert(f, I(k))
				}
			}
			return &v
		}})
		h.gens = append(h.gens, gen[H]{fmt.Sprint(x), func() *H {
			v := gost.HashSetNew[T]()
			for k, f := range few {
				if x>>k&1 == 1 {
					v.Insert(f)
				}
			}
			return &v
		}})
	}
	m.show = func(v *M) string {
		s := ""
		for _, f := range few {
			if x := v.Get(f); x.IsSome() {
				s += fmt.Sprint(int32(x.Unwrap()))
			}
			s += ","
		}
		return fmt.Sprint(s, v.Len())
	}
	h.show = func(v *H) string {
		s := ""
		for _, f := range few {
			s += fmt.Sprint(v.Contains(f), " ")
		}
		return fmt.Sprint(s, v.Len())
	}
	m.clone, h.clone = func(v *M) *M { return p(v.Clone()) }, func(v *H) *H { return p(v.Clone()) }
	m.ref, h.ref = func(v *M) *M { return v.AsRef() }, func(v *H) *H { return v.AsRef() }
	m.eq, h.eq = func(a, b *M) bool { return bool(a.Eq(*b)) }, func(a, b *H) bool { return bool(a.Eq(*b)) }
	for k, f := range few {
		m.muts = append(m.muts, mut[M]{fmt.Sprintf("Insert(%#v)", f), func(v *M) { v.Insert(f, I(k+70)) }}, mut[M]{fmt.Sprintf("Remove(%#v)", f), func(v *M) { v.Remove(f) }})
		h.muts = append(h.muts, mut[H]{fmt.Sprintf("Insert(%#v)", f), func(v *H) { v.Insert(f) }}, mut[H]{fmt.Sprintf("Remove(%#v)", f), func(v *H) { v.Remove(f) }})
	}
	explore(c, m)
	explore(c, h)
}

func equal[T comparable](a, b T) bool { return a == b }

// wide spreads i over the 64 bits: the first 2^16 numbers, then one to three
// runs of ones at every place.
func wide(i int) uint64 {
	if i < 1<<16 {
		return uint64(i)
	}
	i -= 1 << 16
	x := ^uint64(0) << (i % 64) // an edge
	i /= 64
	x ^= ^uint64(0) << (i % 64) // another
	i /= 64
	if i&1 == 1 {
		x = ^x
	}
	return x + uint64(i>>1&3)
}

const wides = 1<<16 + 64*64*8

func primitives(c *core.C) {
	primitive(c, "ISize", wides, func(i int) gost.ISize { return gost.ISize(wide(i)) }, []gost.ISize{0, -1, math.MinInt64, math.MaxInt64}, equal, nil)
	primitive(c, "I8", 1<<8, func(i int) gost.I8 { return gost.I8(i) }, []gost.I8{0, -1, math.MinInt8, math.MaxInt8}, equal, everywhere(c, []gost.I8{0, -1, math.MinInt8, math.MaxInt8}))
	primitive(c, "I16", 1<<16, func(i int) gost.I16 { return gost.I16(i) }, []gost.I16{0, -1, math.MinInt16, math.MaxInt16}, equal, nil)
	primitive(c, "I32", wides, func(i int) gost.I32 { return gost.I32(wide(i) >> (i & 32)) }, []gost.I32{0, -1, math.MinInt32, math.MaxInt32}, equal, nil)
	primitive(c, "I64", wides, func(i int) gost.I64 { return gost.I64(wide(i)) }, []gost.I64{0, -1, math.MinInt64, math.MaxInt64}, equal, nil)
	primitive(c, "USize", wides, func(i int) gost.USize { return gost.USize(wide(i)) }, []gost.USize{0, 1, 1 << 63, math.MaxUint64}, equal, nil)
	primitive(c, "U8", 1<<8, func(i int) gost.U8 { return gost.U8(i) }, []gost.U8{0, 1, 128, 255}, equal, nil)
	primitive(c, "U16", 1<<16, func(i int) gost.U16 { return gost.U16(i) }, []gost.U16{0, 1, 1 << 15, math.MaxUint16}, equal, nil)
	primitive(c, "U32", wides, func(i int) gost.U32 { return gost.U32(wide(i) >> (i & 32)) }, []gost.U32{0, 1, 1 << 31, math.MaxUint32}, equal, nil)
	primitive(c, "U64", wides, func(i int) gost.U64 { return gost.U64(wide(i)) }, []gost.U64{0, 1, 1 << 63, math.MaxUint64}, equal, nil)
	primitive(c, "Byte", 1<<8, func(i int) gost.Byte { return gost.Byte(i) }, []gost.Byte{0, 1, 128, 255}, equal, nil)
	primitive(c, "Char", 0x110000, func(i int) gost.Char { return gost.Char(i) }, []gost.Char{0, 'a', 0xd7ff, 0x10ffff}, equal, nil)
	primitive(c, "Bool", 2, func(i int) gost.Bool { return i == 1 }, []gost.Bool{false, true}, equal, nil)
	primitive(c, "F32", wides, func(i int) gost.F32 { return gost.F32(math.Float32frombits(uint32(wide(i) >> (i & 32)))) }, []gost.F32{0, -1.5, math.MaxFloat32, math.SmallestNonzeroFloat32},
		func(a, b gost.F32) bool { return bits32(a) == bits32(b) }, nil)
	primitive(c, "F64", wides, func(i int) gost.F64 { return gost.F64(math.Float64frombits(wide(i))) }, []gost.F64{0, -1.5, gost.F64(math.Inf(1)), math.SmallestNonzeroFloat64},
		func(a, b gost.F64) bool { return bits64(a) == bits64(b) }, nil)
	values(c, "Complex64", wides, func(i int) gost.Complex64 {
		x := wide(i)
		return gost.Complex64(complex(math.Float32frombits(uint32(x)), math.Float32frombits(uint32(x>>32))))
	}, func(a, b gost.Complex64) bool {
		return bits32(gost.F32(real(a))) == bits32(gost.F32(real(b))) && bits32(gost.F32(imag(a))) == bits32(gost.F32(imag(b)))
	})
	values(c, "Complex128", wides, func(i int) gost.Complex128 {
		x := math.Float64frombits(wide(i))
		if i&1 == 1 {
			return gost.Complex128(complex(x, float64(i)))
		}
		return gost.Complex128(complex(float64(i), x))
	}, func(a, b gost.Complex128) bool {
		return bits64(gost.F64(real(a))) == bits64(gost.F64(real(b))) && bits64(gost.F64(imag(a))) == bits64(gost.F64(imag(b)))
	})
	var texts []string
	alphabet := []string{"", "a", "\x00", "é", "😀", " "}
	for _, x := range alphabet {
		for _, y := range alphabet {
			for _, z := range alphabet {
				texts = append(texts, x+y+z)
			}
		}
	}
	primitive(c, "String", len(texts), func(i int) gost.String { return gost.String(texts[i]) }, []gost.String{"", "a", "ab", "é"}, equal, everywhere(c, []gost.String{"", "a", "ab", "é"}))
}

// bits are compared as bits, except that any NaN stands for every NaN.
func bits32(x gost.F32) uint32 {
	if x != x {
		return math.Float32bits(float32(math.NaN()))
	}
	return math.Float32bits(float32(x))
}

func bits64(x gost.F64) uint64 {
	if x != x {
		return math.Float64bits(math.NaN())
	}
	return math.Float64bits(float64(x))
}
