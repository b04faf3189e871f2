// Package wide makes and reads 128-bit values of the library without going
// through the arithmetic under test. The order of the two words in memory is
// calibrated with the public constructors; if the layout is something else,
// the public operations are used.
package wide

import (
	"math/big"
	"unsafe"

	"github.com/myyrakle/gost"
)

var lowU, lowI int // index of the low word in memory, -1 if unknown

func init() {
	lowU, lowI = -1, -1
	if unsafe.Sizeof(gost.U128{}) == 16 {
		u := gost.U128_FromU64(0x1122334455667788)
		lowU = which(*(*[2]uint64)(unsafe.Pointer(&u)), 0x1122334455667788, 0)
	}
	if unsafe.Sizeof(gost.I128{}) == 16 {
		i := gost.I128_FromI64(-0x1122334455667788)
		x := int64(-0x1122334455667788)
		lowI = which(*(*[2]uint64)(unsafe.Pointer(&i)), uint64(x), ^uint64(0))
	}
}

func which(w [2]uint64, low, high uint64) int {
	for i := 0; i < 2; i++ {
		if w[i] == low && w[1-i] == high {
			return i
		}
	}
	return -1
}

// U makes hi*2^64 + lo.
func U(hi, lo uint64) (x gost.U128) {
	if lowU < 0 {
		sh := gost.U128_FromU64(1 << 32)
		return gost.U128_FromU64(gost.U64(hi)).Mul(sh).Mul(sh).Add(gost.U128_FromU64(gost.U64(lo)))
	}
	p := (*[2]uint64)(unsafe.Pointer(&x))
	p[lowU], p[1-lowU] = lo, hi
	return
}

// I makes the two's-complement value of the words hi, lo.
func I(hi, lo uint64) (x gost.I128) {
	if lowI < 0 {
		sh := gost.I128_FromI64(1 << 32)
		return gost.I128_FromI64(gost.I64(hi)).Mul(sh).Mul(sh).Add(gost.I128_FromU64(gost.U64(lo)))
	}
	p := (*[2]uint64)(unsafe.Pointer(&x))
	p[lowI], p[1-lowI] = lo, hi
	return
}

// UWords reads the words of x.
func UWords(x gost.U128) (hi, lo uint64) {
	if lowU < 0 {
		return parse(string(x.ToString()))
	}
	p := (*[2]uint64)(unsafe.Pointer(&x))
	return p[1-lowU], p[lowU]
}

// IWords reads the two's-complement words of x.
func IWords(x gost.I128) (hi, lo uint64) {
	if lowI < 0 {
		return parse(string(x.ToString()))
	}
	p := (*[2]uint64)(unsafe.Pointer(&x))
	return p[1-lowI], p[lowI]
}

var mod = new(big.Int).Lsh(big.NewInt(1), 128)
var mask = new(big.Int).SetUint64(^uint64(0))

func parse(s string) (hi, lo uint64) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("not a number: " + s)
	}
	b.Mod(b, mod)
	return new(big.Int).Rsh(b, 64).Uint64(), new(big.Int).And(b, mask).Uint64()
}
