package share

import (
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
)

func bits(x gost.F64) string { return strconv.FormatUint(math.Float64bits(float64(x)), 16) }

func texts(v gost.Vec[gost.String]) string {
	s := ""
	for _, t := range v.AsSlice() {
		s += string(t) + "|"
	}
	return s
}

func panics(f func()) (s string) {
	defer func() {
		switch p := recover().(type) {
		case nil:
			s = "no panic"
		case string:
			s = p
		case gost.String:
			s = string(p)
		case error:
			s = p.Error()
		}
	}()
	f()
	return
}

func i128(x int) gost.I128 {
	a := gost.I128_FromI64(gost.I64(math.MaxInt64 - x))
	return a.Mul(gost.I128_FromI64(gost.I64(-3 - x)))
}

func u128(x int) gost.U128 {
	a := gost.U128_FromU64(gost.U64(math.MaxUint64 - uint64(x)))
	return a.Mul(gost.U128_FromU64(gost.U64(5 + x)))
}

// folder makes a folder in the check's scratch directory.
func folder(x int) string {
	d := filepath.Join(os.Getenv("MC_TMP"), "files"+strconv.Itoa(os.Getpid()), strconv.Itoa(x))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func plain(b []gost.Byte) string {
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x)
	}
	return string(s)
}

// Calls lists calls that work on values of their own.
func Calls() []Call {
	text := [2]gost.String{"one,two,three", "vier,fünf"}
	return []Call{
		{"Format", false, func(x int) string {
			return string(gost.Format("{} and {:?} {}", gost.I32(x), gost.String("a"), gost.Bool(x == 1)))
		}},
		{"Format of a Vec", false, func(x int) string { return string(gost.Format("<{}>", vecOf(2+x))) }},
		{"integers", false, func(x int) string {
			a, b := gost.I32(math.MaxInt32-x), gost.I32(2+x)
			s := num(a.Add(b)) + num(a.Sub(b)) + num(a.Mul(b)) + num(a.Div(b)) + num(a.Rem(b))
			return s + num(a.WrappingAdd(b)) + num(a.SaturatingMul(b)) + optI(a.CheckedAdd(b)) + optI(a.CheckedSub(b)) + num(b.Pow(3)) + num(b.Shl(2))
		}},
		{"bit operations", true, func(x int) string {
			a := gost.U16(0x0ff0 + x)
			return uns(a.Shl(3)) + uns(a.Shr(3)) + string(u128(x).Shl(gost.U128_FromU64(9)).ToString()+i128(x).Shr(gost.I128_FromI64(9)).ToString())
		}},
		{"I128", true, func(x int) string {
			a, b := i128(x), gost.I128_FromI64(gost.I64(7+x))
			return string(a.Add(b).ToString() + a.Sub(b).ToString() + a.Mul(b).ToString())
		}},
		{"I128 Div", true, func(x int) string { return string(i128(x).Div(gost.I128_FromI64(gost.I64(7 + x))).ToString()) }},
		{"I128 ToString", true, func(x int) string { return string(i128(x).ToString()) }},
		{"U128", true, func(x int) string {
			a, b := u128(x), gost.U128_FromU64(gost.U64(7+x))
			return string(a.Add(b).ToString() + a.Sub(b).ToString() + a.Mul(b).ToString())
		}},
		{"U128 Div", true, func(x int) string { return string(u128(x).Div(gost.U128_FromU64(gost.U64(7 + x))).ToString()) }},
		{"U128 ToString", true, func(x int) string { return string(u128(x).ToString()) }},
		{"floats", false, func(x int) string {
			a := gost.F64(float64(x)*2.5 + 0.75)
			return bits(a.Sqrt()) + bits(a.Exp()) + bits(a.Ln()) + bits(a.Powf(1.5)) + bits(a.Powi(3)) + bits(a.Round()) + bits(a.Frac())
		}},
		{"ToString", false, func(x int) string {
			return string(gost.I64(-5*x).ToString() + gost.U8(200+x).ToString() + gost.F64(0.25+float64(x)).ToString() + gost.Bool(x == 1).ToString() + gost.Char('a'+x).ToString())
		}},
		{"parsing", false, func(x int) string {
			t := gost.String("-12" + strconv.Itoa(x))
			a, b, c := t.ParseI64(), gost.String("7"+strconv.Itoa(x)).ParseU64(), gost.String("1.5").ParseF64()
			return num(a.Unwrap()) + uns(b.Unwrap()) + bits(c.Unwrap()) + yes(gost.String("x").ParseI64().IsErr())
		}},
		{"String Split", false, func(x int) string { return texts(text[x].Split(",")) }},
		{"String Chars", false, func(x int) string {
			s := ""
			for _, c := range text[x].Chars().AsSlice() {
				s += string(rune(c)) + "."
			}
			return s
		}},
		{"String IntoBytes and UTF-8", false, func(x int) string { return string(gost.StringFromUTF8(text[x].IntoBytes())) }},
		{"String UTF-16", false, func(x int) string {
			v := gost.VecNew[gost.U16]()
			for _, u := range []gost.U16{0xd83d, gost.U16(0xde00 + x), 'a', gost.U16('b' + x)} {
				v.Push(u)
			}
			return string(gost.StringFromUTF16(v).Unwrap())
		}},
		{"String case, trim, replace", false, func(x int) string {
			t := " " + text[x] + " "
			return string(t.ToUppercase() + t.ToLowercase() + t.Trim() + t.Replace(",", ";") + t.Repeat(2))
		}},
		{"String Push and Pop", false, func(x int) string {
			t := text[x]
			t.Push(gost.Char('é'))
			c := t.Pop()
			t.Pop()
			return string(t) + string(rune(c.Unwrap()))
		}},
		{"String Find", false, func(x int) string {
			return yes(text[x].Contains("w")) + opt(text[x].Find(","), uns[gost.USize])
		}},
		{"Vec edits", false, func(x int) string {
			v := vecOf(3 + x)
			v.Insert(1, 7)
			v.Reserve(5)
			v.Push(7)
			v.Swap(0, 2)
			v.Reverse()
			v.Pop()
			w := vecOf(2)
			v.Append(&w)
			return vecI(v)
		}},
		{"Vec Sort", false, func(x int) string {
			v := vecOf(4)
			v.Reverse()
			v.Push(I(x))
			v.Sort()
			return vecI(v)
		}},
		{"Vec SortBy", false, func(x int) string {
			v := vecOf(4 + x)
			v.SortBy(func(a, b I) gost.Ordering { return b.Cmp(a) })
			return vecI(v)
		}},
		{"Vec SortUnstable", false, func(x int) string {
			v := vecOf(4)
			v.Reverse()
			v.Push(I(x))
			v.SortUnstable()
			v.SortUnstableBy(func(a, b I) gost.Ordering { return b.Cmp(a) })
			return vecI(v)
		}},
		{"Vec Retain and Dedup", false, func(x int) string {
			v := vecOf(4)
			v.Push(6)
			v.Dedup()
			v.Retain(func(e I) gost.Bool { return e != I(2*x) })
			v.DedupByKey(func(e I) any { return e / 4 })
			v.Fill(I(x))
			v.FillWith(func() I { return I(x + 1) })
			return vecI(v)
		}},
		{"VecDeque edits", false, func(x int) string {
			v := dequeOf(6)
			v.PushFront(I(x)) // grows
			v.PopBack()
			v.PushBack(9)
			v.PopFront()
			v.Swap(0, 1)
			v.Set(1, I(x))
			o := dequeOf(2)
			v.Append(&o)
			v.Reserve(4)
			return sliceI(v.AsSlice())
		}},
		{"VecDeque Sort", false, func(x int) string {
			v := dequeOf(4)
			v.PushFront(I(9 + x))
			v.Sort()
			return sliceI(v.AsSlice())
		}},
		{"VecDeque SortBy", false, func(x int) string {
			v := dequeOf(4 + x)
			v.SortBy(func(a, b I) gost.Ordering { return b.Cmp(a) })
			return sliceI(v.AsSlice())
		}},
		{"VecDeque SortUnstable", false, func(x int) string {
			v := dequeOf(4 + x)
			v.SortUnstable()
			v.SortUnstableBy(func(a, b I) gost.Ordering { return b.Cmp(a) })
			v.Retain(func(e I) gost.Bool { return e != 2 })
			v.Dedup(func(e I) any { return e })
			return sliceI(v.AsSlice())
		}},
		{"LinkedList edits", false, func(x int) string {
			v := listOf(2 + x)
			v.PushFront(7)
			v.PopBack()
			o := listOf(2)
			v.Append(&o)
			v.PopFront()
			return seq(drain(v.IntoIter(), num[I]))
		}},
		{"BinaryHeap", false, func(x int) string {
			v := heapOf(3 + x)
			v.Push(I(x))
			o := heapOf(2)
			v.Append(&o)
			return optI(v.Pop()) + vecI(v.IntoSortedVec())
		}},
		{"BTreeMap edits", false, func(x int) string {
			v := btreeMapOf(12) // splits
			s := optI(v.Insert(5, I(x))) + optI(v.Insert(5, 1)) + optI(v.Remove(4)) + optI(v.Remove(5)) + optI(v.Remove(6))
			return s + seq(drain(v.IntoIter(), pair))
		}},
		{"BTreeSet edits", false, func(x int) string {
			v := btreeSetOf(2 + x)
			return yes(v.Insert(I(x))) + yes(v.Remove(2)) + seq(drain(v.IntoIter(), num[I]))
		}},
		{"HashMap edits", false, func(x int) string {
			v := hashMapOf(2 + x)
			return optI(v.Insert(0, 9)) + optI(v.Remove(2)) + optI(v.Insert(7, 7)) + set(drain(v.IntoIter(), pair))
		}},
		{"HashSet edits", false, func(x int) string {
			v := hashSetOf(2 + x)
			return yes(v.Insert(0)) + yes(v.Remove(2)) + yes(v.Insert(7)) + set(drain(v.IntoIter(), num[I]))
		}},
		{"Option edits", false, func(x int) string {
			v := gost.None[I]()
			a := *v.GetOrInsert(I(x))
			old := v.Replace(8)
			b := *v.Insert(I(3 + x))
			t := v.Take()
			return num(a) + optI(old) + num(b) + optI(t) + optI(v)
		}},
		{"Option and Result", false, func(x int) string {
			v := gost.Some(I(x)).Map(func(e I) I { return e + 1 }).Filter(func(e I) gost.Bool { return e == 1 })
			r := gost.Ok(I(x)).AndThen(func(e I) gost.Result[I] { return gost.Ok(e + 4) })
			return optI(v) + num(r.Unwrap()) + panics(func() { gost.None[I]().Expect("none " + strconv.Itoa(x)) }) + panics(func() { gost.Err[I](errNo).Unwrap() })
		}},
		{"iterators", false, func(x int) string {
			v := vecOf(3 + x)
			it := v.IntoIter().Map(func(e I) I { return e + I(x) }).Filter(func(e I) gost.Bool { return e > 1 }).Rev()
			c := it.CollectToVec()
			return vecI(c) + num(vecOf(3).IntoIter().Fold(I(x), func(a, b I) I { return a + b }))
		}},
		{"Display of collections", false, func(x int) string {
			a, b, c, d := vecOf(1+x), dequeOf(1+x), listOf(1+x), btreeMapOf(1+x)
			return string(a.Display() + b.Display() + c.Display() + d.Display())
		}},
		{"Display of hash collections", false, func(x int) string {
			a, b := hashMapOf(1+x), hashSetOf(1+x)
			return letters(a.Display() + b.Debug())
		}},
		{"Debug of wrappers", false, func(x int) string {
			return string(gost.Some(I(x)).Debug()+gost.Ok(I(x)).Debug()) + gost.Pair[I, I]{Key: 1, Value: I(x)}.Debug()
		}},
		{"Clone of nested collections", false, func(x int) string {
			v := gost.VecNew[gost.Vec[I]]()
			v.Push(vecOf(1 + x))
			v.Push(vecOf(2))
			c := v.Clone()
			return vecI(c.GetUnchecked(0)) + vecI(c.GetUnchecked(1)) + yes(c.Eq(v))
		}},
		{"If", false, func(x int) string {
			return num(gost.If(gost.Bool(x == 1), func() I { return 1 }).ElseIf(x == 0, func() I { return 2 }).Else(func() I { return 3 }))
		}},
		{"Duration", true, func(x int) string {
			d := gost.DurationNew(gost.U64(3+x), 1_500_000_000)
			return uns(d.AsSecs()) + string(d.AsNanos().ToString()) + uns(d.SubsecMicros()) + uns(gost.DurationFromMillis(1234).SubsecMillis())
		}},
		{"assertions", false, func(x int) string {
			return panics(func() { gost.AssertEq(I(1), I(1)); gost.Assert(true); gost.AssertNe(I(1), I(2)) }) +
				panics(func() { gost.AssertEq(I(1), I(2+x)) }) + panics(func() { gost.Assert(false, gost.String("no {}"), I(x)) }) + panics(func() { gost.Panic("{}!", I(x)) })
		}},
		{"files", true, func(x int) string {
			f := gost.String(folder(x))
			w := gost.Write(f+"/a", []gost.Byte(strings.Repeat(strconv.Itoa(x), 300+x)))
			c := gost.Copy(f+"/a", f+"/b")
			r, t := gost.Read(f+"/b"), gost.ReadToString(f+"/a")
			d := gost.ReadDir(f)
			n := d.Unwrap()
			return yes(w.IsOk()) + yes(c.IsOk()) + plain(r.Unwrap()) + string(t.Unwrap()) + uns(n.Len())
		}},
		{"comparison", false, func(x int) string {
			a, b := gost.String("a"), gost.String("b")
			return num(int(a.Cmp(b))) + yes(a.Eq(b)) + num(int(i128(x).Cmp(i128(0)))) + num(int(gost.F64(0.5).Cmp(gost.F64(x)))) + num(int(gost.Pair[I, I]{Key: 1}.Cmp(gost.Pair[I, I]{Key: I(x)})))
		}},
	}
}
