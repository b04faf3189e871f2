// C09: sorting, binary search, dedup and retain are correct for every content
// and layout.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
	"verifmc/ref"
)

type T = ref.T

// box is a Vec or a VecDeque seen through the operations of this property.
type box interface {
	Sort()
	SortBy(func(T, T) gost.Ordering)
	SortUnstable()
	SortUnstableBy(func(T, T) gost.Ordering)
	BinarySearch(T) gost.Option[gost.USize]
	BinarySearchBy(func(T) gost.Ordering) gost.Option[gost.USize]
	Retain(func(T) gost.Bool)
	Get(gost.USize) gost.Option[T]
	Len() gost.USize
	AsSlice() []T
	IntoIter() gost.Iterator[T]
}

var (
	_ box = (*gost.Vec[T])(nil)
	_ box = (*gost.VecDeque[T])(nil)
)

type layout struct {
	name            string
	deque           bool
	extraCap, start int
	staleLow        bool
}

func (l layout) build(seq []int8) (box, []T) {
	var m []T
	for i, k := range seq {
		m = append(m, T{int32(k), int32(i + 1)})
	}
	stale := T{99, -1}
	if l.staleLow {
		stale = T{-99, -1}
	}
	if !l.deque {
		v := gost.VecWithCapacity[T](gost.USize(len(seq) + l.extraCap))
		for i := 0; i < l.extraCap; i++ {
			v.Push(stale)
		}
		for i := 0; i < l.extraCap; i++ {
			v.Pop()
		}
		for _, t := range m {
			v.Push(t)
		}
		return &v, m
	}
	cp := len(seq) + l.extraCap
	v := gost.VecDequeWithCapacity[T](gost.USize(cp))
	for i := 0; i < cp; i++ {
		v.PushBack(stale)
	}
	for i := 0; i < cp; i++ {
		v.PopFront()
	}
	for i := 0; i < l.start; i++ {
		v.PushBack(stale)
		v.PopFront()
	}
	for _, t := range m {
		v.PushBack(t)
	}
	return &v, m
}

func contents(b box) ([]T, string) {
	n := int(b.Len())
	out := make([]T, 0, n)
	for i := 0; i < n; i++ {
		o := b.Get(gost.USize(i))
		if o.IsNone() {
			return nil, fmt.Sprintf("Get(%d) = None at length %d", i, n)
		}
		out = append(out, o.Unwrap())
	}
	if s := b.AsSlice(); !ref.Same(s, out) {
		return nil, fmt.Sprintf("AsSlice() = %v but Get shows %v", s, out)
	}
	it, msg := ref.Drain(b.IntoIter(), n)
	if msg != "" {
		return nil, msg
	}
	if !ref.Same(it, out) {
		return nil, fmt.Sprintf("iteration = %v but Get shows %v", it, out)
	}
	return out, ""
}

// grow pushes one more element and looks again: the container stays usable.
func grow(b box, m []T) string {
	x := T{7, 4242}
	switch v := b.(type) {
	case *gost.Vec[T]:
		v.Push(x)
	case *gost.VecDeque[T]:
		v.PushBack(x)
	}
	got, msg := contents(b)
	if want := append(ref.Copy(m), x); msg == "" && !ref.Same(got, want) {
		msg = fmt.Sprintf("a further push gives %v, want %v", got, want)
	}
	return msg
}

// orders used with the *By methods.
var orders = []struct {
	name string
	less func(a, b T) bool
}{
	{"natural", func(a, b T) bool { return a.K < b.K }},
	{"reverse", func(a, b T) bool { return a.K > b.K }},
	{"parity", func(a, b T) bool { return a.K&1 < b.K&1 }},
	{"constant", func(a, b T) bool { return false }},
	{"by ID descending", func(a, b T) bool { return a.ID > b.ID }},
}

func ordering(less func(a, b T) bool) func(a, b T) gost.Ordering {
	return func(a, b T) gost.Ordering {
		if less(a, b) {
			return gost.OrderingLess
		}
		if less(b, a) {
			return gost.OrderingGreater
		}
		return gost.OrderingEqual
	}
}

func checkSorted(got, m []T, less func(a, b T) bool, stable bool) string {
	if !ref.SameBag(got, m) {
		return fmt.Sprintf("result %v is not a permutation of %v", got, m)
	}
	for i := 1; i < len(got); i++ {
		if less(got[i], got[i-1]) {
			return fmt.Sprintf("result %v of %v is not in order", got, m)
		}
		if stable && !less(got[i-1], got[i]) && got[i-1].ID > got[i].ID {
			return fmt.Sprintf("result %v of %v exchanges equal elements", got, m)
		}
	}
	return ""
}

func sortOne(w *core.W, l layout, seq []int8) string {
	type meth struct {
		name   string
		stable bool
		run    func(b box)
		less   func(a, b T) bool
	}
	meths := []meth{
		{"Sort", true, func(b box) { b.Sort() }, orders[0].less},
		{"SortUnstable", false, func(b box) { b.SortUnstable() }, orders[0].less},
	}
	for _, o := range orders {
		meths = append(meths,
			meth{"SortBy(" + o.name + ")", true, func(b box) { b.SortBy(ordering(o.less)) }, o.less},
			meth{"SortUnstableBy(" + o.name + ")", false, func(b box) { b.SortUnstableBy(ordering(o.less)) }, o.less})
	}
	for _, me := range meths {
		b, m := l.build(seq)
		me.run(b)
		w.T++
		got, msg := contents(b)
		if msg == "" {
			msg = checkSorted(got, m, me.less, me.stable)
		}
		if msg != "" {
			return me.name + ": " + msg
		}
		if len(seq) <= 8 && len(me.name) <= len("SortUnstable") {
			// sorting again, and searching what was sorted
			for k := int32(-1); k <= int32(len(seq)); k++ {
				if msg := search(w, b, got, k); msg != "" {
					return "after " + me.name + ": " + msg
				}
			}
		}
		if msg := grow(b, got); msg != "" {
			return "after " + me.name + ": " + msg
		}
	}
	return ""
}

func search(w *core.W, b box, m []T, k int32) string {
	exists := false
	for _, t := range m {
		exists = exists || t.K == k
	}
	for way := 0; way < 2; way++ {
		var r gost.Option[gost.USize]
		name := "BinarySearch"
		if way == 0 {
			r = b.BinarySearch(T{k, 12345})
		} else {
			name = "BinarySearchBy"
			r = b.BinarySearchBy(func(t T) gost.Ordering { return t.Cmp(T{K: k}) })
		}
		w.T++
		if bool(r.IsSome()) != exists {
			return fmt.Sprintf("%s(%d) on %v = %s", name, k, m, ref.Opt(r))
		}
		if exists {
			i := r.Unwrap()
			if i >= gost.USize(len(m)) || m[i].K != k {
				return fmt.Sprintf("%s(%d) on %v = Some(%d), which does not hold it", name, k, m, i)
			}
		}
	}
	return ""
}

func layouts(n int, thorough bool) []layout {
	ls := []layout{{"Vec", false, 0, 0, false}, {"Vec+spare", false, 2, 0, true}}
	maxExtra := 2
	if thorough {
		maxExtra = 3
	}
	for x := 0; x <= maxExtra; x++ {
		cp := n + x
		if cp == 0 {
			continue
		}
		for h := 0; h < cp; h++ {
			ls = append(ls, layout{fmt.Sprintf("VecDeque(cap=%d,start=%d)", cp, h), true, x, h, (x+h)%2 == 0})
		}
	}
	return ls
}

func dedupRun(m []T, key func(T) int32) []T {
	out := []T{}
	for i, t := range m {
		if i == 0 || key(t) != key(m[i-1]) {
			out = append(out, t)
		}
	}
	return out
}

func main() {
	core.Main("C09", func(c *core.C) {
		c.Assume("the given order is a lawful strict weak order; binary search is asked of sorted containers only",
			"VecDeque.Dedup takes a key function that it ignores in favour of the elements' Eq: checked with the key that Eq compares")
		maxSort, maxSearch, maxDedup := 6, 11, 7
		if c.Thorough {
			maxSort, maxSearch, maxDedup = 7, 15, 9
		}
		for n := 0; n <= maxSort; n++ {
			c.Part(fmt.Sprintf("sort:%d", n), "every order type (with ties) of this length x every ring layout x 4 methods x 5 orders", func() {
				all := explore.AllWeakOrders(n)
				ls := layouts(n, c.Thorough && n < maxSort)
				c.Sample("%s %v: Sort, SortBy, SortUnstable, SortUnstableBy", ls[len(ls)-1].name, all[len(all)/3])
				c.Par(len(all), func(w *core.W, i int) {
					for _, l := range ls {
						if c.Stopped() {
							return
						}
						name := func() string { return fmt.Sprintf("sort %s %v", l.name, all[i]) }
						w.Begin(name)
						w.S++
						w.V++
						if msg := sortOne(w, l, all[i]); msg != "" {
							c.Fail(name(), "%s: %s", name(), msg)
							return
						}
					}
				})
			})
		}
		lens := []int{8, 11, 12, 13, 14, 19, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}
		if c.Thorough {
			for n := 8; n < 200; n++ {
				lens = append(lens, n)
			}
			lens = append(lens, 2000, 2047, 2048, 4095, 4096, 8193, 10000)
		}
		c.Part("sort:large", "12 arrangements at lengths around every internal threshold, Vec and VecDeque at 4 ring positions", func() {
			c.Par(len(lens), func(w *core.W, li int) {
				n := lens[li]
				ls := []layout{{"Vec", false, 0, 0, false}, {"VecDeque(start=0)", true, 0, 0, false}, {"VecDeque(start=1)", true, 0, 1, true},
					{"VecDeque(start=mid)", true, 3, n / 2, false}, {"VecDeque(start=last)", true, 1, n, true}}
				for pn, p := range explore.Patterns(n) {
					seq := make([]int8, n)
					for i, x := range p {
						seq[i] = int8(x % 100)
					}
					for _, l := range ls {
						name := func() string { return fmt.Sprintf("sort %s %s(%d)", l.name, pn, n) }
						w.Begin(name)
						w.S++
						w.V++
						if msg := sortOne(w, l, seq); msg != "" {
							c.Fail(name(), "%s: %s", name(), msg)
							return
						}
					}
				}
			})
		})
		c.Part("search", fmt.Sprintf("every sorted order type (compositions) of length <= %d, every present and absent key, every ring layout up to length 7", maxSearch), func() {
			type job struct{ n, mask int }
			var jobs []job
			for n := 0; n <= maxSearch; n++ {
				top := 1
				if n > 1 {
					top = 1 << (n - 1)
				}
				for mask := 0; mask < top; mask++ {
					jobs = append(jobs, job{n, mask})
				}
			}
			c.Par(len(jobs), func(w *core.W, ji int) {
				j := jobs[ji]
				seq := make([]int8, j.n)
				k := int8(1)
				for i := range seq {
					if i > 0 && j.mask>>(i-1)&1 == 1 {
						k += 2
					}
					seq[i] = k
				}
				ls := layouts(j.n, true)
				if j.n > 7 {
					ls = []layout{ls[0], ls[1], {"VecDeque(start=0)", true, 0, 0, false}, {"VecDeque(start=1)", true, 0, 1, false}, {"VecDeque(start=mid)", true, 1, j.n / 2, true}, {"VecDeque(start=last)", true, 0, j.n - 1, true}}
				}
				for _, l := range ls {
					name := func() string { return fmt.Sprintf("search %s %v", l.name, seq) }
					w.Begin(name)
					b, m := l.build(seq)
					w.S++
					for key := int32(0); key <= int32(k)+1; key++ {
						if msg := search(w, b, m, key); msg != "" {
							c.Fail(name(), "%s: %s", name(), msg)
							return
						}
					}
					w.V++
				}
			})
		})
		large := []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049}
		c.Part("search:large", "sorted lengths <= 300 and around powers of two to 2049 with no, few and many ties, every key", func() {
			c.Par(301+len(large), func(w *core.W, n int) {
				if n > 300 {
					n = large[n-301]
				}
				for _, div := range []int{1, 2, 5, 40} {
					name := func() string { return fmt.Sprintf("search large n=%d ties=%d", n, div) }
					w.Begin(name)
					v := gost.VecNew[T]()
					d := gost.VecDequeWithCapacity[T](gost.USize(n + 1))
					for i := 0; i < n/2; i++ {
						d.PushBack(T{})
						d.PopFront()
					}
					var m []T
					for i := 0; i < n; i++ {
						t := T{int32(2 * (i / div)), int32(i)}
						v.Push(t)
						d.PushBack(t)
						m = append(m, t)
					}
					w.S++
					w.V++
					for key := int32(-1); key <= int32(2*n/div+1); key++ {
						for _, b := range []box{&v, &d} {
							if msg := search(w, b, m, key); msg != "" {
								c.Fail(name(), "%s: %s", name(), msg)
								return
							}
						}
					}
				}
			})
		})
		letters := 3
		for n := 0; n <= maxDedup; n++ {
			c.Part(fmt.Sprintf("dedup-retain:%d", n), "every content over 3 keys x every layout: Dedup, DedupByKey with 4 key functions, Retain with every set of keys", func() {
				total := 1
				for i := 0; i < n; i++ {
					total *= letters
				}
				ls := layouts(n, false)
				c.Par(total, func(w *core.W, code int) {
					seq := make([]int8, n)
					x := code
					for i := range seq {
						seq[i] = int8(x % letters)
						x /= letters
					}
					for _, l := range ls {
						if c.Stopped() {
							return
						}
						w.S++
						try := func(what string, run func(b box), want func(m []T) []T) {
							name := func() string { return fmt.Sprintf("%s %s %v", what, l.name, seq) }
							w.Begin(name)
							b, m := l.build(seq)
							run(b)
							w.T++
							w.V++
							got, msg := contents(b)
							if wm := want(m); msg == "" && !ref.Same(got, wm) {
								msg = fmt.Sprintf("leaves %v of %v, want %v", got, m, wm)
							}
							if msg == "" {
								msg = grow(b, got)
							}
							if msg != "" {
								c.Fail(name(), "%s: %s", name(), msg)
							}
						}
						byK := func(t T) int32 { return t.K }
						try("Dedup", func(b box) {
							if v, ok := b.(*gost.Vec[T]); ok {
								v.Dedup()
							} else {
								b.(*gost.VecDeque[T]).Dedup(func(t T) any { return t.K })
							}
						}, func(m []T) []T { return dedupRun(m, byK) })
						if !l.deque {
							keys := []func(t T) int32{byK, func(t T) int32 { return t.K / 2 }, func(t T) int32 { return 0 }, func(t T) int32 { return -t.K }}
							for ki, kf := range keys {
								try(fmt.Sprintf("DedupByKey(%d)", ki), func(b box) {
									b.(*gost.Vec[T]).DedupByKey(func(t T) any { return gost.I32(kf(t)) })
								}, func(m []T) []T { return dedupRun(m, kf) })
							}
						}
						for set := 0; set < 1<<letters; set++ {
							try(fmt.Sprintf("Retain(keys %03b)", set), func(b box) {
								b.Retain(func(t T) gost.Bool { return set>>t.K&1 == 1 })
							}, func(m []T) []T {
								out := []T{}
								for _, t := range m {
									if set>>t.K&1 == 1 {
										out = append(out, t)
									}
								}
								return out
							})
						}
					}
				})
			})
		}
		primitives(c)
		c.Part("plain-elements", "Vec.Dedup with element types that have no Eq of their own (Go integers, strings, structs, slices, arrays) and DedupByKey with comparable keys of those types: every content of length <= 6 over 3 values", func() {
			c.Solo(func(w *core.W) {
				type st struct {
					A int
					b []string
				}
				plain(c, w, "int", []int{0, 1, -1})
				plain(c, w, "string", []string{"", "a", "aa"})
				plain(c, w, "struct", []st{{}, {1, []string{"x"}}, {1, []string{"y"}}})
				plain(c, w, "slice", [][]int{{}, {1}, {1, 2}})
				plain(c, w, "array", [][2]int{{}, {0, 1}, {1, 0}})
				plain(c, w, "any", []any{1, "1", gost.I32(1)})
			})
		})
	})
}

// plain: two elements are the same value when they have the same index in vals.
func plain[E any](c *core.C, w *core.W, tname string, vals []E) {
	type wrap struct {
		id  int
		key E
	}
	fresh := func(e E) E { // another copy: equality must not depend on the address
		if s, ok := any(e).([]int); ok {
			return any(append([]int{}, s...)).(E)
		}
		return e
	}
	for n := 0; n <= 6; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(vals)
		}
		for code := 0; code < total; code++ {
			seq, want := make([]int, n), []int{}
			x := code
			for i := range seq {
				seq[i] = x % len(vals)
				x /= len(vals)
				if i == 0 || seq[i] != seq[i-1] {
					want = append(want, i)
				}
			}
			w.Begin(func() string { return fmt.Sprint("Dedup of ", tname, " ", seq) })
			w.S++
			w.T += 2
			w.V += 2
			v, u := gost.VecNew[E](), gost.VecNew[wrap]()
			for i, s := range seq {
				v.Push(fresh(vals[s]))
				u.Push(wrap{i, fresh(vals[s])})
			}
			v.Dedup()
			comparable := reflect.TypeFor[E]().Comparable() // keys are compared with ==
			if comparable {
				u.DedupByKey(func(x wrap) any { return x.key })
			}
			ok := int(v.Len()) == len(want) && (!comparable || int(u.Len()) == len(want))
			for i := 0; ok && i < len(want); i++ {
				ok = reflect.DeepEqual(v.GetUnchecked(gost.USize(i)), vals[seq[want[i]]]) && (!comparable || u.GetUnchecked(gost.USize(i)).id == want[i])
			}
			if !ok {
				c.Fail(fmt.Sprint("Dedup ", tname, " ", seq), "of %s elements %v: Dedup leaves %v, DedupByKey %v, want the elements at %v", tname, seq, v, u, want)
			}
		}
	}
}

// primitives: the same on the library's own element types (their Cmp and Eq).
func primitives(c *core.C) {
	c.Part("primitive-elements", "every content of length <= 4 over 4 boundary values of I32, U64, F64, String, Bool, Byte: Sort, SortUnstable, BinarySearch, Dedup on Vec and VecDeque", func() {
		c.Solo(func(w *core.W) {
			prim(c, w, "I32", []gost.I32{-2147483648, -1, 0, 2147483647}, func(a, b gost.I32) bool { return a < b })
			prim(c, w, "U64", []gost.U64{0, 1, 1 << 63, 1<<64 - 1}, func(a, b gost.U64) bool { return a < b })
			prim(c, w, "I64", []gost.I64{-1 << 63, -1, 1, 1<<63 - 1}, func(a, b gost.I64) bool { return a < b })
			prim(c, w, "U8", []gost.U8{0, 127, 128, 255}, func(a, b gost.U8) bool { return a < b })
			prim(c, w, "F64", []gost.F64{-1e300, -0.5, 0, 3}, func(a, b gost.F64) bool { return a < b })
			prim(c, w, "String", []gost.String{"", "a", "a\x00", "é"}, func(a, b gost.String) bool { return strings.Compare(string(a), string(b)) < 0 })
			prim(c, w, "Bool", []gost.Bool{false, true}, func(a, b gost.Bool) bool { return !bool(a) && bool(b) })
			prim(c, w, "Byte", []gost.Byte{0, 127, 128, 255}, func(a, b gost.Byte) bool { return a < b })
		})
	})
}

func prim[P interface {
	comparable
	gost.Ord[P]
}](c *core.C, w *core.W, tn string, vals []P, less func(a, b P) bool) {
	for n := 0; n <= 4; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(vals)
		}
		for code := 0; code < total; code++ {
			seq := make([]P, n)
			x := code
			for i := range seq {
				seq[i] = vals[x%len(vals)]
				x /= len(vals)
			}
			want := ref.Copy(seq)
			sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
			var dd []P
			for i, p := range seq {
				if i == 0 || p != seq[i-1] {
					dd = append(dd, p)
				}
			}
			for start := 0; start <= n; start++ {
				name := func() string { return fmt.Sprintf("%s %v start %d", tn, seq, start) }
				w.Begin(name)
				w.S++
				w.V++
				mk := func() (gost.Vec[P], gost.VecDeque[P]) {
					v := gost.VecNew[P]()
					d := gost.VecDequeWithCapacity[P](gost.USize(n + 1))
					for i := 0; i < start; i++ {
						d.PushBack(vals[0])
						d.PopFront()
					}
					for _, p := range seq {
						v.Push(p)
						d.PushBack(p)
					}
					return v, d
				}
				v, d := mk()
				v.Sort()
				d.Sort()
				v2, d2 := mk()
				v2.SortUnstable()
				d2.SortUnstable()
				v3, d3 := mk()
				v3.Dedup()
				d3.Dedup(func(p P) any { return p })
				w.T += 6
				for i, g := range [][]P{v.AsSlice(), d.AsSlice(), v2.AsSlice(), d2.AsSlice()} {
					if !ref.Same(g, want) {
						c.Fail(name(), "%s: sort %d gives %v, want %v", name(), i, g, want)
						return
					}
				}
				for i, g := range [][]P{v3.AsSlice(), d3.AsSlice()} {
					if !ref.Same(g, dd) {
						c.Fail(name(), "%s: dedup %d gives %v, want %v", name(), i, g, dd)
						return
					}
				}
				for _, p := range vals {
					has := false
					for _, q := range seq {
						has = has || p == q
					}
					for i, r := range []gost.Option[gost.USize]{v.BinarySearch(p), d.BinarySearch(p)} {
						if bool(r.IsSome()) != has || has && want[r.Unwrap()] != p {
							c.Fail(name(), "%s: search %d for %v gives %s in %v", name(), i, p, ref.Opt(r), want)
							return
						}
					}
				}
			}
		}
	}
}
