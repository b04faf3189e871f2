// Package eltypes explores the collections with element types whose zero
// value, nil value, size or comparability is unusual: interfaces (with nil and
// typed nil), pointers, empty structs, slices, maps, functions, errors,
// options, arrays. The containers must treat all of them as opaque values.
package eltypes

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
)

// Kind is an element type with its values.
type Kind[T any] struct {
	Name string
	Vals []T
	Same func(a, b T) bool
	Key  bool // usable as a map key
}

func show[T any](v T) string { return fmt.Sprintf("%T(%+v)", v, v) }

type Big struct {
	S string
	A [4]int64
	P *int
}

var (
	zeroA, zeroB = new(int), new(int)
	errA, errB   = errors.New("e"), errors.New("e")
)

func eq[T comparable](a, b T) bool { return a == b }

func kAny() Kind[any] {
	return Kind[any]{"any", []any{nil, 0, gost.I32(0), (*int)(nil), ""}, eq[any], true}
}
func kPtr() Kind[*int] {
	return Kind[*int]{"*int", []*int{nil, zeroA, zeroB}, eq[*int], true}
}
func kUnit() Kind[struct{}] {
	return Kind[struct{}]{"struct{}", []struct{}{{}}, eq[struct{}], true}
}
func kSlice() Kind[[]int] {
	return Kind[[]int]{"[]int", [][]int{nil, {}, {1}}, func(a, b []int) bool { return reflect.DeepEqual(a, b) }, false}
}
func kMap() Kind[map[int]int] {
	return Kind[map[int]int]{"map[int]int", []map[int]int{nil, {}, {0: 0}}, func(a, b map[int]int) bool { return reflect.DeepEqual(a, b) }, false}
}
func kFunc() Kind[func() int] {
	return Kind[func() int]{"func() int", []func() int{nil, func() int { return 1 }, func() int { return 2 }}, func(a, b func() int) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return a() == b()
	}, false}
}
func kErr() Kind[error] {
	return Kind[error]{"error", []error{nil, errA, errB}, eq[error], true}
}
func kOpt() Kind[gost.Option[gost.I32]] {
	type O = gost.Option[gost.I32]
	return Kind[O]{"Option", []O{gost.None[gost.I32](), gost.Some[gost.I32](0), gost.Some[gost.I32](1), {}}, func(a, b O) bool {
		if a.IsNone() || b.IsNone() {
			return bool(a.IsNone() && b.IsNone())
		}
		return a.Unwrap() == b.Unwrap()
	}, false}
}
func kBool() Kind[gost.Bool] {
	return Kind[gost.Bool]{"Bool", []gost.Bool{false, true}, eq[gost.Bool], true}
}
func kString() Kind[gost.String] {
	return Kind[gost.String]{"String", []gost.String{"", "\x00", "a"}, eq[gost.String], true}
}
func kU64() Kind[gost.U64] {
	return Kind[gost.U64]{"U64", []gost.U64{0, ^gost.U64(0), 1 << 63}, eq[gost.U64], true}
}
func kArr() Kind[[0]int] {
	return Kind[[0]int]{"[0]int", [][0]int{{}}, eq[[0]int], true}
}
func kBig() Kind[Big] {
	return Kind[Big]{"struct", []Big{{}, {S: "x", P: zeroA}, {A: [4]int64{0, 0, 0, 1}}}, eq[Big], true}
}
func kChan() Kind[chan int] {
	return Kind[chan int]{"chan int", []chan int{nil, make(chan int), make(chan int, 1)}, eq[chan int], true}
}

// seqSame compares real elements with model indices.
func (k *Kind[T]) seq(got []T, want []int) string {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = k.Same(got[i], k.Vals[want[i]])
	}
	if !ok {
		return fmt.Sprintf("%s, want %s", k.show(got), k.wants(want))
	}
	return ""
}

func (k *Kind[T]) show(got []T) string {
	s := "["
	for i, v := range got {
		if i > 0 {
			s += " "
		}
		s += show(v)
	}
	return s + "]"
}

func (k *Kind[T]) wants(want []int) string {
	var l []T
	for _, i := range want {
		l = append(l, k.Vals[i])
	}
	return k.show(l)
}

func (k *Kind[T]) opt(what string, o gost.Option[T], want int) string {
	some, none := bool(o.IsSome()), bool(o.IsNone())
	if want < 0 {
		if some || !none {
			return what + " is not None"
		}
		return ""
	}
	if !some || none {
		return what + " is None, want Some(" + show(k.Vals[want]) + ")"
	}
	if v := o.Unwrap(); !k.Same(v, k.Vals[want]) {
		return fmt.Sprintf("%s = Some(%s), want Some(%s)", what, show(v), show(k.Vals[want]))
	}
	return ""
}

func drain[T any](it gost.Iterator[T], max int) (out []T, over bool) {
	for i := 0; i < max+2; i++ {
		o := it.Next()
		if o.IsNone() {
			break
		}
		out = append(out, o.Unwrap())
	}
	return out, bool(it.Next().IsSome()) || bool(it.Next().IsSome())
}

// iters checks iteration and every adaptor after 0, 1 and all elements.
func (k *Kind[T]) iters(mk func() gost.Iterator[T], want []int) string {
	n := len(want)
	got, over := drain(mk(), n)
	if msg := k.seq(got, want); msg != "" || over {
		return "iteration yields " + msg
	}
	same0 := func(v T) gost.Bool { return gost.Bool(k.Same(v, k.Vals[0])) }
	next := func(v T) T { // cyclic successor
		for i, x := range k.Vals {
			if k.Same(v, x) {
				return k.Vals[(i+1)%len(k.Vals)]
			}
		}
		return v
	}
	idx := func(i int) int { // canonical index of the successor
		v := next(k.Vals[i])
		for j, x := range k.Vals {
			if k.Same(v, x) {
				return j
			}
		}
		return i
	}
	for skip := 0; skip <= n && skip <= 2; skip++ {
		start := func() gost.Iterator[T] {
			it := mk()
			for i := 0; i < skip; i++ {
				it.Next()
			}
			return it
		}
		rest := want[skip:]
		var filt, mapped, rev []int
		for _, i := range rest {
			if k.Same(k.Vals[i], k.Vals[0]) {
				filt = append(filt, i)
			}
			mapped = append(mapped, idx(i))
			rev = append([]int{i}, rev...)
		}
		for _, x := range []struct {
			name string
			it   gost.Iterator[T]
			want []int
		}{{"Filter", start().Filter(same0), filt}, {"Map", start().Map(next), mapped}, {"Rev", start().Rev(), rev}} {
			got, over := drain(x.it, n)
			if msg := k.seq(got, x.want); msg != "" || over {
				return fmt.Sprintf("%s after %d elements yields %s", x.name, skip, msg)
			}
		}
		v := start().CollectToVec()
		if msg := k.seq(v.AsSlice(), rest); msg != "" {
			return fmt.Sprintf("CollectToVec after %d elements gives %s", skip, msg)
		}
		l := start().CollectToLinkedList()
		var out []T
		for i := 0; i <= n; i++ {
			o := l.PopFront()
			if o.IsNone() {
				break
			}
			out = append(out, o.Unwrap())
		}
		if msg := k.seq(out, rest); msg != "" {
			return fmt.Sprintf("CollectToLinkedList after %d elements gives %s", skip, msg)
		}
		last := start().Fold(k.Vals[0], func(a, b T) T { return b })
		w := 0
		if len(rest) > 0 {
			w = rest[len(rest)-1]
		}
		if !k.Same(last, k.Vals[w]) {
			return fmt.Sprintf("Fold keeping the last after %d elements gives %s, want %s", skip, show(last), show(k.Vals[w]))
		}
	}
	return ""
}

type op[S any] struct {
	name string
	run  func(s S) string
}

func run[S any](c *core.C, name string, depth int, init func() S, ops []op[S], observe func(S) string) {
	names := make([]string, len(ops))
	for i := range ops {
		names[i] = ops[i].name
	}
	c.Part(name, fmt.Sprintf("every sequence of %d operations to length %d, without merging, all observers and iterator adaptors after each", len(ops), depth), func() {
		m := &explore.Machine[S]{Name: name, Init: init, Ops: names, Depth: depth, Observe: observe,
			Apply: func(s S, i int) string { return ops[i].run(s) }}
		m.Run(c)
	})
}

func ins(m []int, i, v int) []int {
	out := append([]int{}, m[:i]...)
	out = append(out, v)
	return append(out, m[i:]...)
}

func cp(m []int) []int { return append([]int{}, m...) }

func (k *Kind[T]) drop0(m []int) (out []int) {
	for _, i := range m {
		if !k.Same(k.Vals[i], k.Vals[0]) {
			out = append(out, i)
		}
	}
	return
}

func rev(m []int) (out []int) {
	for i := len(m) - 1; i >= 0; i-- {
		out = append(out, m[i])
	}
	return
}

// depthFor keeps the number of sequences about equal for every kind.
func depthFor(ops int, budget float64) int {
	d, n := 0, 1.0
	for n*float64(ops) <= budget {
		n *= float64(ops)
		d++
	}
	return d
}

func budget(c *core.C) float64 {
	if c.Thorough {
		return 2e7
	}
	return 4e5
}
