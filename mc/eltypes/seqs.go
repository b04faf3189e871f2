package eltypes

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

type vecSt[T any] struct {
	v gost.Vec[T]
	m []int
}

func vec[T any](c *core.C, k Kind[T]) {
	type S = *vecSt[T]
	var ops []op[S]
	for i := range k.Vals {
		x := k.Vals[i]
		ops = append(ops,
			op[S]{"Push " + show(x), func(s S) string { s.v.Push(x); s.m = append(cp(s.m), i); return "" }},
			op[S]{"Insert(0) " + show(x), func(s S) string { s.v.Insert(0, x); s.m = ins(s.m, 0, i); return "" }},
			op[S]{"Set(0) " + show(x), func(s S) string {
				r := s.v.Set(0, x)
				if len(s.m) == 0 {
					return k.opt("Set(0) of empty", r, i)
				}
				s.m = cp(s.m)
				s.m[0] = i
				return k.opt("Set(0)", r, -1)
			}},
			op[S]{"Append " + show(x), func(s S) string {
				o := gost.VecWithCapacity[T](3)
				o.Push(x)
				s.v.Append(&o)
				s.m = append(cp(s.m), i)
				if o.Len() != 0 {
					return "Append left its source with elements"
				}
				return ""
			}})
	}
	last := len(k.Vals) - 1
	ops = append(ops,
		op[S]{"Fill last", func(s S) string {
			s.v.Fill(k.Vals[last])
			s.m = cp(s.m)
			for i := range s.m {
				s.m[i] = last
			}
			return ""
		}},
		op[S]{"Pop", func(s S) string {
			r := s.v.Pop()
			if len(s.m) == 0 {
				return k.opt("Pop of empty", r, -1)
			}
			w := s.m[len(s.m)-1]
			s.m = s.m[:len(s.m)-1]
			return k.opt("Pop", r, w)
		}},
		op[S]{"Reverse", func(s S) string { s.v.Reverse(); s.m = rev(s.m); return "" }},
		op[S]{"Reserve", func(s S) string { s.v.Reserve(5); return "" }},
		op[S]{"Retain(not first)", func(s S) string {
			s.v.Retain(func(v T) gost.Bool { return gost.Bool(!k.Same(v, k.Vals[0])) })
			s.m = k.drop0(s.m)
			return ""
		}},
		op[S]{"Clear", func(s S) string { s.v.Clear(); s.m = nil; return "" }},
	)
	run(c, "element type "+k.Name, depthFor(len(ops), budget(c)), func() S {
		return &vecSt[T]{v: gost.VecNew[T]()}
	}, ops, func(s S) string {
		n := gost.USize(len(s.m))
		if s.v.Len() != n || bool(s.v.IsEmpty()) != (n == 0) {
			return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d elements", s.v.Len(), s.v.IsEmpty(), n)
		}
		for i := range s.m {
			if msg := k.opt(fmt.Sprintf("Get(%d)", i), s.v.Get(gost.USize(i)), s.m[i]); msg != "" {
				return msg
			}
		}
		if msg := k.opt("Get past the end", s.v.Get(n), -1); msg != "" {
			return msg
		}
		if msg := k.seq(s.v.AsSlice(), s.m); msg != "" {
			return "AsSlice gives " + msg
		}
		return k.iters(s.v.IntoIter, s.m)
	})
}

// Vec explores Vec over the element types.
func Vec(c *core.C) {
	vec(c, kAny())
	vec(c, kPtr())
	vec(c, kUnit())
	vec(c, kSlice())
	vec(c, kFunc())
	vec(c, kErr())
	vec(c, kOpt())
	vec(c, kBool())
	vec(c, kBig())
	vec(c, kMap())
}

type deqSt[T any] struct {
	v gost.VecDeque[T]
	m []int
}

func deque[T any](c *core.C, k Kind[T]) {
	type S = *deqSt[T]
	var ops []op[S]
	for i := range k.Vals {
		x := k.Vals[i]
		ops = append(ops,
			op[S]{"PushBack " + show(x), func(s S) string { s.v.PushBack(x); s.m = append(cp(s.m), i); return "" }},
			op[S]{"PushFront " + show(x), func(s S) string { s.v.PushFront(x); s.m = ins(s.m, 0, i); return "" }},
			op[S]{"Set(0) " + show(x), func(s S) string {
				r := s.v.Set(0, x)
				if len(s.m) == 0 {
					return k.opt("Set(0) of empty", r, i)
				}
				s.m = cp(s.m)
				s.m[0] = i
				return k.opt("Set(0)", r, -1)
			}},
			op[S]{"Append " + show(x), func(s S) string {
				o := gost.VecDequeNew[T]()
				o.PushFront(x)
				s.v.Append(&o)
				s.m = append(cp(s.m), i)
				if o.Len() != 0 {
					return "Append left its source with elements"
				}
				return ""
			}})
	}
	last := len(k.Vals) - 1
	pop := func(name string, r gost.Option[T], s S, front bool) string {
		n := len(s.m)
		if n == 0 {
			return k.opt(name+" of empty", r, -1)
		}
		w := s.m[n-1]
		if front {
			w = s.m[0]
			s.m = s.m[1:]
		} else {
			s.m = s.m[:n-1]
		}
		return k.opt(name, r, w)
	}
	ops = append(ops,
		op[S]{"Fill last", func(s S) string {
			s.v.Fill(k.Vals[last])
			s.m = cp(s.m)
			for i := range s.m {
				s.m[i] = last
			}
			return ""
		}},
		op[S]{"PopBack", func(s S) string { return pop("PopBack", s.v.PopBack(), s, false) }},
		op[S]{"PopFront", func(s S) string { return pop("PopFront", s.v.PopFront(), s, true) }},
		op[S]{"Reserve", func(s S) string { s.v.Reserve(5); return "" }},
		op[S]{"Retain(not first)", func(s S) string {
			s.v.Retain(func(v T) gost.Bool { return gost.Bool(!k.Same(v, k.Vals[0])) })
			s.m = k.drop0(s.m)
			return ""
		}},
		op[S]{"Clear", func(s S) string { s.v.Clear(); s.m = nil; return "" }},
	)
	run(c, "element type "+k.Name, depthFor(len(ops), budget(c)), func() S {
		return &deqSt[T]{v: gost.VecDequeNew[T]()}
	}, ops, func(s S) string {
		n := gost.USize(len(s.m))
		if s.v.Len() != n || bool(s.v.IsEmpty()) != (n == 0) {
			return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d elements", s.v.Len(), s.v.IsEmpty(), n)
		}
		f, b := -1, -1
		for i := range s.m {
			if msg := k.opt(fmt.Sprintf("Get(%d)", i), s.v.Get(gost.USize(i)), s.m[i]); msg != "" {
				return msg
			}
			if i == 0 {
				f = s.m[0]
			}
			b = s.m[i]
		}
		if msg := k.opt("Front", s.v.Front(), f); msg != "" {
			return msg
		}
		if msg := k.opt("Back", s.v.Back(), b); msg != "" {
			return msg
		}
		if msg := k.opt("Get past the end", s.v.Get(n), -1); msg != "" {
			return msg
		}
		if msg := k.seq(s.v.AsSlice(), s.m); msg != "" {
			return "AsSlice gives " + msg
		}
		return k.iters(s.v.IntoIter, s.m)
	})
}

// Deque explores VecDeque over the element types.
func Deque(c *core.C) {
	deque(c, kAny())
	deque(c, kPtr())
	deque(c, kUnit())
	deque(c, kSlice())
	deque(c, kFunc())
	deque(c, kErr())
	deque(c, kOpt())
	deque(c, kBool())
	deque(c, kBig())
	deque(c, kMap())
}

type listSt[T any] struct {
	v gost.LinkedList[T]
	m []int
}

func list[T any](c *core.C, k Kind[T]) {
	type S = *listSt[T]
	var ops []op[S]
	for i := range k.Vals {
		x := k.Vals[i]
		ops = append(ops,
			op[S]{"PushBack " + show(x), func(s S) string { s.v.PushBack(x); s.m = append(cp(s.m), i); return "" }},
			op[S]{"PushFront " + show(x), func(s S) string { s.v.PushFront(x); s.m = ins(s.m, 0, i); return "" }},
			op[S]{"Append " + show(x), func(s S) string {
				o := gost.LinkedListNew[T]()
				o.PushFront(x)
				s.v.Append(&o)
				s.m = append(cp(s.m), i)
				if o.Len() != 0 || bool(o.Front().IsSome()) || bool(o.Back().IsSome()) {
					return "Append left its source with elements"
				}
				return ""
			}},
			op[S]{"write through Back " + show(x), func(s S) string {
				p := s.v.Back()
				if len(s.m) == 0 {
					if p.IsSome() {
						return "Back of empty is Some"
					}
					return ""
				}
				*p.Unwrap() = x
				s.m = cp(s.m)
				s.m[len(s.m)-1] = i
				return ""
			}})
	}
	ops = append(ops,
		op[S]{"PopBack", func(s S) string {
			r, n := s.v.PopBack(), len(s.m)
			if n == 0 {
				return k.opt("PopBack of empty", r, -1)
			}
			w := s.m[n-1]
			s.m = s.m[:n-1]
			return k.opt("PopBack", r, w)
		}},
		op[S]{"PopFront", func(s S) string {
			r, n := s.v.PopFront(), len(s.m)
			if n == 0 {
				return k.opt("PopFront of empty", r, -1)
			}
			w := s.m[0]
			s.m = s.m[1:]
			return k.opt("PopFront", r, w)
		}},
		op[S]{"Clear", func(s S) string { s.v.Clear(); s.m = nil; return "" }},
	)
	run(c, "element type "+k.Name, depthFor(len(ops), budget(c)), func() S {
		return &listSt[T]{v: gost.LinkedListNew[T]()}
	}, ops, func(s S) string {
		n := len(s.m)
		if s.v.Len() != gost.USize(n) || bool(s.v.IsEmpty()) != (n == 0) {
			return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d elements", s.v.Len(), s.v.IsEmpty(), n)
		}
		for i, o := range []gost.Option[*T]{s.v.Front(), s.v.Back()} {
			if (n == 0) != bool(o.IsNone()) {
				return fmt.Sprintf("Front/Back: IsNone() = %v with %d elements", o.IsNone(), n)
			}
			if n > 0 {
				if w := k.Vals[s.m[i*(n-1)]]; !k.Same(*o.Unwrap(), w) {
					return fmt.Sprintf("%s gives %s, want %s", []string{"Front", "Back"}[i], show(*o.Unwrap()), show(w))
				}
			}
		}
		return k.iters(s.v.IntoIter, s.m)
	})
}

// List explores LinkedList over the element types.
func List(c *core.C) {
	list(c, kAny())
	list(c, kPtr())
	list(c, kUnit())
	list(c, kSlice())
	list(c, kFunc())
	list(c, kErr())
	list(c, kOpt())
	list(c, kBool())
	list(c, kBig())
	list(c, kMap())
}
