// C19: Option combinators follow the Some/None algebra.
package main

import (
	"errors"
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
)

// dom is a value type: its values, how to show one completely, and a mapping.
type dom[T any] struct {
	name string
	vals []T
	show func(T) string
	f    func(T) T
}

// mo is the model of an option: nil is None.
type mo[T any] struct{ v *T }

func (d *dom[T]) model(m mo[T]) string {
	if m.v == nil {
		return "None"
	}
	return "Some(" + d.show(*m.v) + ")"
}

func (d *dom[T]) real(o gost.Option[T]) string {
	some, none := bool(o.IsSome()), bool(o.IsNone())
	switch {
	case some && !none:
		return "Some(" + d.show(o.Unwrap()) + ")"
	case none && !some:
		return "None"
	}
	return fmt.Sprintf("IsSome() = %v and IsNone() = %v", some, none)
}

type st[T any] struct {
	d   *dom[T]
	o   *gost.Option[T]
	m   mo[T]
	ptr *T             // last pointer handed out, still the contained value
	out gost.Option[T] // last option returned by Take or Replace
	was string         // and what it showed then; "" if there is none
}

func (s *st[T]) clone() gost.Option[T] { return *s.o }

// rec counts calls and remembers arguments.
type rec struct{ log string }

func (r *rec) call(what string) { r.log += what + ";" }

// observe runs every query with every argument and compares with the algebra.
func (s *st[T]) observe(w func(n int)) string {
	d := s.d
	n := 0
	defer func() { w(n) }()
	fail := ""
	eq := func(what, got, want string) bool {
		n++
		if fail == "" && got != want {
			fail = fmt.Sprintf("%s on %s gives %s, want %s", what, d.model(s.m), got, want)
		}
		if fail == "" {
			if now := d.real(*s.o); now != d.model(s.m) {
				fail = fmt.Sprintf("%s on %s changed the option to %s", what, d.model(s.m), now)
			}
		}
		return fail == ""
	}
	if !eq("looking", d.real(*s.o), d.model(s.m)) {
		return fail
	}
	if s.was != "" {
		if now := d.real(s.out); now != s.was {
			return fmt.Sprintf("what Take or Replace returned was %s and is %s after later changes to the option", s.was, now)
		}
	}
	some := s.m.v != nil
	cur := ""
	if some {
		cur = d.show(*s.m.v)
	}
	calls := func(what, arg string, want bool) string { // expected log
		if want {
			return what + "(" + arg + ");"
		}
		return ""
	}
	// panics
	for i, q := range []func() T{func() T { return s.o.Unwrap() }, func() T { return s.o.Expect("the message") }} {
		var got string
		p := core.Try(func() { got = d.show(q()) })
		if p != nil {
			got = "panic"
			if m, ok := p.(string); i == 1 && (!ok || m != "the message") {
				got = fmt.Sprintf("panic with %v", p)
			}
		}
		want := cur
		if !some {
			want = "panic"
		}
		if !eq([]string{"Unwrap", "Expect"}[i], got, want) {
			return fail
		}
	}
	for _, b := range []bool{false, true} {
		r := &rec{}
		pr := func(x T) gost.Bool { r.call("p(" + d.show(x) + ")"); return gost.Bool(b) }
		if !eq("IsSomeAnd", fmt.Sprint(s.o.IsSomeAnd(pr), r.log), fmt.Sprint(some && b, calls("p", cur, some))) {
			return fail
		}
		r.log = ""
		want := "None"
		if some && b {
			want = d.model(s.m)
		}
		if !eq("Filter", d.real(s.o.Filter(pr))+r.log, want+calls("p", cur, some)) {
			return fail
		}
	}
	{
		r := &rec{}
		f := func(x T) T { r.call("f(" + d.show(x) + ")"); return d.f(x) }
		mapped := "None"
		if some {
			mapped = "Some(" + d.show(d.f(*s.m.v)) + ")"
		}
		if !eq("Map", d.real(s.o.Map(f))+r.log, mapped+calls("f", cur, some)) {
			return fail
		}
		for _, v := range d.vals {
			r.log = ""
			want := d.show(v)
			if some {
				want = d.show(d.f(*s.m.v))
			}
			if !eq("MapOr", d.show(s.o.MapOr(v, f))+r.log, want+calls("f", cur, some)) {
				return fail
			}
			r.log = ""
			def := func() T { r.call("def()"); return v }
			if !eq("MapOrElse", d.show(s.o.MapOrElse(def, f))+r.log, want+calls("f", cur, some)+calls("def", "", !some)) {
				return fail
			}
			want = d.show(v)
			if some {
				want = cur
			}
			if !eq("UnwrapOr", d.show(s.o.UnwrapOr(v)), want) {
				return fail
			}
			r.log = ""
			if !eq("UnwrapOrElse", d.show(s.o.UnwrapOrElse(def))+r.log, want+calls("def", "", !some)) {
				return fail
			}
		}
	}
	// other options
	others := []gost.Option[T]{gost.None[T]()}
	for _, v := range d.vals {
		others = append(others, gost.Some(v))
	}
	for _, o := range others {
		so := d.real(o)
		r := &rec{}
		want := so
		if some {
			want = d.model(s.m)
		}
		if !eq("Or("+so+")", d.real(s.o.Or(o)), want) {
			return fail
		}
		if !eq("OrElse("+so+")", d.real(s.o.OrElse(func() gost.Option[T] { r.call("f()"); return o }))+r.log, want+calls("f", "", !some)) {
			return fail
		}
		want = "None"
		if some != bool(o.IsSome()) {
			want = so
			if some {
				want = d.model(s.m)
			}
		}
		if !eq("Xor("+so+")", d.real(s.o.Xor(o)), want) {
			return fail
		}
		if d.real(o) != so {
			return "the argument " + so + " became " + d.real(o)
		}
	}
	// And and AndThen give an Option[any]
	anys := []gost.Option[any]{gost.None[any](), gost.Some[any](nil), gost.Some[any](gost.I32(7)), gost.Some[any]("x")}
	showAny := func(o gost.Option[any]) string {
		if o.IsNone() {
			return "None"
		}
		return fmt.Sprintf("Some(%v)", o.Unwrap())
	}
	for _, a := range anys {
		r := &rec{}
		want := "None"
		if some {
			want = showAny(a)
		}
		if !eq("And("+showAny(a)+")", showAny(s.o.And(a)), want) {
			return fail
		}
		got := s.o.AndThen(func(x T) gost.Option[any] { r.call("f(" + d.show(x) + ")"); return a })
		if !eq("AndThen("+showAny(a)+")", showAny(got)+r.log, want+calls("f", cur, some)) {
			return fail
		}
	}
	return fail
}

type op[T any] struct {
	name string
	need func(s *st[T]) bool
	run  func(s *st[T]) string
}

func mutators[T any](d *dom[T]) []op[T] {
	any := func(*st[T]) bool { return true }
	var out []op[T]
	// through checks the pointer handed out: it holds the value and is the place
	through := func(s *st[T], what string, p *T, want T) string {
		if p == nil {
			return what + " returns nil"
		}
		if d.show(*p) != d.show(want) {
			return fmt.Sprintf("%s returns a pointer to %s, want %s", what, d.show(*p), d.show(want))
		}
		s.ptr = p
		return ""
	}
	for i, v := range d.vals {
		out = append(out,
			op[T]{fmt.Sprintf("Insert(%d)", i), any, func(s *st[T]) string {
				s.m.v = &v
				return through(s, "Insert", s.o.Insert(v), v)
			}},
			op[T]{fmt.Sprintf("GetOrInsert(%d)", i), any, func(s *st[T]) string {
				if s.m.v == nil {
					s.m.v = &v
				}
				return through(s, "GetOrInsert", s.o.GetOrInsert(v), *s.m.v)
			}},
			op[T]{fmt.Sprintf("GetOrInsertWith(%d)", i), any, func(s *st[T]) string {
				calls, want := 0, 0
				if s.m.v == nil {
					s.m.v = &v
					want = 1
				}
				msg := through(s, "GetOrInsertWith", s.o.GetOrInsertWith(func() T { calls++; return v }), *s.m.v)
				if msg == "" && calls != want {
					return fmt.Sprintf("GetOrInsertWith calls its function %d times, want %d", calls, want)
				}
				return msg
			}},
			op[T]{fmt.Sprintf("Replace(%d)", i), any, func(s *st[T]) string {
				want := d.model(s.m)
				got := s.o.Replace(v)
				s.m.v = &v
				s.ptr = nil
				if d.real(got) != want {
					return fmt.Sprintf("Replace returns %s, want %s", d.real(got), want)
				}
				s.out, s.was = got, want
				return ""
			}},
			op[T]{fmt.Sprintf("write %d through the returned pointer", i), func(s *st[T]) bool { return s.ptr != nil }, func(s *st[T]) string {
				*s.ptr = v
				s.m.v = &v
				return ""
			}})
	}
	return append(out, op[T]{"Take", any, func(s *st[T]) string {
		want := d.model(s.m)
		got := s.o.Take()
		s.m.v = nil
		s.ptr = nil
		if d.real(got) != want {
			return fmt.Sprintf("Take returns %s, want %s", d.real(got), want)
		}
		s.out, s.was = got, want
		return ""
	}})
}

func run[T any](c *core.C, d *dom[T], depth int) {
	list := mutators(d)
	for start := -1; start < len(d.vals); start++ {
		name := "None"
		if start >= 0 {
			name = "Some(" + d.show(d.vals[start]) + ")"
		}
		c.Part(d.name+" "+name, fmt.Sprintf("every sequence of %d mutators to length %d; in every state every query with every argument and answer of its callbacks", len(list), depth), func() {
			m := &explore.Machine[*st[T]]{
				Name: name, Depth: depth,
				Init: func() *st[T] {
					s := &st[T]{d: d}
					if start < 0 {
						o := gost.None[T]()
						s.o = &o
					} else {
						o := gost.Some(d.vals[start])
						v := d.vals[start]
						s.o, s.m.v = &o, &v
					}
					return s
				},
				Enabled: func(s *st[T], o int) bool { return list[o].need(s) },
				Apply:   func(s *st[T], o int) string { return list[o].run(s) },
				Observe: func(s *st[T]) string { return s.observe(func(n int) { c.Trans(n) }) },
			}
			for _, o := range list {
				m.Ops = append(m.Ops, o.name)
			}
			m.Run(c)
		})
	}
}

func main() {
	core.Main("C19", func(c *core.C) {
		depth := 4
		if c.Thorough {
			depth = 5
		}
		run(c, &dom[gost.I32]{"I32", []gost.I32{0, 1, -5}, func(x gost.I32) string { return fmt.Sprint(int32(x)) }, func(x gost.I32) gost.I32 { return x*2 + 1 }}, depth)
		run(c, &dom[gost.String]{"String", []gost.String{"", "a", "é"}, func(x gost.String) string { return fmt.Sprintf("%q", string(x)) }, func(x gost.String) gost.String { return x + "!" }}, depth)
		run(c, &dom[gost.Bool]{"Bool", []gost.Bool{false, true}, func(x gost.Bool) string { return fmt.Sprint(bool(x)) }, func(x gost.Bool) gost.Bool { return !x }}, depth)
		k := 3
		run(c, &dom[*int]{"pointer (nil is a value)", []*int{nil, &k}, func(x *int) string {
			if x == nil {
				return "nil"
			}
			return fmt.Sprint("*", *x)
		}, func(x *int) *int {
			if x == nil {
				return &k
			}
			return nil
		}}, depth)
		e := errors.New("e")
		run(c, &dom[error]{"error (nil is a value)", []error{nil, e}, func(x error) string { return fmt.Sprint(x) }, func(x error) error {
			if x == nil {
				return e
			}
			return nil
		}}, depth)
		type O = gost.Option[gost.I32]
		inner := &dom[gost.I32]{show: func(x gost.I32) string { return fmt.Sprint(int32(x)) }}
		run(c, &dom[O]{"Option[I32]", []O{gost.None[gost.I32](), gost.Some(gost.I32(0)), gost.Some(gost.I32(4))}, inner.real, func(x O) O {
			if x.IsNone() {
				return gost.Some(gost.I32(9))
			}
			return gost.None[gost.I32]()
		}}, depth)
		run(c, &dom[[]int]{"slice (nil is a value)", [][]int{nil, {}, {1}}, func(x []int) string { return fmt.Sprint(x == nil, x) }, func(x []int) []int { return append(append([]int{}, x...), 8) }}, depth)
	})
}
