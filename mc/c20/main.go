// C20: Result combinators follow the Ok/Err algebra.
package main

import (
	"errors"
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

type dom[T any] struct {
	name string
	vals []T
	show func(T) string
	f    func(T) T
}

// mr is the model: Ok(*v) or Err(e).
type mr[T any] struct {
	v *T
	e error
}

// a user's error types: with a value receiver, a pointer receiver, a zero value
type valErr struct{ n int }

func (v valErr) Error() string { return fmt.Sprint("valErr ", v.n) }

type ptrErr struct{ n int }

func (v *ptrErr) Error() string { return fmt.Sprint("ptrErr ", v == nil) }

var errs = []error{errors.New("a"), errors.New("b"), errors.New(""), valErr{}, &ptrErr{1}, (*ptrErr)(nil)}

func showE(e error) string {
	for i, x := range errs {
		if x == e {
			return fmt.Sprintf("errs[%d] %q", i, e.Error())
		}
	}
	if e == nil {
		return "nil error"
	}
	return "another error " + e.Error()
}

func (d *dom[T]) model(m mr[T]) string {
	if m.v != nil {
		return "Ok(" + d.show(*m.v) + ")"
	}
	return "Err(" + showE(m.e) + ")"
}

func (d *dom[T]) real(r gost.Result[T]) string {
	ok, er := bool(r.IsOk()), bool(r.IsErr())
	switch {
	case ok && !er:
		return "Ok(" + d.show(r.Unwrap()) + ")"
	case er && !ok:
		return "Err(" + showE(r.UnwrapErr()) + ")"
	}
	return fmt.Sprintf("IsOk() = %v and IsErr() = %v", ok, er)
}

func (d *dom[T]) all() (out []func() (gost.Result[T], mr[T])) {
	for i := range d.vals {
		out = append(out, func() (gost.Result[T], mr[T]) { v := d.vals[i]; return gost.Ok(v), mr[T]{&v, nil} })
	}
	for i := range errs {
		out = append(out, func() (gost.Result[T], mr[T]) { return gost.Err[T](errs[i]), mr[T]{nil, errs[i]} })
	}
	return
}

type rec struct{ log string }

// step is one Result-valued combinator with its expected outcome.
type step[T any] struct {
	name string
	do   func(r gost.Result[T], k *rec) gost.Result[T]
	want func(m mr[T]) (mr[T], string) // model outcome and expected calls
}

func (d *dom[T]) steps() (out []step[T]) {
	ok := func(m mr[T]) bool { return m.v != nil }
	out = append(out,
		step[T]{"Map", func(r gost.Result[T], k *rec) gost.Result[T] {
			return r.Map(func(x T) T { k.log += "f(" + d.show(x) + ");"; return d.f(x) })
		}, func(m mr[T]) (mr[T], string) {
			if !ok(m) {
				return m, ""
			}
			y := d.f(*m.v)
			return mr[T]{&y, nil}, "f(" + d.show(*m.v) + ");"
		}})
	for i := range errs {
		out = append(out, step[T]{fmt.Sprintf("MapErr(to %d)", i), func(r gost.Result[T], k *rec) gost.Result[T] {
			return r.MapErr(func(e error) error { k.log += "g(" + showE(e) + ");"; return errs[i] })
		}, func(m mr[T]) (mr[T], string) {
			if ok(m) {
				return m, ""
			}
			return mr[T]{nil, errs[i]}, "g(" + showE(m.e) + ");"
		}})
	}
	for _, mk := range d.all() {
		_, o := mk()
		name := d.model(o)
		out = append(out,
			step[T]{"And(" + name + ")", func(r gost.Result[T], k *rec) gost.Result[T] { x, _ := mk(); return r.And(x) },
				func(m mr[T]) (mr[T], string) {
					if ok(m) {
						return o, ""
					}
					return m, ""
				}},
			step[T]{"Or(" + name + ")", func(r gost.Result[T], k *rec) gost.Result[T] { x, _ := mk(); return r.Or(x) },
				func(m mr[T]) (mr[T], string) {
					if ok(m) {
						return m, ""
					}
					return o, ""
				}},
			step[T]{"AndThen(" + name + ")", func(r gost.Result[T], k *rec) gost.Result[T] {
				return r.AndThen(func(x T) gost.Result[T] { k.log += "f(" + d.show(x) + ");"; y, _ := mk(); return y })
			}, func(m mr[T]) (mr[T], string) {
				if ok(m) {
					return o, "f(" + d.show(*m.v) + ");"
				}
				return m, ""
			}},
			step[T]{"OrElse(" + name + ")", func(r gost.Result[T], k *rec) gost.Result[T] {
				return r.OrElse(func(e error) gost.Result[T] { k.log += "g(" + showE(e) + ");"; y, _ := mk(); return y })
			}, func(m mr[T]) (mr[T], string) {
				if ok(m) {
					return m, ""
				}
				return o, "g(" + showE(m.e) + ");"
			}})
	}
	return
}

// queries runs every query that does not give a Result.
func (d *dom[T]) queries(r gost.Result[T], m mr[T], n *int64) (fail string) {
	eq := func(what, got, want string) bool {
		*n++
		if got != want {
			fail = fmt.Sprintf("%s on %s gives %s, want %s", what, d.model(m), got, want)
			return false
		}
		if now := d.real(r); now != d.model(m) {
			fail = fmt.Sprintf("%s on %s changed it to %s", what, d.model(m), now)
			return false
		}
		return true
	}
	ok := m.v != nil
	okv, errv := "panic", "panic"
	if ok {
		okv = d.show(*m.v)
	} else {
		errv = showE(m.e)
	}
	try := func(f func() string, msg string) string {
		s := ""
		if p := core.Try(func() { s = f() }); p != nil {
			if t, is := p.(string); msg != "" && (!is || t != msg) {
				return fmt.Sprintf("panic with %v", p)
			}
			return "panic"
		}
		return s
	}
	if !eq("looking", d.real(r), d.model(m)) ||
		!eq("Unwrap", try(func() string { return d.show(r.Unwrap()) }, ""), okv) ||
		!eq("Expect", try(func() string { return d.show(r.Expect("msg")) }, "msg"), okv) ||
		!eq("UnwrapErr", try(func() string { return showE(r.UnwrapErr()) }, ""), errv) ||
		!eq("ExpectErr", try(func() string { return showE(r.ExpectErr("msg")) }, "msg"), errv) {
		return
	}
	o, e := r.Ok(), r.Err()
	wo, we := "None", "None"
	if ok {
		wo = okv
	} else {
		we = errv
	}
	so, se := "None", "None"
	if o.IsSome() {
		so = d.show(o.Unwrap())
	}
	if e.IsSome() {
		se = showE(e.Unwrap())
	}
	if !eq("Ok", so, wo) || !eq("Err", se, we) {
		return
	}
	for _, b := range []bool{false, true} {
		log := ""
		w1, w2 := fmt.Sprint(ok && b, ""), fmt.Sprint(!ok && b, "")
		if ok {
			w1 += "p(" + okv + ");"
		} else {
			w2 += "q(" + errv + ");"
		}
		if !eq("IsOkAnd", fmt.Sprint(r.IsOkAnd(func(x T) gost.Bool { log += "p(" + d.show(x) + ");"; return gost.Bool(b) }), "")+log, w1) {
			return
		}
		log = ""
		if !eq("IsErrAnd", fmt.Sprint(r.IsErrAnd(func(x error) gost.Bool { log += "q(" + showE(x) + ");"; return gost.Bool(b) }), "")+log, w2) {
			return
		}
	}
	for _, v := range d.vals {
		log := ""
		f := func(x T) T { log += "f(" + d.show(x) + ");"; return d.f(x) }
		def := func() T { log += "def();"; return v }
		w := d.show(v)
		wm, wl, dl := w, "", "def();"
		if ok {
			w = okv
			wm, wl, dl = d.show(d.f(*m.v)), "f("+okv+");", ""
		}
		if !eq("MapOr", d.show(r.MapOr(v, f))+log, wm+wl) {
			return
		}
		log = ""
		if !eq("MapOrElse", d.show(r.MapOrElse(def, f))+log, wm+wl+dl) {
			return
		}
		log = ""
		if !eq("UnwrapOr", d.show(r.UnwrapOr(v)), w) || !eq("UnwrapOrElse", d.show(r.UnwrapOrElse(def))+log, w+dl) {
			return
		}
	}
	return
}

func run[T any](c *core.C, d *dom[T], depth int) {
	starts := d.all()
	steps := d.steps()
	c.Part(d.name, fmt.Sprintf("%d results; every chain of %d combinators to length %d, every query with every argument at each end", len(starts), len(steps), depth), func() {
		c.Par(len(starts)*len(steps), func(w *core.W, j int) {
			s0, first := j/len(steps), j%len(steps)
			var rec1 func(chain []int)
			bad := false
			rec1 = func(chain []int) {
				if bad || c.Stopped() {
					return
				}
				name := func() string {
					_, m := starts[s0]()
					s := d.name + " " + d.model(m)
					for _, i := range chain {
						s += "." + steps[i].name
					}
					return s
				}
				w.Begin(name)
				r, m := starts[s0]()
				fail := ""
				if len(chain) == 0 {
					fail = d.queries(r, m, &w.T)
				}
				for _, i := range chain {
					k := &rec{}
					before := d.model(m)
					src := r
					r = steps[i].do(r, k)
					if d.real(src) != before && fail == "" {
						fail = steps[i].name + " changes its operand"
					}
					var log string
					m, log = steps[i].want(m)
					if k.log != log && fail == "" {
						fail = fmt.Sprintf("%s on %s calls %q, want %q", steps[i].name, before, k.log, log)
					}
					w.T++
				}
				if fail == "" {
					fail = d.queries(r, m, &w.T)
				}
				w.S++
				w.V++
				if fail != "" {
					c.Fail(name(), "%s: %s", name(), fail)
					bad = true
					return
				}
				if len(chain) == 2 && c.WantSample() {
					c.Sample("%s", name())
				}
				if len(chain) == depth {
					return
				}
				for i := range steps {
					rec1(append(append([]int{}, chain...), i))
				}
			}
			rec1([]int{first})
			if first == 0 {
				r, m := starts[s0]()
				if fail := d.queries(r, m, &w.T); fail != "" {
					c.Fail(d.model(m), "%s", fail)
				}
			}
		})
	})
}

func main() {
	core.Main("C20", func(c *core.C) {
		c.Assume("Err is made from a non-nil error")
		depth := 3
		if c.Thorough {
			depth = 4
		}
		run(c, &dom[gost.I32]{"I32", []gost.I32{0, 1, -5}, func(x gost.I32) string { return fmt.Sprint(int32(x)) }, func(x gost.I32) gost.I32 { return x*2 + 1 }}, depth)
		run(c, &dom[gost.String]{"String", []gost.String{"", "a"}, func(x gost.String) string { return fmt.Sprintf("%q", string(x)) }, func(x gost.String) gost.String { return x + "!" }}, depth)
		k := 3
		run(c, &dom[*int]{"pointer (nil is a value)", []*int{nil, &k}, func(x *int) string { return fmt.Sprint(x == nil) }, func(x *int) *int {
			if x == nil {
				return &k
			}
			return nil
		}}, depth)
		run(c, &dom[error]{"error as value", []error{nil, errs[0]}, func(x error) string { return fmt.Sprint(x) }, func(x error) error {
			if x == nil {
				return errs[1]
			}
			return nil
		}}, depth)
		run(c, &dom[[]int]{"slice", [][]int{nil, {}, {1}}, func(x []int) string { return fmt.Sprint(x == nil, x) }, func(x []int) []int { return append(append([]int{}, x...), 8) }}, depth)
	})
}
