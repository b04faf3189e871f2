// C22: If/ElseIf/Else selects the first true branch.
package main

import (
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// chain runs one If/ElseIf/.../Else chain: conditions bits of conds, branch i
// gives vals[i], the Else branch vals[n]. calls counts the functions called.
func chain[T any](conds int, vals []T, calls []int) T {
	n := len(vals) - 1
	f := func(i int) func() T {
		return func() T { calls[i]++; return vals[i] }
	}
	ctx := gost.If(gost.Bool(conds&1 == 1), f(0))
	for i := 1; i < n; i++ {
		ctx = ctx.ElseIf(gost.Bool(conds>>i&1 == 1), f(i))
	}
	return ctx.Else(f(n))
}

func first(conds, n int) int {
	for i := 0; i < n; i++ {
		if conds>>i&1 == 1 {
			return i
		}
	}
	return n
}

func desc(conds, n int, vals any) string {
	s := ""
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("%v ", conds>>i&1 == 1)
	}
	return fmt.Sprintf("conditions %sbranch values %v", s, vals)
}

// run enumerates all condition vectors and all value assignments.
func run[T any](c *core.C, name string, alpha []T, max int, same func(a, b T) bool) {
	c.Part(name, fmt.Sprintf("every chain of 1..%d conditions, every condition vector, every assignment of %d values to the branches", max, len(alpha)), func() {
		for n := 1; n <= max; n++ {
			total := 1
			for i := 0; i <= n; i++ {
				total *= len(alpha)
			}
			c.Par(1<<n, func(w *core.W, conds int) {
				vals := make([]T, n+1)
				calls := make([]int, n+1)
				for x := 0; x < total; x++ {
					for i, y := 0, x; i <= n; i++ {
						vals[i] = alpha[y%len(alpha)]
						calls[i] = 0
						y /= len(alpha)
					}
					w.S++
					w.T += int64(n + 1)
					w.V++
					w.Begin(func() string { return name + ": " + desc(conds, n, vals) })
					got := chain(conds, vals, calls)
					want := first(conds, n)
					if !same(got, vals[want]) {
						c.Fail(name+" "+desc(conds, n, vals), "%s: %s gives %v, want the value %v of branch %d", name, desc(conds, n, vals), got, vals[want], want)
						return
					}
					for i := range calls {
						k := 0
						if i == want {
							k = 1
						}
						if calls[i] != k {
							c.Fail(name+" calls "+desc(conds, n, vals), "%s: %s: the function of branch %d is called %d times, want %d", name, desc(conds, n, vals), i, calls[i], k)
							return
						}
					}
					if n > 2 && c.WantSample() {
						c.Sample("%s gives %v, branch %d", desc(conds, n, vals), got, want)
					}
				}
			})
		}
	})
}

// others: chains built alternately with one another, and inside one another.
func others(c *core.C) {
	c.Part("several chains", "two chains of three conditions built alternately, nested chains: every condition vector", func() {
		c.Par(64, func(w *core.W, x int) {
			bit := func(i int) gost.Bool { return gost.Bool(x>>i&1 == 1) }
			w.S++
			w.T += 8
			w.V++
			w.Begin(func() string { return fmt.Sprintf("alternate %06b", x) })
			v := func(i int) func() gost.I32 { return func() gost.I32 { return gost.I32(i) } }
			a := gost.If(bit(0), v(0))
			b := gost.If(bit(3), v(10))
			a = a.ElseIf(bit(1), v(1))
			b = b.ElseIf(bit(4), v(11))
			a = a.ElseIf(bit(2), v(2))
			b = b.ElseIf(bit(5), v(12))
			rb, ra := b.Else(v(13)), a.Else(v(3))
			wa, wb := first(x&7, 3), 10+first(x>>3, 3)
			if int(ra) != wa || int(rb) != wb {
				c.Fail(fmt.Sprintf("alternate %06b", x), "two chains with conditions %03b and %03b (lowest bit first) give branches %d and %d, want %d and %d", x&7, x>>3, ra, rb, wa, wb)
			}
		})
		c.Par(64, func(w *core.W, x int) {
			bit := func(i int) gost.Bool { return gost.Bool(x>>i&1 == 1) }
			w.S++
			w.T += 8
			w.V++
			w.Begin(func() string { return fmt.Sprintf("nested %06b", x) })
			inner := func(base int, a, b gost.Bool) func() gost.I32 {
				return func() gost.I32 {
					return gost.If(a, func() gost.I32 { return gost.I32(base) }).ElseIf(b, func() gost.I32 { return gost.I32(base + 1) }).Else(func() gost.I32 { return gost.I32(base + 2) })
				}
			}
			got := gost.If(bit(0), inner(10, bit(2), bit(3))).ElseIf(bit(1), inner(20, bit(4), bit(5))).Else(inner(30, bit(2), bit(5)))
			in := func(base int, a, b gost.Bool) int {
				if a {
					return base
				}
				if b {
					return base + 1
				}
				return base + 2
			}
			want := in(30, bit(2), bit(5))
			if bit(0) {
				want = in(10, bit(2), bit(3))
			} else if bit(1) {
				want = in(20, bit(4), bit(5))
			}
			if int(got) != want {
				c.Fail(fmt.Sprintf("nested %06b", x), "nested chains with conditions %06b give %d, want %d", x, got, want)
			}
		})
	})
}

func eq[T comparable](a, b T) bool { return a == b }

func main() {
	core.Main("C22", func(c *core.C) {
		max := 6
		if c.Thorough {
			max = 8
		}
		run(c, "I32", []gost.I32{0, 1, -1}, max, eq[gost.I32])
		run(c, "String", []gost.String{"", "a"}, max, eq[gost.String])
		run(c, "Bool", []gost.Bool{false, true}, max, eq[gost.Bool])
		p, q := 1, 2
		run(c, "pointer", []*int{nil, &p, &q}, max-1, eq[*int])
		run(c, "error interface", []error{nil, fmt.Errorf("e")}, max-1, eq[error])
		run(c, "any", []any{nil, 0, ""}, max-2, eq[any])
		run(c, "slice", [][]int{nil, {}, {1}}, max-2, func(a, b []int) bool { return (a == nil) == (b == nil) && reflect.DeepEqual(a, b) })
		run(c, "struct", []struct{ A, B int }{{}, {1, 0}, {0, 1}}, max-2, eq[struct{ A, B int }])
		run(c, "Option", []gost.Option[gost.I32]{gost.None[gost.I32](), gost.Some(gost.I32(0)), gost.Some(gost.I32(1))}, max-2, func(a, b gost.Option[gost.I32]) bool {
			return a.IsSome() == b.IsSome() && (bool(a.IsNone()) || a.Unwrap() == b.Unwrap())
		})
		others(c)
		c.Part("long chains", "chains of up to 200 conditions with at most two of them true, at every pair of places", func() {
			c.Par(200, func(w *core.W, n int) {
				n++
				for i := 0; i <= n; i++ {
					for j := i; j <= n; j++ {
						if n > 40 && i > 3 && i < n-3 && j != i && j != i+1 && j < n {
							continue
						}
						w.S++
						w.T += int64(n)
						w.V++
						w.Begin(func() string { return fmt.Sprintf("%d conditions, %d and %d true", n, i, j) })
						calls := 0
						f := func(k int) func() gost.I32 { return func() gost.I32 { calls++; return gost.I32(k) } }
						ctx := gost.If(gost.Bool(i == 0 || j == 0), f(0))
						for k := 1; k < n; k++ {
							ctx = ctx.ElseIf(gost.Bool(k == i || k == j), f(k))
						}
						if got := ctx.Else(f(n)); int(got) != i || calls != 1 {
							c.Fail(fmt.Sprintf("long %d %d %d", n, i, j), "%d conditions with %d and %d true: value of branch %d after %d calls, want branch %d after one", n, i, j, got, calls, i)
							return
						}
					}
				}
			})
		})
	})
}
