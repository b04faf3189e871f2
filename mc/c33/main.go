// C33: concurrent calls that share nothing, or only read what they share, do not
// interfere.
package main

import (
	"fmt"

	"verifmc/core"
	"verifmc/schedrun"
	"verifmc/share"
)

func main() {
	core.Main("C33", func(c *core.C) {
		c.Assume("exploration at statement level is complete for programs without data races; races are looked for in every execution (race_detector)",
			"Print and Println, whose output is shared, are not among the calls")
		kinds, calls := share.Kinds(), share.Calls()
		c.Part("reading changes no result", "the library as it is: every ordered pair of read-only operations on every shared value, and the first one again: each gives what it gives alone", func() {
			c.Par(len(kinds), func(w *core.W, i int) {
				k := kinds[i]
				for _, st := range k.States {
					for _, a := range k.Ops {
						for _, b := range k.Ops {
							w.Begin(func() string { return fmt.Sprint(k.Name, " ", st.Name, ": ", a.Name, " then ", b.Name) })
							w.S++
							w.T += 3
							w.V++
							alone := b.Run(st.New())
							o := st.New()
							first := a.Run(o)
							if got := b.Run(o); got != alone {
								c.Fail(k.Name+" "+a.Name+" "+b.Name, "%s (%s): after %s, %s gives %s, want %s", k.Name, st.Name, a.Name, b.Name, got, alone)
								return
							}
							if got := a.Run(o); got != first {
								c.Fail(k.Name+" "+a.Name+" "+b.Name, "%s (%s): %s gives %s, and after %s %s", k.Name, st.Name, a.Name, first, b.Name, got)
								return
							}
						}
					}
				}
			})
		})
		c.Part("calls leave nothing behind", "the library as it is: every ordered pair of calls on values of their own, and every triple of the shape f g f: the results are those of the calls alone", func() {
			for _, a := range calls {
				for x := 0; x < 2; x++ {
					for _, b := range calls {
						for y := 0; y < 2; y++ {
							first, second := a.Run(x), b.Run(y)
							c.Par(1, func(w *core.W, _ int) {
								w.S++
								w.T += 5
								w.V++
								if again := a.Run(x); again != first {
									c.Fail(a.Name+" "+b.Name, "%s gives %s, and %s after %s", a.Name, first, again, b.Name)
								} else if again := b.Run(y); again != second {
									c.Fail(b.Name+" "+a.Name, "%s gives %s, and %s after %s", b.Name, second, again, a.Name)
								}
							})
						}
					}
				}
			}
		})
		pairs := share.Pairs()
		c.Part("related values", "the library as it is: two values of which one was made from the other (clone, source of an Append, operand and result of a set operation), every change to one followed by every change to the other, in both orders: the results are those on values made afresh", func() {
			c.Par(len(pairs), func(w *core.W, i int) {
				r := pairs[i]
				for _, f := range r.Ops {
					for _, g := range r.Ops {
						w.Begin(func() string { return fmt.Sprint(r.Name, ": ", f.Name, " and ", g.Name) })
						w.S += 2
						w.T += 4
						w.V += 2
						x, _ := r.New()
						_, y := r.New()
						wantF, wantG := f.Run(x), g.Run(y)
						a, b := r.New()
						gotF := f.Run(a)
						gotG := g.Run(b)
						a, b = r.New()
						gotG2 := g.Run(b)
						gotF2 := f.Run(a)
						if gotF != wantF || gotG != wantG || gotF2 != wantF || gotG2 != wantG {
							c.Fail(r.Name+" "+f.Name+" "+g.Name, "%s: %s of the first gives %s, and %s after %s of the second; that gives %s, and %s before it", r.Name, f.Name, wantF, gotF2, g.Name, gotG, gotG2)
						}
					}
				}
			})
		})
		bound := 2
		if c.Thorough {
			bound = 3
		}
		schedrun.Part(c, "C33", bound)
	})
}
