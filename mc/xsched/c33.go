package main

import (
	"fmt"

	"verifmc/mcrt"
	"verifmc/share"
)

// sharing lets two goroutines read one value, or work on values of their own.
func sharing() {
	mcrt.Limit = 5000000
	// warm: both have been called before, so that what they leave behind is in place
	two := func(name string, minus int, warm bool, mk func() any, a, b func(any) string) {
		wantA, wantB := a(mk()), b(mk())
		if warm {
			name += ", after both once"
		}
		add(name, minus, func() {
			o := mk()
			if warm {
				b(o)
				a(o)
			}
			var g group
			g.Go(func() {
				if s := a(o); s != wantA {
					mcrt.Fail("the first call gives %s, want %s", s, wantA)
				}
			})
			if s := b(o); s != wantB {
				mcrt.Fail("the second call gives %s, want %s", s, wantB)
			}
			g.Wait()
			if s := a(o); s != wantA {
				mcrt.Fail("afterwards the first call gives %s, want %s", s, wantA)
			}
		})
	}
	for _, k := range share.Kinds() {
		for i, a := range k.Ops {
			for j, b := range k.Ops {
				if j > i {
					continue
				}
				minus := 0
				if i != j || a.Long || b.Long {
					minus++
				}
				for _, s := range k.States {
					name := fmt.Sprintf("%s of %s while %s of the same (%s)", a.Name, k.Name, b.Name, s.Name)
					two(name, minus, false, s.New, a.Run, b.Run)
					two(name, minus, true, s.New, a.Run, b.Run)
				}
			}
		}
	}
	for _, r := range share.Pairs() {
		for i, a := range r.Ops {
			for j, b := range r.Ops {
				if r.Past != "" && a.Name != r.Past && b.Name != r.Past {
					continue
				}
				minus := 0
				if i != j {
					minus++
				}
				if a.Long || b.Long {
					minus++
				}
				x, y := r.New()
				wantA, wantB := a.Run(x), b.Run(y)
				add(fmt.Sprintf("%s: %s while %s", r.Name, a.Name, b.Name), minus, func() {
					x, y := r.New()
					var g group
					g.Go(func() {
						if s := a.Run(x); s != wantA {
							mcrt.Fail("%s gives %s, want %s", a.Name, s, wantA)
						}
					})
					if s := b.Run(y); s != wantB {
						mcrt.Fail("%s gives %s, want %s", b.Name, s, wantB)
					}
					g.Wait()
				})
			}
		}
	}
	calls := share.Calls()
	none := func() any { return nil }
	for i, a := range calls {
		for j, b := range calls {
			minus := 1
			if i != j || a.Heavy {
				minus++
			}
			if a.Heavy || b.Heavy {
				minus = 99 // one schedule also in the thorough tier
			}
			if a.Name == "files" && i == j {
				minus = 1
			}
			for _, warm := range []bool{false, true} {
				two(fmt.Sprintf("%s while %s", a.Name, b.Name), minus, warm, none, func(any) string { return a.Run(0) }, func(any) string { return b.Run(1) })
			}
		}
	}
}
