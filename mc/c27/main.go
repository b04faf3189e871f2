// C27: a spawned thread runs once and Join waits for exactly its completion.
package main

import (
	"fmt"
	"time"

	"github.com/myyrakle/gost"

	"verifmc/bubble"
	"verifmc/core"
	"verifmc/schedrun"
)

// event is a call at a time: 'J' Join, 'F' IsFinished.
type event struct {
	at int
	op byte
}

// timing runs a thread of dur seconds with calls at odd times; the calls of one
// time come from goroutines of their own. A Join must return at the later of
// its call and the end; IsFinished at once, true exactly after the end.
func timing(c *core.C, w *core.W, dur int, evs []event) {
	name := fmt.Sprintf("thread of %d s, %v", dur, evs)
	w.Begin(func() string { return name })
	w.S++
	w.V++
	w.T += int64(len(evs) + 1)
	var bad string
	runs, over := 0, false
	msg := bubble.Run(func() {
		start := time.Now()
		at := func() time.Duration { return time.Since(start) }
		sec := func(n int) time.Duration { return time.Duration(n) * time.Second }
		h := gost.Spawn(func() {
			runs++
			time.Sleep(sec(dur))
			over = true
		})
		if at() != 0 {
			bad = fmt.Sprintf("Spawn took %v", at())
			return
		}
		n := 0
		for _, e := range evs {
			e := e
			go func() {
				time.Sleep(sec(e.at))
				switch e.op {
				case 'J':
					r := h.Join()
					if r.IsErr() {
						bad = "Join returned Err"
					}
					if want := sec(max(e.at, dur)); at() != want {
						bad = fmt.Sprintf("the Join at %d s returned at %v, want %v", e.at, at(), want)
					}
				case 'F':
					f := h.IsFinished()
					if at() != sec(e.at) {
						bad = fmt.Sprintf("IsFinished took %v", at()-sec(e.at))
					}
					if bool(f) != (e.at > dur) {
						bad = fmt.Sprintf("IsFinished at %d s is %v", e.at, f)
					}
				}
				n++
			}()
		}
		time.Sleep(sec(100))
		bubble.Wait()
		if bad == "" && n != len(evs) {
			bad = "a call did not return within 100 s"
		}
		if bad == "" && (runs != 1 || !over) {
			bad = fmt.Sprintf("the function ran %d times (completed: %v)", runs, over)
		}
	})
	if bad == "" {
		bad = msg
	}
	if bad != "" {
		c.Fail(name, "%s: %s", name, bad)
	} else if len(evs) == 3 && c.WantSample() {
		c.Sample("%s: as specified", name)
	}
}

func main() {
	bubble.Main("C27", func(c *core.C) {
		c.Assume("exploration at statement level is complete for programs without data races; races are looked for in every execution (race_detector)")
		n := 3
		if c.Thorough {
			n = 4
		}
		c.Part("order of events", fmt.Sprintf("the library as it is, in virtual time: threads of 0, 2, 4, 6 s; up to %d Join and IsFinished calls at every combination of 4 times before, between and after; the time and value of each", n), func() {
			var cases [][]event
			var rec func(prefix []event, from int)
			rec = func(prefix []event, from int) {
				cases = append(cases, append([]event(nil), prefix...))
				if len(prefix) == n {
					return
				}
				for k := from; k < 8; k++ {
					rec(append(prefix, event{1 + 2*(k/2), "JF"[k%2]}), k)
				}
			}
			rec(nil, 0)
			c.Par(len(cases), func(w *core.W, i int) {
				for _, d := range []int{0, 2, 4, 6} {
					timing(c, w, d, cases[i])
				}
			})
		})
		b := 3
		if c.Thorough {
			b = 4
		}
		schedrun.Part(c, "C27", b)
	})
}
