package main

import (
	"fmt"
	"time"

	"github.com/myyrakle/gost"

	"verifmc/mcrt"
)

// job is a spawned thread under observation.
type job struct {
	h                 gost.JoinHandle
	runs, done, joins mcrt.Cell
	seen              mcrt.Cell // some IsFinished or Join has reported completion
	go_               mcrt.Cell
}

// spawn starts a thread whose function behaves according to kind.
func spawn(kind byte) *job {
	j := &job{}
	j.h = gost.Spawn(func() {
		if j.runs.Add(1) != 1 {
			mcrt.Fail("the function runs twice")
		}
		switch kind {
		case 's': // a few steps
			mcrt.Step()
			mcrt.Step()
		case 'l': // long
			mcrt.Sleep(time.Hour)
		case 'w': // needs its caller
			mcrt.Until("its caller", func() bool { return j.go_.Get() > 0 })
		}
		j.done.Set(1)
	})
	return j
}

func (j *job) client(h gost.JoinHandle, script string, kind byte, first bool) {
	for i := 0; i < len(script); i++ {
		switch script[i] {
		case 'J':
			if first && kind == 'w' {
				j.go_.Set(1)
			}
			r := h.Join()
			if j.done.Get() != 1 {
				mcrt.Fail("Join returned before the function had completed")
			}
			if r.IsErr() {
				mcrt.Fail("Join returned Err")
			}
			j.seen.Set(1)
		case 'F':
			seen := j.seen.Get()
			at := mcrt.Clock()
			f := h.IsFinished()
			if mcrt.Clock() != at && kind != 'l' {
				mcrt.Fail("IsFinished waited")
			}
			if f && j.done.Get() != 1 {
				mcrt.Fail("IsFinished is true before the function has completed")
			}
			if !f && seen == 1 {
				mcrt.Fail("IsFinished is false after the completion had been reported")
			}
			if f {
				j.seen.Set(1)
			}
		case 'P': // until it is true
			if first && kind == 'w' {
				j.go_.Set(1)
			}
			for !h.IsFinished() {
				if kind == 'l' {
					mcrt.Sleep(7 * time.Minute)
				} else {
					mcrt.Gosched()
				}
			}
			if j.done.Get() != 1 {
				mcrt.Fail("IsFinished is true before the function has completed")
			}
			j.seen.Set(1)
		}
	}
	if first {
		j.go_.Set(1)
	}
}

// settle checks that the thread has run once and that its completion is seen.
func (j *job) settle() {
	mcrt.Until("the function to complete (nobody joins it)", func() bool { return j.done.Get() == 1 })
	if j.runs.Get() != 1 {
		mcrt.Fail("the function ran %d times", j.runs.Get())
	}
	for !j.h.IsFinished() {
		mcrt.Gosched()
	}
	if r := j.h.Join(); r.IsErr() {
		mcrt.Fail("Join returned Err")
	}
	if !j.h.IsFinished() {
		mcrt.Fail("IsFinished is false after the completion had been reported")
	}
}

func threads() {
	all := append([]string{""}, scripts("JFP", 2)...)
	for _, kind := range []byte("islw") {
		kind := kind
		for _, a := range append(all, "FFJ", "FJF", "JJJ", "FFF", "FPJ") {
			a := a
			add(fmt.Sprintf("body %c: %q", kind, a), 0, func() {
				j := spawn(kind)
				j.client(j.h, a, kind, true)
				j.settle()
			})
			add(fmt.Sprintf("body %c: %q, never looked at again", kind, a), 0, func() {
				j := spawn(kind)
				j.client(j.h, a, kind, true)
				mcrt.Until("the function to complete (nobody joins it)", func() bool { return j.done.Get() == 1 })
			})
		}
		for i, a := range all {
			for k, b := range all {
				a, b := a, b
				if b == "" || kind != 'w' && k < i {
					continue
				}
				minus := 0
				if len(a)+len(b) > 2 {
					minus = 1
				}
				add(fmt.Sprintf("body %c: %q | %q", kind, a, b), minus, func() {
					j := spawn(kind)
					var g group
					h := j.h // a copy of the handle
					g.Go(func() { j.client(h, b, kind, false) })
					j.client(j.h, a, kind, true)
					g.Wait()
					j.settle()
				})
			}
		}
		for _, t := range [][3]string{{"J", "J", "J"}, {"F", "J", "J"}, {"P", "J", "F"}, {"J", "F", "F"}, {"P", "P", "P"}, {"", "J", "J"}} {
			t := t
			add(fmt.Sprintf("body %c: %q | %q | %q", kind, t[0], t[1], t[2]), 1, func() {
				j := spawn(kind)
				var g group
				g.Go(func() { j.client(j.h, t[1], kind, false) })
				g.Go(func() { j.client(j.h, t[2], kind, false) })
				j.client(j.h, t[0], kind, true)
				g.Wait()
				j.settle()
			})
		}
	}
	// two threads
	for _, ks := range []string{"ii", "is", "sl", "ls", "ss", "ll"} {
		ks := ks
		for _, order := range []string{"ab", "ba", "a", "b", ""} {
			order := order
			add(fmt.Sprintf("bodies %s joined in order %q", ks, order), 1, func() {
				a, b := spawn(ks[0]), spawn(ks[1])
				kind := byte('i')
				if ks[0] == 'l' || ks[1] == 'l' {
					kind = 'l'
				}
				for _, o := range order {
					if o == 'a' {
						a.client(a.h, "FJ", kind, true)
					} else {
						b.client(b.h, "FJ", kind, true)
					}
				}
				a.settle()
				b.settle()
			})
		}
	}
	add("two threads that need each other", 1, func() {
		var x, y mcrt.Cell
		a := gost.Spawn(func() {
			x.Set(1)
			mcrt.Until("the other thread", func() bool { return y.Get() == 1 })
		})
		b := gost.Spawn(func() {
			mcrt.Until("the other thread", func() bool { return x.Get() == 1 })
			y.Set(1)
		})
		a.Join()
		b.Join()
	})
	add("a thread joins another that it spawned", 1, func() {
		var in, out mcrt.Cell
		gost.Spawn(func() {
			h := gost.Spawn(func() { mcrt.Step(); in.Set(1) })
			h.Join()
			if in.Get() != 1 {
				mcrt.Fail("Join returned before the function had completed")
			}
			out.Set(1)
		}).Join()
		if out.Get() != 1 {
			mcrt.Fail("Join returned before the function had completed")
		}
	})
	for _, n := range []int{4, 8, 17, 40, 150} {
		n, minus := n, 10
		if n > 4 {
			minus = 11
		}
		if n > 10 {
			minus = 99 // one schedule
		}
		for _, kind := range []byte("isw") {
			kind := kind
			add(fmt.Sprintf("body %c: joined by %d goroutines, then %d times", kind, n, n), minus, func() {
				j := spawn(kind)
				var g group
				for i := 0; i < n; i++ {
					script := []string{"J", "FJ", "JF", "F"}[i%4]
					g.Go(func() { j.client(j.h, script, kind, false) })
				}
				if kind == 'w' {
					mcrt.Gosched()
				}
				j.go_.Set(1)
				g.Wait()
				for i := 0; i < n; i++ {
					j.client(j.h, "JF", kind, false)
				}
				j.settle()
			})
			add(fmt.Sprintf("body %c: IsFinished %d times, then joined", kind, n), min(minus, 11), func() {
				j := spawn(kind)
				for i := 0; i < n; i++ {
					j.client(j.h, "F", kind, false)
				}
				j.go_.Set(1)
				j.client(j.h, "J", kind, false)
				for i := 0; i < n; i++ {
					j.client(j.h, "F", kind, false)
				}
				j.settle()
			})
		}
	}
	for _, n := range []int{3, 10, 33, 400} {
		n, minus := n, 9
		if n > 3 {
			minus = 11
		}
		if n > 100 {
			minus = 99 // one schedule
		}
		add(fmt.Sprintf("%d threads, each needing the next one spawned", n), minus, func() {
			cells := make([]mcrt.Cell, n+1)
			cells[n].Set(1)
			var hs []gost.JoinHandle
			for i := 0; i < n; i++ {
				i := i
				hs = append(hs, gost.Spawn(func() {
					mcrt.Until("the next thread", func() bool { return cells[i+1].Get() == 1 })
					cells[i].Add(1)
				}))
			}
			for i, h := range hs {
				h.Join()
				if cells[i].Get() != 1 {
					mcrt.Fail("Join returned before the function had completed (%d runs)", cells[i].Get())
				}
			}
		})
		add(fmt.Sprintf("%d threads waiting for their caller, joined in reverse", n), minus, func() {
			var open mcrt.Cell
			cells := make([]mcrt.Cell, n)
			var hs []gost.JoinHandle
			for i := 0; i < n; i++ {
				i := i
				hs = append(hs, gost.Spawn(func() {
					mcrt.Until("the caller", func() bool { return open.Get() == 1 })
					cells[i].Add(1)
				}))
			}
			for _, h := range hs {
				if h.IsFinished() {
					mcrt.Fail("IsFinished is true before the function has completed")
				}
			}
			open.Set(1)
			for i := n - 1; i >= 0; i-- {
				hs[i].Join()
				if cells[i].Get() != 1 {
					mcrt.Fail("Join returned before the function had completed (%d runs)", cells[i].Get())
				}
			}
		})
	}
}
