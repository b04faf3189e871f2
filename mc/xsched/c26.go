package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"

	"verifmc/mcrt"
)

// task is a future under observation: its result is a pointer to its number.
type task struct {
	f               gost.Future[*int]
	want            *int
	runs, done, go_ mcrt.Cell
}

func start(kind byte, id int) *task {
	t := &task{want: new(int)}
	*t.want = id
	t.f = gokio.Spawn(func() *int {
		if t.runs.Add(1) != 1 {
			mcrt.Fail("the function runs twice")
		}
		switch kind {
		case 's':
			mcrt.Step()
			mcrt.Step()
		case 'l':
			mcrt.Sleep(time.Hour)
		case 'w':
			mcrt.Until("its caller", func() bool { return t.go_.Get() > 0 })
		}
		t.done.Set(1)
		return t.want
	})
	if t.f == nil {
		mcrt.Fail("Spawn returned nil")
	}
	return t
}

func (t *task) await(n int) {
	for i := 0; i < n; i++ {
		v := t.f.Await()
		if t.done.Get() != 1 {
			mcrt.Fail("Await returned before the function had completed")
		}
		if v != t.want {
			mcrt.Fail("Await returned %v, want the function's result %v", v, t.want)
		}
	}
}

func (t *task) settle() {
	mcrt.Until("the function to complete (nobody awaits it)", func() bool { return t.done.Get() == 1 })
	if t.runs.Get() != 1 {
		mcrt.Fail("the function ran %d times", t.runs.Get())
	}
}

func futures() {
	for _, kind := range []byte("islw") {
		kind := kind
		for n := 0; n <= 3; n++ {
			for a := 0; a <= 3; a++ {
				for b := 0; b <= a; b++ {
					n, a, b := n, a, b
					if a+b+n > 5 {
						continue
					}
					for late := 0; late < 2; late++ {
						late := late
						if late == 1 && (kind == 'w' || a+b+n == 0) {
							continue
						}
						minus := 0
						if a > 0 {
							minus = 1
						}
						add(fmt.Sprintf("body %c: awaited %d | %d | %d times, late %d", kind, n, a, b, late), minus, func() {
							t := start(kind, 3)
							if late == 1 {
								t.settle()
							}
							var g group
							if a > 0 {
								g.Go(func() { t.await(a) })
							}
							if b > 0 {
								g.Go(func() { t.await(b) })
							}
							t.go_.Set(1)
							t.await(n)
							g.Wait()
							t.settle()
						})
					}
				}
			}
		}
	}
	for _, ks := range []string{"ii", "is", "sl", "ls", "ss", "ll"} {
		ks := ks
		for _, order := range []string{"ab", "ba", "aba", "abab", "a", "b", ""} {
			order := order
			add(fmt.Sprintf("bodies %s awaited in order %q", ks, order), 1, func() {
				a, b := start(ks[0], 1), start(ks[1], 2)
				for _, o := range order {
					if o == 'a' {
						a.await(1)
					} else {
						b.await(1)
					}
				}
				a.settle()
				b.settle()
			})
		}
		add(fmt.Sprintf("bodies %s awaited by two goroutines", ks), 1, func() {
			a, b := start(ks[0], 1), start(ks[1], 2)
			var g group
			g.Go(func() { a.await(1); b.await(1) })
			b.await(1)
			a.await(1)
			g.Wait()
		})
	}
	add("two functions that need each other", 1, func() {
		var x, y mcrt.Cell
		a := gokio.Spawn(func() int {
			x.Set(1)
			mcrt.Until("the other function", func() bool { return y.Get() == 1 })
			return 1
		})
		b := gokio.Spawn(func() int {
			mcrt.Until("the other function", func() bool { return x.Get() == 1 })
			y.Set(1)
			return 2
		})
		if p, q := a.Await(), b.Await(); p != 1 || q != 2 {
			mcrt.Fail("Await returned %d and %d, want 1 and 2", p, q)
		}
	})
	add("a future made inside a future", 1, func() {
		f := gokio.Spawn(func() string {
			g := gokio.Spawn(func() string { mcrt.Step(); return "in" })
			return g.Await() + "ner" + g.Await()
		})
		if v := f.Await(); v != "innerin" {
			mcrt.Fail("Await returned %q", v)
		}
	})
	add("a future of a future", 1, func() {
		f := gokio.Spawn(func() gost.Future[int] { return gokio.Spawn(func() int { mcrt.Step(); return 8 }) })
		if v := f.Await().Await(); v != 8 {
			mcrt.Fail("Await returned %d", v)
		}
		if v := f.Await().Await(); v != 8 {
			mcrt.Fail("Await returned %d", v)
		}
	})
	add("results of several types", 1, func() {
		e := errors.New("e")
		a := gokio.Spawn(func() error { return nil })
		b := gokio.Spawn(func() gost.Result[int] { return gost.Err[int](e) })
		c := gokio.Spawn(func() []int { return []int{1, 2} })
		d := gokio.Spawn(func() any { return nil })
		if v := a.Await(); v != nil {
			mcrt.Fail("Await returned %v, want nil", v)
		}
		if v := b.Await(); !v.IsErr() || v.UnwrapErr() != e {
			mcrt.Fail("Await returned %v, want Err(e)", v)
		}
		if v := c.Await(); len(v) != 2 || v[1] != 2 {
			mcrt.Fail("Await returned %v", v)
		}
		if v := d.Await(); v != nil {
			mcrt.Fail("Await returned %v, want nil", v)
		}
	})
	for _, n := range []int{4, 8, 17, 40, 150} {
		n, minus := n, 10
		if n > 4 {
			minus = 11
		}
		if n > 10 {
			minus = 99 // one schedule
		}
		for _, kind := range []byte("isw") {
			kind := kind
			add(fmt.Sprintf("body %c: awaited by %d goroutines, then %d times", kind, n, n), minus, func() {
				t := start(kind, 3)
				var g group
				for i := 0; i < n; i++ {
					i := i
					g.Go(func() { t.await(1 + i%2) })
				}
				if kind == 'w' {
					mcrt.Gosched()
				}
				t.go_.Set(1)
				g.Wait()
				t.await(n)
				t.settle()
			})
		}
	}
	for _, n := range []int{3, 10, 33, 400} {
		n, minus := n, 9
		if n > 3 {
			minus = 11
		}
		if n > 100 {
			minus = 99 // one schedule
		}
		add(fmt.Sprintf("%d functions, each needing the next one's", n), minus, func() {
			cells := make([]mcrt.Cell, n+1)
			cells[n].Set(1)
			var fs []gost.Future[int]
			for i := 0; i < n; i++ {
				i := i
				fs = append(fs, gokio.Spawn(func() int {
					mcrt.Until("the next function", func() bool { return cells[i+1].Get() == 1 })
					cells[i].Add(1)
					return i
				}))
			}
			for r := 0; r < 2; r++ {
				for i, f := range fs {
					if v := f.Await(); v != i || cells[i].Get() != 1 {
						mcrt.Fail("Await of future %d returned %d after %d runs", i, v, cells[i].Get())
					}
				}
			}
		})
		add(fmt.Sprintf("%d functions waiting for their caller, awaited in reverse", n), minus, func() {
			var open mcrt.Cell
			var fs []gost.Future[int]
			for i := 0; i < n; i++ {
				i := i
				fs = append(fs, gokio.Spawn(func() int {
					mcrt.Until("the caller", func() bool { return open.Get() == 1 })
					return i
				}))
			}
			open.Set(1)
			for i := n - 1; i >= 0; i-- {
				if v := fs[i].Await(); v != i {
					mcrt.Fail("Await of future %d returned %d", i, v)
				}
			}
		})
		add(fmt.Sprintf("%d futures dropped", n), minus, func() {
			var runs mcrt.Cell
			for i := 0; i < n; i++ {
				gokio.Spawn(func() int { mcrt.Step(); return runs.Add(1) })
			}
			mcrt.Until("the functions to run", func() bool { return runs.Get() == n })
		})
	}
}
