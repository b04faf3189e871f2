package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/myyrakle/gost"

	"verifmc/mcrt"
)

const (
	opLock = iota // call of Lock
	opTry         // call of TryLock
	opGot         // the call acquired the mutex
	opErr         // TryLock returned Err
	opFree        // call of Unlock
	opOut         // Unlock returned
)

// mx is a mutex under observation.
type mx struct {
	id   int
	m    gost.Mutex[int]
	p    *int
	in   mcrt.Cell
	sum  mcrt.Cell
	prev mcrt.Cell
}

func newMx(id, start int) *mx {
	x := &mx{id: id, m: gost.MutexNew(start)}
	x.p = x.m.Lock()
	if *x.p != start {
		mcrt.Fail("MutexNew(%d): the value under the lock is %d", start, *x.p)
	}
	x.m.Unlock()
	x.sum.Set(start)
	return x
}

// inside is the critical section: it must be alone and see the last value.
func (x *mx) inside(p *int, d time.Duration) {
	mcrt.Put(opGot, x.id)
	if x.in.Add(1) != 1 {
		mcrt.Fail("two goroutines hold mutex %d at the same time", x.id)
	}
	if p != x.p {
		mcrt.Fail("mutex %d: the lock returned a pointer to another value", x.id)
	}
	v := *p
	if v != x.sum.Get() {
		mcrt.Fail("mutex %d: value %d under the lock, want %d", x.id, v, x.sum.Get())
	}
	if d > 0 {
		mcrt.Sleep(d)
	} else {
		mcrt.Step()
	}
	if *p != v {
		mcrt.Fail("mutex %d: the value changed from %d to %d while it was held", x.id, v, *p)
	}
	*p = v + 1
	x.sum.Add(1)
	if x.in.Add(-1) != 0 {
		mcrt.Fail("two goroutines hold mutex %d at the same time", x.id)
	}
}

func (x *mx) unlock() {
	mcrt.Put(opFree, x.id)
	x.m.Unlock()
	mcrt.Put(opOut, x.id)
}

func (x *mx) lock() *int {
	mcrt.Put(opLock, x.id)
	return x.m.Lock()
}

// try is TryLock: nil when it returned Err.
func (x *mx) try() *int {
	mcrt.Put(opTry, x.id)
	r := x.m.TryLock()
	if r.IsErr() {
		if e := r.UnwrapErr(); e == nil || e.Error() == "" {
			mcrt.Fail("TryLock: Err without an error")
		}
		mcrt.Put(opErr, x.id)
		return nil
	}
	return r.Unwrap()
}

// section runs one step of a script.
func (x *mx) section(k byte) {
	switch k {
	case 'L':
		x.inside(x.lock(), 0)
		x.unlock()
	case 'T':
		if p := x.try(); p != nil {
			x.inside(p, 0)
			x.unlock()
		}
	case 'S': // spins
		for n := 0; ; n++ {
			if p := x.try(); p != nil {
				x.inside(p, 0)
				x.unlock()
				return
			}
			mcrt.Gosched()
		}
	case 'W': // keeps it for ten minutes
		x.inside(x.lock(), 10*time.Minute)
		x.unlock()
	case 'R': // tries while holding it
		p := x.lock()
		x.inside(p, 0)
		if x.try() != nil {
			mcrt.Fail("TryLock acquired a mutex that its caller holds")
		}
		mcrt.Put(opGot, x.id)
		x.unlock()
	}
}

// finish checks what remains after all goroutines have ended.
func finish(xs ...*mx) {
	for _, x := range xs {
		p := x.try()
		if p == nil {
			mcrt.Fail("mutex %d is still locked after every Unlock", x.id)
		}
		mcrt.Put(opGot, x.id)
		if *p != x.sum.Get() {
			mcrt.Fail("mutex %d: an update was lost: %d, want %d", x.id, *p, x.sum.Get())
		}
		x.unlock()
		x.lock()
		mcrt.Put(opGot, x.id)
		x.unlock()
	}
	// every TryLock that failed must have overlapped a period in which the mutex was held
	recs := mcrt.Recs()
	type span struct{ id, from, to int }
	var holds, fails []span
	call, hold := map[int]int{}, map[[2]int]int{}
	for i, r := range recs {
		switch r.Op {
		case opLock, opTry:
			call[r.G] = i
		case opGot:
			k := [2]int{r.G, r.A}
			if _, ok := hold[k]; !ok {
				hold[k] = call[r.G]
			}
		case opErr:
			fails = append(fails, span{r.A, call[r.G], i})
		case opOut:
			k := [2]int{r.G, r.A}
			holds = append(holds, span{r.A, hold[k], i})
			delete(hold, k)
		}
	}
	for _, f := range fails {
		ok := false
		for _, h := range holds {
			if h.id == f.id && h.from < f.to && f.from < h.to {
				ok = true
			}
		}
		if !ok {
			mcrt.Fail("TryLock failed on mutex %d, which was free throughout the call", f.id)
		}
	}
}

func scripts(alphabet string, max int) (out []string) {
	level := []string{""}
	for n := 0; n < max; n++ {
		var next []string
		for _, s := range level {
			for _, k := range alphabet {
				next = append(next, s+string(k))
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

func mutexes() {
	run := func(sc ...string) func() {
		return func() {
			x := newMx(0, 5)
			var g group
			for _, s := range sc[1:] {
				s := s
				g.Go(func() {
					for i := 0; i < len(s); i++ {
						x.section(s[i])
					}
				})
			}
			for i := 0; i < len(sc[0]); i++ {
				x.section(sc[0][i])
			}
			g.Wait()
			finish(x)
		}
	}
	s2 := scripts("LTSWR", 2)
	for i, a := range s2 {
		for _, b := range s2[i:] {
			minus := 0
			if len(a)+len(b) > 3 {
				minus = 1
			}
			add("one mutex: "+a+" | "+b, minus, run(a, b))
		}
	}
	s1 := scripts("LTSW", 1)
	for i, a := range s1 {
		for j, b := range s1[i:] {
			for _, c := range s1[i+j:] {
				add("one mutex: "+a+" | "+b+" | "+c, 1, run(a, b, c))
			}
		}
	}
	add("one mutex: L | L | L | L", 2, run("L", "L", "L", "L"))
	add("one mutex: LL | LT | TL", 2, run("LL", "LT", "TL"))
	add("one mutex: T | T | T | L", 2, run("T", "T", "T", "L"))
	for _, n := range []int{5, 8, 12} {
		sc := strings.Split(strings.Repeat("L ", n), " ")[:n]
		add(fmt.Sprintf("one mutex: %d goroutines lock", n), 9+n/8, run(sc...))
	}
	for _, n := range []int{40, 150} { // one schedule each
		sc := strings.Split(strings.Repeat("L W ", n/2), " ")[:n]
		add(fmt.Sprintf("one mutex: %d goroutines lock", n), 99, run(sc...))
		many := strings.Repeat("LT", n)
		add(fmt.Sprintf("one mutex: %d times each", 2*n), 99, run(many, many))
	}
	add("one mutex: long wait of five", 9, run("W", "W", "L", "W", "S"))

	// TryLock does not wait: its caller decides when the holder goes on.
	for n := 1; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("TryLock %d times while another goroutine keeps the mutex", n), 0, func() {
			x := newMx(0, 0)
			var held, tried mcrt.Cell
			var g group
			g.Go(func() {
				p := x.lock()
				held.Set(1)
				mcrt.Until("the other goroutine's TryLock to return", func() bool { return tried.Get() == n })
				x.inside(p, 0)
				x.unlock()
			})
			mcrt.Until("the holder", func() bool { return held.Get() == 1 })
			at := mcrt.Clock()
			for i := 0; i < n; i++ {
				if x.try() != nil {
					mcrt.Fail("TryLock acquired a mutex that another goroutine holds")
				}
				tried.Add(1)
			}
			if mcrt.Clock() != at {
				mcrt.Fail("TryLock waited")
			}
			x.section('L')
			g.Wait()
			finish(x)
		})
	}
	// the same with a goroutine waiting in Lock
	add("TryLock while one goroutine holds the mutex and one waits", 1, func() {
		x := newMx(0, 0)
		var held, tried mcrt.Cell
		var g group
		g.Go(func() {
			p := x.lock()
			held.Set(1)
			mcrt.Until("the other goroutine's TryLock to return", func() bool { return tried.Get() == 1 })
			x.inside(p, 0)
			x.unlock()
		})
		g.Go(func() { x.section('L') })
		mcrt.Until("the holder", func() bool { return held.Get() == 1 })
		if x.try() != nil && x.in.Get() != 0 {
			mcrt.Fail("TryLock acquired a mutex that another goroutine holds")
		}
		tried.Set(1)
		g.Wait()
		finish(x)
	})

	// two mutexes
	two := func(a, b string) func() {
		return func() {
			x, y := newMx(0, 5), newMx(1, 5)
			if x.p == y.p {
				mcrt.Fail("two mutexes protect the same variable")
			}
			do := func(s string) {
				for i := 0; i < len(s); i++ {
					switch s[i] {
					case 'x':
						x.section('L')
					case 'y':
						y.section('L')
					case 'X':
						x.section('T')
					case 'Y':
						y.section('T')
					case 'n': // nested, in the same order everywhere
						p := x.lock()
						mcrt.Put(opGot, 0)
						q := y.lock()
						y.inside(q, 0)
						y.unlock()
						x.inside(p, 0)
						x.unlock()
					}
				}
			}
			var g group
			g.Go(func() { do(b) })
			do(a)
			g.Wait()
			finish(x, y)
		}
	}
	sx := append(scripts("xyXYn", 1), "xy", "yx", "xn", "nY", "nn")
	for i, a := range sx {
		for _, b := range sx[i:] {
			minus := 0
			if len(a)+len(b) > 2 {
				minus = 1
			}
			add("two mutexes: "+a+" | "+b, minus, two(a, b))
		}
	}
	add("two mutexes: one is used while the other is kept", 0, func() {
		x, y := newMx(0, 1), newMx(1, 1)
		var held, used mcrt.Cell
		var g group
		g.Go(func() {
			p := x.lock()
			held.Set(1)
			mcrt.Until("the use of the other mutex", func() bool { return used.Get() == 1 })
			x.inside(p, 0)
			x.unlock()
		})
		mcrt.Until("the holder", func() bool { return held.Get() == 1 })
		y.section('L')
		if y.try() == nil {
			mcrt.Fail("TryLock failed on a free mutex while another is held")
		}
		mcrt.Put(opGot, 1)
		y.unlock()
		used.Set(1)
		g.Wait()
		finish(x, y)
	})
	// waiting for a change by another goroutine
	add("a goroutine polls for a change made by another", 1, func() {
		x := newMx(0, 0)
		var g group
		g.Go(func() { x.section('L') })
		for n := 0; ; n++ {
			p := x.lock()
			mcrt.Put(opGot, 0)
			v := *p
			x.unlock()
			if v == 1 {
				break
			}
			mcrt.Gosched()
		}
		g.Wait()
		finish(x)
	})
	// values of other types
	add("a mutex of a struct", 1, func() {
		type pair struct {
			a, b int
			s    []int
		}
		m := gost.MutexNew(pair{1, 1, []int{7}})
		var g group
		body := func() {
			p := m.Lock()
			if p.a != p.b || len(p.s) != p.a || p.s[0] != 7 {
				mcrt.Fail("torn value under the lock: %v", *p)
			}
			p.a++
			mcrt.Step()
			p.b++
			p.s = append(p.s, p.a)
			m.Unlock()
		}
		g.Go(body)
		g.Go(body)
		body()
		g.Wait()
		if p := m.Lock(); p.a != 4 || p.b != 4 || len(p.s) != 4 {
			mcrt.Fail("lost update: %v", *p)
		}
		m.Unlock()
	})
	add("a mutex of an empty struct", 0, func() {
		m := gost.MutexNew(struct{}{})
		var in, n mcrt.Cell
		var g group
		body := func() {
			if m.Lock() == nil {
				mcrt.Fail("Lock returned nil")
			}
			if in.Add(1) != 1 {
				mcrt.Fail("two goroutines hold the mutex at the same time")
			}
			mcrt.Step()
			in.Add(-1)
			n.Add(1)
			m.Unlock()
		}
		g.Go(body)
		body()
		g.Wait()
		if n.Get() != 2 {
			mcrt.Fail("%d sections, want 2", n.Get())
		}
	})
	add("a mutex of a nil interface and of a nil pointer", 0, func() {
		m, q := gost.MutexNew[error](nil), gost.MutexNew[*int](nil)
		var g group
		v := 3
		g.Go(func() {
			if p := m.Lock(); *p != nil {
				mcrt.Fail("the value is not nil")
			}
			m.Unlock()
			*q.Lock() = &v
			q.Unlock()
		})
		if r := m.TryLock(); r.IsOk() {
			*r.Unwrap() = nil
			m.Unlock()
		}
		g.Wait()
		if r := q.TryLock(); r.IsErr() || *r.Unwrap() != &v {
			mcrt.Fail("the pointer under the lock is not the one stored")
		}
		q.Unlock()
	})
}
