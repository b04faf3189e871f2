package mcrt

import "time"

// Time advances only when nothing can run, or where the exploration lets the
// earliest timer fire while other goroutines could go on.

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Clock is the virtual time of the execution in nanoseconds.
func Clock() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

func Now() time.Time                   { return epoch.Add(time.Duration(Clock())) }
func Since(t time.Time) time.Duration  { return Now().Sub(t) }
func Until2(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if d <= 0 {
		s.reschedule(false)
		return
	}
	g := s.cur
	if s.aborting {
		s.die(g)
		return
	}
	g.timed, g.until, g.what = true, s.now+int64(d), "Sleep"
	if g.until < s.now {
		g.until = 1<<63 - 1
	}
	s.reschedule(false)
}

// Timer stands for time.Timer, Ticker for time.Ticker.
type Timer struct {
	C    *Chan[time.Time]
	f    func()
	gen  int
	on   bool
	tick time.Duration
}

type Ticker struct {
	C *Chan[time.Time]
	t *Timer
}

func (t *Timer) start(d time.Duration) {
	t.gen++
	t.on = true
	gen := t.gen
	s := S
	if s == nil || s.aborting {
		return
	}
	var g *G
	g = s.spawn(func() {
		for {
			if t.gen != gen || !t.on {
				return
			}
			if t.tick == 0 {
				t.on = false
			}
			if t.f != nil {
				t.f()
				return
			}
			trySend(t.C.c, Now())
			if t.tick == 0 {
				return
			}
			Sleep(t.tick)
		}
	})
	g.quiet = t.f == nil
	if d > 0 {
		g.timed, g.until = true, s.now+int64(d)
	}
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: MakeChan[time.Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	Step()
	was := t.on
	t.on = false
	if t.C != nil {
		t.C.c.buf = nil
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Timer{C: MakeChan[time.Time](1), tick: d}
	t.start(d)
	return &Ticker{t.C, t}
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.tick = d; t.t.Stop(); t.t.start(d) }

func Tick(d time.Duration) *Chan[time.Time] { return NewTicker(d).C }
