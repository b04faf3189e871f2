// Package mcrt is the runtime of the schedule exploration: a scheduler that runs
// one goroutine at a time and asks, at every step and every synchronisation, which
// goroutine goes on; and stand-ins for goroutines, channels, the sync and
// sync/atomic packages and the clock, which the instrumented copy of the library
// uses instead of the real ones. Everything is deterministic, so an execution is
// replayed from its list of choices.
//
// The package is compiled without race instrumentation. In race builds it hides
// its own synchronisation from the race detector and announces exactly the
// happens-before edges of the modelled primitives.
package mcrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// G is a managed goroutine.
type G struct {
	id      int
	wake    chan struct{}
	done    bool
	ready   func() bool // nil: can run
	what    string      // what it waits for
	until   int64       // when asleep (timed)
	timed   bool
	leaving bool
	run     int // steps since it was last switched to
	quiet   bool
}

type choice struct{ n, pick int }

type sched struct {
	gs       []*G
	cur      *G
	now      int64
	prefix   []int
	trace    []choice
	budget   int // preemptions left
	aborting bool
	msg      string
	end      chan struct{}
	steps    int
	spins    int // voluntary switches since time last advanced
	limit    int
	live     int
	log      []string
	recs     []Rec
	over     byte // happens-before token: the end of the execution
	delays   bool // every departure from the default schedule counts
}

// Rec is one event of an execution.
type Rec struct{ G, Op, A int }

// S is the current execution.
var S *sched

const quantum = 300 // steps after which a spinning goroutine gives way

// choose returns one of 0..n-1.
func (s *sched) choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(s.trace)
	p := 0
	if i < len(s.prefix) {
		p = s.prefix[i]
		if p >= n {
			s.fail(fmt.Sprintf("harness: replay diverged at choice %d (%d of %d)", i, p, n))
			p = 0
		}
	}
	s.trace = append(s.trace, choice{n, p})
	return p
}

func (s *sched) fail(msg string) {
	if s.msg == "" {
		s.msg = msg
	}
	s.aborting = true
}

func (g *G) enabled() bool { return !g.done && !g.timed && (g.ready == nil || g.ready()) }

// nextTimer is the sleeper that wakes first (lowest id among equals).
func (s *sched) nextTimer() *G {
	var best *G
	for _, g := range s.gs {
		if !g.done && g.timed && (best == nil || g.until < best.until) {
			best = g
		}
	}
	return best
}

// pick decides who runs next; give: the current goroutine gives way.
func (s *sched) pick(give bool) *G {
	cur := s.cur
	curOK := cur != nil && cur.enabled()
	var others [16]*G
	opts := others[:0]
	if curOK && !give {
		opts = append(opts, cur)
		if s.budget <= 0 {
			return cur
		}
	}
	// after the current one in circular order
	n := len(s.gs)
	start := 0
	if cur != nil {
		start = cur.id + 1
	}
	for k := 0; k < n; k++ {
		g := s.gs[(start+k)%n]
		if g != cur && g.enabled() {
			opts = append(opts, g)
		}
	}
	if give {
		if len(opts) == 0 && curOK {
			opts = append(opts, cur)
		}
	}
	t := s.nextTimer()
	if give && t != nil {
		// nothing but spinning goroutines: time passes
		if s.spins++; s.spins > 2*s.live || len(opts) == 1 && opts[0] == cur {
			opts = opts[:0]
		}
	}
	if len(opts) == 0 {
		if t == nil {
			return nil
		}
		s.fire(t)
		return t
	}
	free := 1 // options that cost nothing
	if !curOK && !s.delays {
		free = len(opts)
	}
	total := len(opts)
	if s.budget <= 0 {
		total = free
	} else if t != nil {
		total++
	}
	p := s.choose(total)
	if p >= free {
		s.budget--
	}
	if p == len(opts) {
		s.fire(t)
		return t
	}
	return opts[p]
}

func (s *sched) fire(t *G) {
	if t.until > s.now {
		s.now = t.until
	}
	t.timed = false
	s.spins = 0
}

// reschedule gives the processor to the chosen goroutine and returns when the
// current one has it again.
func (s *sched) reschedule(give bool) {
	g := s.cur
	if s.aborting {
		s.die(g)
		return
	}
	s.steps++
	if s.steps > s.limit {
		s.fail("livelock: the goroutines keep running without getting anywhere")
		s.die(g)
		return
	}
	g.run++
	if g.run > quantum {
		give = true
	}
	next := s.pick(give)
	if next == nil {
		s.stuck()
		s.die(g)
		return
	}
	if next == g {
		if give {
			g.run = 0
		}
		return
	}
	g.run = 0
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	<-g.wake
	raceOn()
	if s.aborting {
		s.die(g)
	}
}

// stuck reports that nothing can run any more.
func (s *sched) stuck() {
	var w []string
	for _, g := range s.gs {
		if !g.done && !g.quiet {
			w = append(w, fmt.Sprintf("goroutine %d is blocked for ever in %s", g.id, g.what))
		}
	}
	s.fail("deadlock: " + strings.Join(w, "; "))
}

// die ends the current goroutine when the execution is given up.
func (s *sched) die(g *G) {
	if !g.leaving {
		g.leaving = true
		runtime.Goexit()
	}
}

// spawn creates a goroutine that runs f when it is first scheduled.
func (s *sched) spawn(f func()) *G {
	g := &G{id: len(s.gs), wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	s.live++
	go s.body(g, f)
	return g
}

func (s *sched) body(g *G, f func()) {
	raceOff()
	<-g.wake
	raceOn()
	defer s.exit(g)
	if s.aborting {
		return
	}
	f()
}

func (s *sched) exit(g *G) {
	if r := recover(); r != nil && !s.aborting {
		st := string(debug.Stack())
		if i := strings.Index(st, "panic("); i > 0 {
			st = st[i:]
		}
		if len(st) > 1500 {
			st = st[:1500]
		}
		s.fail(fmt.Sprintf("panic in goroutine %d: %v\n%s", g.id, r, st))
	}
	release(tok(&s.over))
	g.done = true
	s.live--
	var next *G
	if !s.aborting && s.live > 0 {
		if s.live == s.quiets() {
			s.aborting = true // only bystanders are left
		} else if next = s.pick(false); next == nil {
			s.stuck()
		}
	}
	if s.aborting {
		next = nil
		for _, o := range s.gs {
			if !o.done {
				next = o
				break
			}
		}
	}
	raceOff()
	if next == nil {
		close(s.end)
	} else {
		s.cur = next
		next.wake <- struct{}{}
	}
	raceOn()
}

// quiets counts the goroutines that may stay behind (tickers and the like).
func (s *sched) quiets() (n int) {
	for _, g := range s.gs {
		if !g.done && g.quiet {
			n++
		}
	}
	return
}

// block waits until ready holds; the caller then goes on at once, so it can act on it.
func block(what string, ready func() bool) {
	s := S
	if s == nil {
		if !ready() {
			panic("mcrt: " + what + " would block outside an execution")
		}
		return
	}
	g := s.cur
	if s.aborting {
		s.die(g)
		return
	}
	g.ready, g.what = ready, what
	s.reschedule(false)
	g.ready, g.what = nil, ""
}

// Step is a point where another goroutine may be scheduled.
func Step() {
	Cost++
	if s := S; s != nil {
		s.reschedule(false)
	}
}

// Y yields after its argument has been evaluated.
func Y[T any](v T) T {
	Step()
	return v
}

// Gosched gives way to the other goroutines.
func Gosched() {
	if s := S; s != nil {
		s.reschedule(true)
	}
}

// Go starts a goroutine.
func Go(f func()) {
	if f == nil {
		panic("go of nil func value")
	}
	s := S
	if s == nil {
		panic("mcrt: goroutine started outside an execution")
	}
	if s.aborting {
		s.die(s.cur)
		return
	}
	s.spawn(f)
	s.reschedule(false)
}

// NumGoroutine counts the goroutines that have not ended.
func NumGoroutine() int {
	if S == nil {
		return 1
	}
	return S.live
}

// Id is the number of the current goroutine.
func Id() int { return S.cur.id }

// Note adds to the log of the execution.
func Note(format string, args ...any) {
	if s := S; s != nil && !s.aborting {
		s.log = append(s.log, fmt.Sprintf("g%d: ", s.cur.id)+fmt.Sprintf(format, args...))
	}
}

// Fail ends the execution as a violation.
func Fail(format string, args ...any) {
	s := S
	if !s.aborting {
		s.fail(fmt.Sprintf(format, args...))
	}
	s.die(s.cur)
}

// Put records an event, Recs returns the events so far.
func Put(op, a int) {
	if s := S; !s.aborting {
		s.recs = append(s.recs, Rec{s.cur.id, op, a})
	}
}

func Recs() []Rec { return append([]Rec(nil), S.recs...) }

// Cell is a shared variable of a scenario, outside the program under test.
type Cell struct{ v int }

func (c *Cell) Get() int  { return c.v }
func (c *Cell) Set(v int) { c.v = v }
func (c *Cell) Add(d int) int {
	c.v += d
	return c.v
}

// Until blocks until f holds.
func Until(what string, f func() bool) { block(what, f) }

// Stats of an exploration.
type Stats struct {
	Schedules, Steps, Points int
	Longest                  int
	Complete                 bool
	Msg                      string
	Trace                    []int
	Next                     []int
	Log                      []string
	Races                    int
}

// Limit is the number of steps after which an execution counts as a livelock.
var Limit = 20000

// once runs one execution.
func once(body func(), bound int, delays bool, prefix []int, limit int) *sched {
	s := &sched{delays: delays, prefix: prefix, budget: bound, end: make(chan struct{}), limit: limit}
	S = s
	g := s.spawn(body)
	s.cur = g
	raceOff()
	g.wake <- struct{}{}
	<-s.end
	raceOn()
	acquire(tok(&s.over))
	S = nil
	return s
}

type reset struct {
	order int
	f     func()
}

var resets []reset

// OnReset tells how to initialise package variables anew; those with the lowest
// order come first.
func OnReset(order int, f func()) {
	resets = append(resets, reset{order, f})
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].order < resets[j].order })
}

// Reset gives the package variables of the program under test their initial values.
func Reset() {
	for _, r := range resets {
		r.f()
	}
}

// Explore runs body under every schedule with at most bound preemptions (with
// delays: at most bound departures of any kind from a round-robin schedule that
// switches only where it must). body is called anew for every execution. It stops
// at the first violation, and after max executions; Next is then where to go on.
func Explore(body func(), bound int, delays bool, prefix []int, max int) (st Stats) {
	for {
		Reset()
		s := once(body, bound, delays, prefix, Limit)
		st.Schedules++
		st.Steps += s.steps
		st.Points += len(s.trace)
		if len(s.trace) > st.Longest {
			st.Longest = len(s.trace)
		}
		if n := raceErrors(); n > 0 && s.msg == "" {
			st.Races = n
			s.msg = "data race"
		}
		if s.msg != "" {
			st.Msg, st.Log = s.msg, s.log
			for _, c := range s.trace {
				st.Trace = append(st.Trace, c.pick)
			}
			return
		}
		i := len(s.trace) - 1
		for i >= 0 && s.trace[i].pick+1 >= s.trace[i].n {
			i--
		}
		if i < 0 {
			st.Complete = true
			return
		}
		prefix = prefix[:0:0]
		for _, c := range s.trace[:i] {
			prefix = append(prefix, c.pick)
		}
		prefix = append(prefix, s.trace[i].pick+1)
		if st.Schedules >= max {
			st.Next = prefix
			return
		}
	}
}
