package mcrt

import "unsafe"

// item is a value on its way; s is its happens-before token.
type item struct {
	v any
	s byte
}

// waiter is a goroutine waiting in a send, a receive or a select.
type waiter struct {
	g    *G
	it   *item // to send, or received
	sel  *Sel
	idx  int
	done *bool // shared by the cases of a select: completed
	ok   bool
	back byte
}

type core struct {
	buf    []*item
	cap    int
	closed bool
	cs     byte // token of close
	bs     byte // token of freed buffer space
	recvq  []*waiter
	sendq  []*waiter
}

func tok(b *byte) unsafe.Pointer { return unsafe.Pointer(b) }

// Chan stands for chan T.
type Chan[T any] struct{ c *core }

func newCore(n int) *core {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &core{cap: n}
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{newCore(n)} }

func (c *Chan[T]) core() *core {
	if c == nil {
		return nil
	}
	return c.c
}

func (c *Chan[T]) Send(v T) { send(c.core(), v) }

func (c *Chan[T]) Recv() T {
	v, _ := recv(c.core())
	r, _ := v.(T)
	return r
}

func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := recv(c.core())
	r, _ := v.(T)
	return r, ok
}

func (c *Chan[T]) Close() { closeCore(c.core()) }

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return length(c.c)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

func length(c *core) int {
	Step()
	return len(c.buf)
}

// take removes the first live waiter of the queue.
func take(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done == nil {
			return w
		}
		if !*w.done {
			*w.done = true
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if w.done == nil || !*w.done {
			return true
		}
	}
	return false
}

// trySend sends when that needs no waiting.
func trySend(c *core, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := take(&c.recvq); w != nil {
		it := &item{v: v}
		release(tok(&it.s))
		w.it, w.ok = it, true
		finish(w)
		acquire(tok(&w.back))
		return true
	}
	if len(c.buf) < c.cap {
		acquire(tok(&c.bs))
		it := &item{v: v}
		release(tok(&it.s))
		c.buf = append(c.buf, it)
		return true
	}
	return false
}

func tryRecv(c *core) (v any, ok, can bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		acquire(tok(&it.s))
		release(tok(&c.bs))
		if w := take(&c.sendq); w != nil {
			c.buf = append(c.buf, w.it)
			release(tok(&w.back)) // this receive happens before that send completes
			w.ok = true
			finish(w)
		}
		return it.v, true, true
	}
	if w := take(&c.sendq); w != nil {
		acquire(tok(&w.it.s))
		release(tok(&w.back))
		w.ok = true
		finish(w)
		return w.it.v, true, true
	}
	if c.closed {
		acquire(tok(&c.cs))
		return nil, false, true
	}
	return nil, false, false
}

// finish lets the waiter go on.
func finish(w *waiter) {
	if w.sel != nil {
		w.sel.I, w.sel.w = w.idx, w
		w.sel.fin = true
	}
	w.g.ready = nil
}

func never() bool { return false }

func leaving() bool { return S != nil && S.aborting }

// park waits until finish is called for the goroutine.
func park(what string) {
	s := S
	if s == nil {
		panic("mcrt: " + what + " would block outside an execution")
	}
	g := s.cur
	if s.aborting {
		s.die(g)
		return
	}
	g.ready, g.what = never, what
	s.reschedule(false)
	g.what = ""
}

func send(c *core, v any) {
	Step()
	if leaving() {
		return
	}
	if c == nil {
		park("a send on a nil channel")
		return
	}
	if trySend(c, v) {
		return
	}
	it := &item{v: v}
	release(tok(&it.s))
	w := &waiter{g: self(), it: it}
	c.sendq = append(c.sendq, w)
	release(tok(&w.back))
	park("a channel send")
	if leaving() {
		return
	}
	if !w.ok {
		panic("send on closed channel")
	}
	acquire(tok(&w.back))
}

func self() *G {
	if S == nil {
		return nil
	}
	return S.cur
}

func recv(c *core) (any, bool) {
	Step()
	if leaving() {
		return nil, false
	}
	if c == nil {
		park("a receive from a nil channel")
		return nil, false
	}
	if v, ok, can := tryRecv(c); can {
		return v, ok
	}
	w := &waiter{g: self()}
	c.recvq = append(c.recvq, w)
	release(tok(&w.back))
	park("a channel receive")
	if leaving() {
		return nil, false
	}
	if !w.ok {
		acquire(tok(&c.cs))
		return nil, false
	}
	acquire(tok(&w.it.s))
	return w.it.v, true
}

func closeCore(c *core) {
	Step()
	if leaving() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	release(tok(&c.cs))
	c.closed = true
	for w := take(&c.recvq); w != nil; w = take(&c.recvq) {
		finish(w)
	}
	for w := take(&c.sendq); w != nil; w = take(&c.sendq) {
		finish(w)
	}
}

// --- select ---

// Case is one communication of a select.
type Case struct {
	c    *core
	send bool
	v    any
}

func (c *Chan[T]) SendCase(v T) Case { return Case{c.core(), true, v} }
func (c *Chan[T]) RecvCase() Case    { return Case{c.core(), false, nil} }

// Sel is the outcome of a select: the case taken, -1 for default.
type Sel struct {
	I   int
	v   any
	ok  bool
	w   *waiter
	fin bool
}

// Got returns what the select received from c.
func (c *Chan[T]) Got(s *Sel) T {
	r, _ := s.v.(T)
	return r
}

func (c *Chan[T]) Got2(s *Sel) (T, bool) {
	r, _ := s.v.(T)
	return r, s.ok
}

func Select(def bool, cs ...Case) *Sel {
	Step()
	r := &Sel{I: -1}
	if leaving() {
		return r
	}
	var can []int
	for i, k := range cs {
		if k.c == nil {
			continue
		}
		if k.send && (k.c.closed || live(k.c.recvq) || len(k.c.buf) < k.c.cap) ||
			!k.send && (k.c.closed || live(k.c.sendq) || len(k.c.buf) > 0) {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		n := 0
		if S != nil {
			n = S.choose(len(can))
		}
		i := can[n]
		r.I = i
		if cs[i].send {
			trySend(cs[i].c, cs[i].v)
		} else {
			r.v, r.ok, _ = tryRecv(cs[i].c)
		}
		return r
	}
	if def {
		return r
	}
	done := false
	for i, k := range cs {
		if k.c == nil {
			continue
		}
		w := &waiter{g: self(), sel: r, idx: i, done: &done}
		release(tok(&w.back))
		if k.send {
			w.it = &item{v: k.v}
			release(tok(&w.it.s))
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	park("a select")
	if leaving() {
		r.I = 0
		return r
	}
	w := r.w
	k := cs[r.I]
	switch {
	case k.send && !w.ok:
		panic("send on closed channel")
	case k.send:
		acquire(tok(&w.back))
	case w.ok:
		acquire(tok(&w.it.s))
		r.v, r.ok = w.it.v, true
	default:
		acquire(tok(&k.c.cs))
	}
	return r
}
