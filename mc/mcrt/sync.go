package mcrt

import "sync"

// Mutex stands for sync.Mutex.
type Mutex struct {
	held bool
	t    byte
}

func (m *Mutex) Lock() {
	block("Mutex.Lock", func() bool { return !m.held })
	if leaving() {
		return
	}
	m.held = true
	acquire(tok(&m.t))
}

func (m *Mutex) TryLock() bool {
	Step()
	if m.held || leaving() {
		return false
	}
	m.held = true
	acquire(tok(&m.t))
	return true
}

func (m *Mutex) Unlock() {
	Step()
	if leaving() {
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	release(tok(&m.t))
	m.held = false
	Step()
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int // writers waiting: they hold off new readers
	t, rt   byte
}

func (m *RWMutex) Lock() {
	m.waiting++
	block("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	if leaving() {
		return
	}
	m.w = true
	acquire(tok(&m.t))
	acquire(tok(&m.rt))
}

func (m *RWMutex) TryLock() bool {
	Step()
	if m.w || m.r > 0 || leaving() {
		return false
	}
	m.w = true
	acquire(tok(&m.t))
	acquire(tok(&m.rt))
	return true
}

func (m *RWMutex) Unlock() {
	Step()
	if leaving() {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	release(tok(&m.t))
	m.w = false
	Step()
}

func (m *RWMutex) RLock() {
	block("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 })
	if leaving() {
		return
	}
	m.r++
	acquire(tok(&m.t))
}

func (m *RWMutex) TryRLock() bool {
	Step()
	if m.w || m.waiting > 0 || leaving() {
		return false
	}
	m.r++
	acquire(tok(&m.t))
	return true
}

func (m *RWMutex) RUnlock() {
	Step()
	if leaving() {
		return
	}
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	release(tok(&m.rt))
	m.r--
	Step()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	n int
	t byte
}

func (w *WaitGroup) Add(d int) {
	Step()
	if leaving() {
		return
	}
	if d < 0 {
		release(tok(&w.t))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	block("WaitGroup.Wait", func() bool { return w.n == 0 })
	acquire(tok(&w.t))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
	t    byte
}

func (o *Once) Do(f func()) {
	Step()
	if o.done {
		acquire(tok(&o.t))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			release(tok(&o.t))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond stands for sync.Cond.
type Cond struct {
	L  sync.Locker
	ws []*bool
	t  byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	Step()
	b := new(bool)
	c.ws = append(c.ws, b)
	c.L.Unlock()
	block("Cond.Wait", func() bool { return *b })
	acquire(tok(&c.t))
	c.L.Lock()
}

func (c *Cond) Signal() {
	Step()
	release(tok(&c.t))
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}

func (c *Cond) Broadcast() {
	Step()
	release(tok(&c.t))
	for _, b := range c.ws {
		*b = true
	}
	c.ws = nil
}

// Pool stands for sync.Pool: what was put last is got first.
type Pool struct {
	New   func() any
	items []any
	t     byte
}

func (p *Pool) Get() any {
	Step()
	if !leaving() {
		if n := len(p.items); n > 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			acquire(tok(&p.t))
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	Step()
	if x == nil || leaving() {
		return
	}
	release(tok(&p.t))
	p.items = append(p.items, x)
}
