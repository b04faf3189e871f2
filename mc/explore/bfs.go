// Package explore holds the explicit-state search used by most checks: a
// state is the history of operations that reaches it on a fresh real object;
// histories that reach the same canonical form of the real object (plus the
// reference model) are explored once.
package explore

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"verifmc/core"
)

// Machine describes the system under test: the real object and its model.
type Machine[S any] struct {
	Name    string
	Init    func() S
	Ops     []string
	Enabled func(s S, op int) bool   // nil: always
	Apply   func(s S, op int) string // runs op on object and model; "" or the disagreement
	Observe func(s S) string         // compares everything observable; "" or the disagreement
	Canon   func(s S) []byte         // canonical form; nil: no merging (all sequences)
	// Finals are destructive observations, each run on a fresh replay of every
	// new state.
	Finals    []func(s S) string
	Depth     int
	MaxStates int
}

type node struct {
	parent *node
	op     int16
	depth  int16
}

func (n *node) path() []int {
	p := make([]int, n.depth)
	for n.parent != nil {
		p[n.depth-1] = int(n.op)
		n = n.parent
	}
	return p
}

func (m *Machine[S]) Show(path []int) string {
	parts := make([]string, len(path))
	for i, o := range path {
		parts[i] = m.Ops[o]
	}
	return m.Name + "[" + strings.Join(parts, "; ") + "]"
}

type key [16]byte

func hash(b []byte) key {
	s := sha256.Sum256(b)
	var k key
	copy(k[:], s[:16])
	return k
}

const shards = 64

type set struct {
	mu [shards]sync.Mutex
	m  [shards]map[key]struct{}
}

func newSet() *set {
	s := &set{}
	for i := range s.m {
		s.m[i] = map[key]struct{}{}
	}
	return s
}

func (s *set) add(k key) bool {
	i := int(k[0]) % shards
	s.mu[i].Lock()
	defer s.mu[i].Unlock()
	if _, ok := s.m[i][k]; ok {
		return false
	}
	s.m[i][k] = struct{}{}
	return true
}

// Run explores breadth first. Every transition is executed on the real code
// and compared with the model, and every new state is fully observed (twice,
// so that an observer that modifies the object is seen).
func (m *Machine[S]) Run(c *core.C) (states int) {
	seen := newSet()
	root := &node{}
	var count atomic.Int64
	ok := true
	c.Solo(func(w *core.W) {
		w.Begin(func() string { return m.Show(nil) })
		s := m.Init()
		if msg := m.observe2(s); msg != "" {
			c.Fail(m.Show(nil), "%s: %s", m.Show(nil), msg)
			ok = false
		}
		if m.Canon != nil {
			seen.add(hash(m.Canon(m.Init())))
		}
		w.S++
	})
	if !ok || c.Stopped() {
		return
	}
	count.Add(1)
	frontier := []*node{root}
	for depth := 0; depth < m.Depth && len(frontier) > 0; depth++ {
		if c.TimeUp() {
			return int(count.Load())
		}
		var mu sync.Mutex
		var next []*node
		const chunk = 64
		nchunks := (len(frontier) + chunk - 1) / chunk
		c.Par(nchunks, func(w *core.W, ci int) {
			var mine []*node
			lo, hi := ci*chunk, min((ci+1)*chunk, len(frontier))
			for _, n := range frontier[lo:hi] {
				if c.Stopped() {
					return
				}
				base := n.path()
				for op := range m.Ops {
					path := append(append(make([]int, 0, len(base)+1), base...), op)
					w.Begin(func() string { return m.Show(path) })
					s, enabled, msg := m.replay(path)
					if !enabled {
						continue
					}
					w.T++
					if msg != "" {
						c.Fail(m.Show(path), "%s: %s", m.Show(path), msg)
						return
					}
					fresh := true
					if m.Canon != nil {
						fresh = seen.add(hash(m.Canon(s)))
					}
					if msg := m.observe2(s); msg != "" {
						c.Fail(m.Show(path), "%s: %s", m.Show(path), msg)
						return
					}
					w.V++
					if fresh {
						w.S++
						count.Add(1)
						mine = append(mine, &node{n, int16(op), n.depth + 1})
						for fi, f := range m.Finals {
							s, _, msg := m.replay(path)
							if msg == "" {
								msg = try(func() string { return f(s) })
							}
							w.V++
							w.T++
							if msg != "" {
								c.Fail(m.Show(path), "%s, final check %d: %s", m.Show(path), fi, msg)
								return
							}
						}
						if len(path) >= 3 && c.WantSample() {
							c.Sample("%s", m.Show(path))
						}
					}
				}
			}
			mu.Lock()
			next = append(next, mine...)
			mu.Unlock()
		})
		frontier = next
		if m.MaxStates > 0 && int(count.Load()) > m.MaxStates {
			c.Truncate()
			return int(count.Load())
		}
	}
	return int(count.Load())
}

func (m *Machine[S]) observe2(s S) string {
	if msg := m.Observe(s); msg != "" {
		return msg
	}
	if msg := m.Observe(s); msg != "" {
		return "second look: " + msg
	}
	return ""
}

// replay runs the history on a fresh object; only the last step is reported.
func (m *Machine[S]) replay(path []int) (s S, enabled bool, msg string) {
	s = m.Init()
	for i, op := range path {
		last := i == len(path)-1
		if last {
			if m.Enabled != nil && !m.Enabled(s, op) {
				return s, false, ""
			}
		}
		if e := m.step(s, op); e != "" {
			return s, true, e
		}
	}
	return s, true, ""
}

func try(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panics: %v", r)
		}
	}()
	return f()
}

func (m *Machine[S]) step(s S, op int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s panics: %v", m.Ops[op], r)
		}
	}()
	return m.Apply(s, op)
}
