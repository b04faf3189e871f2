// Package btreemc explores ordered containers (C13 BTreeMap, C14 BTreeSet).
//
// Operations are named by rank ("insert into gap i", "remove rank i"), keys
// are cells whose position is renumbered as the container changes, so a state
// does not depend on concrete key values. Every comparison the container makes
// is recorded: the comparisons made while looking up every rank identify the
// shape of the tree without reading its fields.
package btreemc

import (
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/explore"
)

type rec struct {
	on  bool
	buf []byte
}

type cell struct {
	pos int // 2*rank+1 for a live key, 2*gap for a probe or a dead key
	r   *rec
}

// Pos is the current position.
func (c *cell) Pos() int { return c.pos }

// Key is ordered by its cell's position; Tag tells equal keys apart.
type Key struct {
	C   *cell
	Tag int32
}

func (a Key) Cmp(b Key) gost.Ordering {
	if r := a.C.r; r.on {
		r.buf = binary.AppendUvarint(r.buf, uint64(a.C.pos))
		r.buf = binary.AppendUvarint(r.buf, uint64(b.C.pos))
	}
	switch {
	case a.C.pos < b.C.pos:
		return gost.OrderingLess
	case a.C.pos > b.C.pos:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func (a Key) Eq(b Key) gost.Bool { return a.C.pos == b.C.pos }

// Display lets a Key be shown.
func (a Key) Display() gost.String { return gost.String(fmt.Sprint(a.C.pos)) }

type Val int64

// Tree is the container under test.
type Tree interface {
	Insert(k Key, v Val, had bool, old Val) string
	Remove(k Key, had bool, old Val) string
	Clear()
	Len() int
	Check(s *State) string
	Look(k Key)
	Ptr() any
}

type Entry struct {
	C   *cell
	Tag int32
	V   Val
}

// State is the real container and the reference: entries in key order.
type State struct {
	T    Tree
	M    []Entry
	dead []*cell
	r    *rec
	next int64
}

func (s *State) renumber() {
	for i := range s.M {
		s.M[i].C.pos = 2*i + 1
	}
}

// Probe returns a key that lies in gap i (before rank i).
func (s *State) Probe(i int) Key { return Key{&cell{2 * i, s.r}, -1} }

func (s *State) id() int64 { s.next++; return s.next }

func (s *State) InsertGap(i int) string {
	id := s.id()
	k := s.Probe(i)
	k.Tag = int32(id)
	v := Val(id)
	if msg := s.T.Insert(k, v, false, 0); msg != "" {
		return msg
	}
	for _, d := range s.dead {
		if d.pos > 2*i {
			d.pos += 2
		}
	}
	s.M = append(s.M, Entry{})
	copy(s.M[i+1:], s.M[i:])
	s.M[i] = Entry{k.C, k.Tag, v}
	s.renumber()
	return ""
}

func (s *State) Overwrite(i int) string {
	id := s.id()
	k := Key{&cell{2*i + 1, s.r}, int32(id)}
	s.dead = append(s.dead, k.C)
	old := s.M[i].V
	if msg := s.T.Insert(k, Val(id), true, old); msg != "" {
		return msg
	}
	s.M[i].V = Val(id)
	return ""
}

func (s *State) RemoveRank(i int) string {
	k := Key{&cell{2*i + 1, s.r}, -2}
	if msg := s.T.Remove(k, true, s.M[i].V); msg != "" {
		return msg
	}
	s.dead = append(s.dead, s.M[i].C, k.C)
	s.M = append(s.M[:i], s.M[i+1:]...)
	for _, d := range s.dead {
		if d.pos == 2*i+1 {
			d.pos--
		} else if d.pos > 2*i+1 {
			d.pos -= 2
		}
	}
	s.renumber()
	return ""
}

func (s *State) RemoveAbsent(i int) string { return s.T.Remove(s.Probe(i), false, 0) }

func (s *State) Clear() string {
	s.T.Clear()
	for i := range s.M {
		s.dead = append(s.dead, s.M[i].C)
	}
	for _, d := range s.dead {
		d.pos = 0
	}
	s.M = nil
	return ""
}

func (s *State) Observe() string { return s.T.Check(s) }

// Shape is the comparison trace of every successful and unsuccessful look-up.
func (s *State) Shape() []byte {
	s.r.on, s.r.buf = true, nil
	for i := range s.M {
		s.r.buf = binary.AppendUvarint(s.r.buf, uint64(1000+i))
		s.T.Look(Key{s.M[i].C, 0})
	}
	s.r.buf = append(s.r.buf, 0xfe)
	s.T.Look(s.Probe(0))
	s.r.buf = append(s.r.buf, 0xfd)
	s.T.Look(s.Probe(len(s.M)))
	s.r.on = false
	return append(s.r.buf, byte(len(s.M)))
}

// Full is the structural dump of the real object, stale slots included.
func (s *State) Full() []byte {
	rank := map[int64]int64{}
	for i, e := range s.M {
		rank[int64(e.V)] = int64(i)
	}
	d := core.Dumper{ValueType: reflect.TypeOf(Val(0)), Rename: func(v int64) int64 {
		if r, ok := rank[v]; ok {
			return r
		}
		return -1
	}, SkipType: reflect.TypeOf(rec{}), ZeroType: reflect.TypeOf(int32(0))}
	d.Dump(s.T.Ptr())
	return d.Buf
}

// Drain removes everything in the order chosen by pick and checks every step.
func (s *State) Drain(pick func(n int) int, every int) string {
	for step := 0; len(s.M) > 0; step++ {
		i := pick(len(s.M))
		n := len(s.M)
		msg := s.RemoveRank(i)
		if msg == "" && (step%every == 0 || len(s.M) < 3) {
			msg = s.Observe()
		}
		if msg == "" && s.T.Len() != len(s.M) {
			msg = fmt.Sprintf("Len() = %d, want %d", s.T.Len(), len(s.M))
		}
		if msg != "" {
			return fmt.Sprintf("draining, Remove of rank %d of %d: %s", i, n, msg)
		}
	}
	return s.Observe()
}

func first(n int) int  { return 0 }
func last(n int) int   { return n - 1 }
func middle(n int) int { return n / 2 }
func third(n int) int  { return n / 3 }

type op struct {
	name string
	need func(n int) bool
	run  func(s *State) string
}

func ops(maxKeys int, clear bool) []op {
	var out []op
	for i := 0; i < maxKeys; i++ {
		out = append(out, op{fmt.Sprintf("Insert(gap %d)", i), func(n int) bool { return n < maxKeys && i <= n }, func(s *State) string { return s.InsertGap(i) }})
		out = append(out, op{fmt.Sprintf("Insert(rank %d again)", i), func(n int) bool { return i < n }, func(s *State) string { return s.Overwrite(i) }})
		out = append(out, op{fmt.Sprintf("Remove(rank %d)", i), func(n int) bool { return i < n }, func(s *State) string { return s.RemoveRank(i) }})
		out = append(out, op{fmt.Sprintf("Remove(gap %d, absent)", i), func(n int) bool { return i <= n }, func(s *State) string { return s.RemoveAbsent(i) }})
	}
	out = append(out, op{fmt.Sprintf("Remove(gap %d, absent)", maxKeys), func(n int) bool { return n == maxKeys }, func(s *State) string { return s.RemoveAbsent(maxKeys) }})
	if clear {
		out = append(out, op{"Clear", func(n int) bool { return true }, func(s *State) string { return s.Clear() }})
	}
	return out
}

// orders for filling a container of n keys: the gap of the k-th insertion
var fills = map[string]func(k int) int{
	"ascending":  func(k int) int { return k },
	"descending": func(k int) int { return 0 },
	"inward":     func(k int) int { return (k + 1) / 2 },
	"alternate":  func(k int) int { return k * (k % 2) },
	"quarter":    func(k int) int { return k / 4 },
	"scramble":   func(k int) int { return (k*7919 + 13) % (k + 1) },
}

var fillNames = []string{"ascending", "descending", "inward", "alternate", "quarter", "scramble"}

// Explore runs the whole exploration for the container made by mk.
func Explore(c *core.C, mk func() Tree) {
	newState := func() *State { return &State{T: mk(), r: &rec{}} }
	filled := func(n int, f func(k int) int) (*State, string) {
		s := newState()
		for k := 0; k < n; k++ {
			if msg := s.InsertGap(f(k)); msg != "" {
				return s, fmt.Sprintf("filling, insertion %d: %s", k, msg)
			}
		}
		return s, ""
	}
	finals := []func(s *State) string{
		func(s *State) string { return s.Drain(first, 4) },
		func(s *State) string { return s.Drain(last, 4) },
		func(s *State) string { return s.Drain(middle, 4) },
	}
	maxKeys := 32
	if c.Thorough {
		maxKeys = 44
	}
	c.Part("shapes", fmt.Sprintf("every tree shape reachable with at most %d keys (to a fixpoint), every operation at every rank in each, each shape drained in three orders", maxKeys), func() {
		list := ops(maxKeys, true)
		m := &explore.Machine[*State]{
			Name: "tree", Init: newState, Depth: 4 * maxKeys,
			Enabled: func(s *State, o int) bool { return list[o].need(len(s.M)) },
			Apply:   func(s *State, o int) string { return list[o].run(s) },
			Observe: (*State).Observe, Canon: (*State).Shape, Finals: finals,
		}
		for _, o := range list {
			m.Ops = append(m.Ops, o.name)
		}
		c.Extra("tree_shapes", m.Run(c))
	})
	for _, base := range []struct {
		n    int
		fill string
		d    int
	}{{0, "ascending", 6}, {11, "ascending", 3}, {12, "inward", 3}, {17, "ascending", 3}, {17, "descending", 3}, {23, "inward", 2}} {
		d := base.d
		if c.Thorough {
			d++
		}
		c.Part(fmt.Sprintf("stale:%d:%s", base.n, base.fill), fmt.Sprintf("%d keys inserted %s, then every history of %d operations, states told apart by everything in memory (stale slots too)", base.n, base.fill, d), func() {
			list := ops(base.n+d, true)
			m := &explore.Machine[*State]{
				Name: fmt.Sprintf("%d keys inserted %s then ", base.n, base.fill), Depth: d,
				Init:    func() *State { s, _ := filled(base.n, fills[base.fill]); return s },
				Enabled: func(s *State, o int) bool { return list[o].need(len(s.M)) },
				Apply:   func(s *State, o int) string { return list[o].run(s) },
				Observe: (*State).Observe, Canon: (*State).Full, Finals: finals[:1],
			}
			for _, o := range list {
				m.Ops = append(m.Ops, o.name)
			}
			m.Run(c)
		})
	}
	// one operation of every kind at every rank in trees of every size
	maxOne := 160
	if c.Thorough {
		maxOne = 520
	}
	c.Part("every size", fmt.Sprintf("every size to %d filled in %d orders, every single operation at every rank, then drained", maxOne, len(fills)), func() {
		type job struct {
			n    int
			fill string
		}
		var jobs []job
		for n := maxOne; n >= 1; n-- {
			if n > 96 && n%8 != 0 {
				continue
			}
			for _, f := range fillNames {
				jobs = append(jobs, job{n, f})
			}
		}
		c.Par(len(jobs), func(w *core.W, j int) {
			jb := jobs[j]
			drains := []func(int) int{first, last, middle, third}
			list := ops(jb.n+1, false)
			for o, op := range list {
				if !op.need(jb.n) {
					continue
				}
				name := func() string { return fmt.Sprintf("%d keys inserted %s; %s", jb.n, jb.fill, op.name) }
				w.Begin(name)
				s, msg := filled(jb.n, fills[jb.fill])
				if msg == "" {
					msg = op.run(s)
				}
				if msg == "" {
					msg = s.Observe()
				}
				if msg == "" && o%7 == 0 {
					msg = s.Drain(drains[o/7%4], 16)
				}
				w.S++
				w.T += int64(jb.n) + 1
				w.V++
				if msg != "" {
					c.Fail(name(), "%s: %s", name(), msg)
					return
				}
				if c.TimeUp() {
					return
				}
			}
		})
		c.Sample("160 keys inserted inward; Remove(rank 77)")
	})
	pairs := []int{72, 90}
	if c.Thorough {
		pairs = []int{71, 72, 77, 83, 90, 101, 120, 143}
	}
	c.Part("pairs", fmt.Sprintf("trees of %v keys (three levels), every pair of insert/remove operations", pairs), func() {
		type job struct {
			n    int
			fill string
			o    int
		}
		var jobs []job
		for _, n := range pairs {
			for _, f := range []string{"ascending", "descending", "inward"} {
				for o := 0; o < 2*n+1; o++ {
					jobs = append(jobs, job{n, f, o})
				}
			}
		}
		do := func(s *State, o int) (string, string) {
			if o%2 == 0 {
				if o/2 > len(s.M) {
					return "", ""
				}
				return fmt.Sprintf("Insert(gap %d)", o/2), s.InsertGap(o / 2)
			}
			if o/2 >= len(s.M) {
				return "", ""
			}
			return fmt.Sprintf("Remove(rank %d)", o/2), s.RemoveRank(o / 2)
		}
		c.Par(len(jobs), func(w *core.W, j int) {
			jb := jobs[j]
			for o2 := 0; o2 < 2*jb.n+3; o2++ {
				s, msg := filled(jb.n, fills[jb.fill])
				var a, b string
				w.Begin(func() string {
					return fmt.Sprintf("%d keys inserted %s; operation %d, operation %d", jb.n, jb.fill, jb.o, o2)
				})
				if msg == "" {
					a, msg = do(s, jb.o)
				}
				if msg == "" {
					b, msg = do(s, o2)
				}
				if msg == "" {
					msg = s.Observe()
				}
				w.S++
				w.T += 2
				w.V++
				if msg != "" {
					name := fmt.Sprintf("%d keys inserted %s; %s; %s", jb.n, jb.fill, a, b)
					c.Fail(name, "%s: %s", name, msg)
					return
				}
				if c.TimeUp() {
					return
				}
			}
		})
	})
	sizes := []int{}
	for n := 1; n <= 150; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 431, 432, 700)
	if c.Thorough {
		sizes = append(sizes, 300, 500, 863, 1200, 2600, 5200)
	}
	c.Part("orders", "every insertion pattern against every removal pattern at many sizes (to 4 levels), refilled half-way", func() {
		c.Par(len(sizes), func(w *core.W, k int) {
			n := sizes[len(sizes)-1-k]
			every := 1 + n/12
			for _, f := range fillNames {
				for di, d := range []func(int) int{first, last, middle, third, func(n int) int { return (n*7919 + 13) % n }, func(n int) int { return (n - 1) * (n % 2) }} {
					name := fmt.Sprintf("%d keys inserted %s, removal order %d", n, f, di)
					w.Begin(func() string { return name })
					s, msg := filled(n, fills[f])
					if msg == "" {
						msg = s.Observe()
					}
					// remove half, insert a quarter elsewhere, drain
					for i := 0; i < n/2 && msg == ""; i++ {
						msg = s.RemoveRank(d(len(s.M)))
						w.T++
					}
					for i := 0; i < n/4 && msg == ""; i++ {
						msg = s.InsertGap(fills[f](i) % (len(s.M) + 1))
						if msg == "" && i%3 == 0 {
							msg = s.Overwrite(i % len(s.M))
						}
						w.T++
					}
					if msg == "" {
						msg = s.Drain(d, every)
					}
					if msg == "" { // the emptied container is still usable
						if msg = s.InsertGap(0); msg == "" {
							msg = s.Observe()
						}
					}
					w.S++
					w.V++
					w.T += int64(2 * n)
					if msg != "" {
						c.Fail(name, "%s: %s", name, msg)
						return
					}
					if c.TimeUp() {
						return
					}
				}
			}
		})
	})
}
