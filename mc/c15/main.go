// C15: HashMap and HashSet are correct unordered collections under every history.
package main

import (
	"fmt"
	"sort"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/eltypes"
	"verifmc/explore"
	"verifmc/ref"
)

type K = gost.I32
type V = gost.I64
type P = gost.Pair[K, V]

const nKeys = 3

// snap is an iterator triple and what it must still yield.
type snap struct {
	it   gost.Iterator[P]
	ks   gost.Iterator[K]
	vs   gost.Iterator[V]
	want map[K]V
	gotP []P
	gotK []K
	gotV []V
}

type st struct {
	m    gost.HashMap[K, V]
	w    map[K]V
	s    *snap
	next V
}

func copyMap(m map[K]V) map[K]V {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func opt(what string, o gost.Option[V], v V, had bool) string {
	if had && !ref.IsSome(o, v) {
		return fmt.Sprintf("%s = %s, want Some(%d)", what, ref.Opt(o), v)
	}
	if !had && !ref.IsNone(o) {
		return fmt.Sprintf("%s = %s, want None", what, ref.Opt(o))
	}
	return ""
}

func (s *st) insert(k K, fresh bool) string {
	v := V(k) + 7
	if fresh {
		s.next++
		v = 100 + s.next
	}
	old, had := s.w[k]
	s.w[k] = v
	return opt(fmt.Sprintf("Insert(%d, %d)", k, v), s.m.Insert(k, v), old, had)
}

func (s *st) remove(k K) string {
	old, had := s.w[k]
	delete(s.w, k)
	return opt(fmt.Sprintf("Remove(%d)", k), s.m.Remove(k), old, had)
}

func pairs(ps []P, want map[K]V) string {
	if len(ps) != len(want) {
		return fmt.Sprintf("%d entries %v, want %v", len(ps), ps, want)
	}
	seen := map[K]bool{}
	for _, p := range ps {
		v, ok := want[p.Key]
		if !ok || seen[p.Key] || v != p.Value {
			return fmt.Sprintf("entries %v, want %v", ps, want)
		}
		seen[p.Key] = true
	}
	return ""
}

func bag[T K | V](got []T, want []T) bool {
	a, b := ref.Copy(got), ref.Copy(want)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return ref.Same(a, b)
}

func split(m map[K]V) (ks []K, vs []V) {
	for k, v := range m {
		ks = append(ks, k)
		vs = append(vs, v)
	}
	return
}

func checkMap(m *gost.HashMap[K, V], want map[K]V, probes []K) string {
	n := len(want)
	if m.Len() != gost.USize(n) || bool(m.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d entries", m.Len(), m.IsEmpty(), n)
	}
	for _, k := range probes {
		v, had := want[k]
		if msg := opt(fmt.Sprintf("Get(%d)", k), m.Get(k), v, had); msg != "" {
			return msg
		}
		if bool(m.ContainsKey(k)) != had {
			return fmt.Sprintf("ContainsKey(%d) = %v with contents %v", k, m.ContainsKey(k), want)
		}
	}
	ps, msg := ref.Drain(m.IntoIter(), n)
	if msg != "" {
		return "IntoIter: " + msg
	}
	if msg = pairs(ps, want); msg != "" {
		return "IntoIter yields " + msg
	}
	wk, wv := split(want)
	ks, msg := ref.Drain(m.Keys(), n)
	if msg != "" || !bag(ks, wk) {
		return fmt.Sprintf("Keys yields %v, want %v %s", ks, wk, msg)
	}
	vs, msg := ref.Drain(m.Values(), n)
	if msg != "" || !bag(vs, wv) {
		return fmt.Sprintf("Values yields %v, want %v %s", vs, wv, msg)
	}
	raw := m.AsMap()
	if len(raw) != n {
		return fmt.Sprintf("AsMap() = %v, want %v", raw, want)
	}
	for k, v := range want {
		if x, ok := raw[k]; !ok || x != v {
			return fmt.Sprintf("AsMap() = %v, want %v", raw, want)
		}
	}
	return ""
}

func (s *st) observe() string {
	return checkMap(&s.m, s.w, []K{0, 1, 2, 3, -1})
}

func (s *st) take() string {
	s.s = &snap{it: s.m.IntoIter(), ks: s.m.Keys(), vs: s.m.Values(), want: copyMap(s.w)}
	return ""
}

func (s *st) step() string {
	if p := s.s.it.Next(); p.IsSome() {
		s.s.gotP = append(s.s.gotP, p.Unwrap())
	} else if len(s.s.gotP) != len(s.s.want) {
		return fmt.Sprintf("iterator ends after %d of %d entries", len(s.s.gotP), len(s.s.want))
	}
	if p := s.s.ks.Next(); p.IsSome() {
		s.s.gotK = append(s.s.gotK, p.Unwrap())
	}
	if p := s.s.vs.Next(); p.IsSome() {
		s.s.gotV = append(s.s.gotV, p.Unwrap())
	}
	return ""
}

// finishIter drains the held iterators: they must yield exactly the snapshot.
func (s *st) finishIter() string {
	if s.s == nil {
		return ""
	}
	n := len(s.s.want)
	a, m1 := ref.Drain(s.s.it, n)
	b, m2 := ref.Drain(s.s.ks, n)
	d, m3 := ref.Drain(s.s.vs, n)
	if m1+m2+m3 != "" {
		return "held iterator: " + m1 + m2 + m3
	}
	if msg := pairs(append(s.s.gotP, a...), s.s.want); msg != "" {
		return "an iterator taken before later changes yields " + msg
	}
	wk, wv := split(s.s.want)
	if g := append(s.s.gotK, b...); !bag(g, wk) {
		return fmt.Sprintf("Keys taken before later changes yields %v, want %v", g, wk)
	}
	if g := append(s.s.gotV, d...); !bag(g, wv) {
		return fmt.Sprintf("Values taken before later changes yields %v, want %v", g, wv)
	}
	return s.observe()
}

type op struct {
	name string
	need func(s *st) bool
	run  func(s *st) string
}

func mapOps() []op {
	any := func(*st) bool { return true }
	var out []op
	for k := K(0); k < nKeys; k++ {
		out = append(out,
			op{fmt.Sprintf("Insert(%d)", k), any, func(s *st) string { return s.insert(k, false) }},
			op{fmt.Sprintf("Insert(%d, new value)", k), any, func(s *st) string { return s.insert(k, true) }},
			op{fmt.Sprintf("Remove(%d)", k), any, func(s *st) string { return s.remove(k) }})
	}
	held := func(s *st) bool { return s.s != nil }
	return append(out,
		op{"Clear", any, func(s *st) string { s.m.Clear(); s.w = map[K]V{}; return "" }},
		op{"take iterators", func(s *st) bool { return s.s == nil }, (*st).take},
		op{"Next", func(s *st) bool { return held(s) && len(s.s.gotP) < len(s.s.want) }, (*st).step})
}

// ---- sets

type sst struct {
	m    gost.HashSet[K]
	w    map[K]bool
	it   gost.Iterator[K]
	snap []K
	got  []K
}

func keysOf(m map[K]bool) (r []K) {
	for k := range m {
		r = append(r, k)
	}
	return
}

func checkSet(m *gost.HashSet[K], want map[K]bool, probes []K) string {
	n := len(want)
	if m.Len() != gost.USize(n) || bool(m.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d elements", m.Len(), m.IsEmpty(), n)
	}
	for _, k := range probes {
		if bool(m.Contains(k)) != want[k] {
			return fmt.Sprintf("Contains(%d) = %v with contents %v", k, m.Contains(k), keysOf(want))
		}
		g := m.Get(k)
		if want[k] && !ref.IsSome(g, k) || !want[k] && !ref.IsNone(g) {
			return fmt.Sprintf("Get(%d) = %s with contents %v", k, ref.Opt(g), keysOf(want))
		}
	}
	wk := keysOf(want)
	ks, msg := ref.Drain(m.IntoIter(), n)
	if msg != "" || !bag(ks, wk) {
		return fmt.Sprintf("iteration yields %v, want %v %s", ks, wk, msg)
	}
	if sl := m.AsSlice(); !bag(sl, wk) {
		return fmt.Sprintf("AsSlice() = %v, want %v", sl, wk)
	}
	return ""
}

func (s *sst) observe() string { return checkSet(&s.m, s.w, []K{0, 1, 2, 3, 4, -1}) }

type sop struct {
	name string
	need func(s *sst) bool
	run  func(s *sst) string
}

func setOps(n K) []sop {
	any := func(*sst) bool { return true }
	var out []sop
	for k := K(0); k < n; k++ {
		out = append(out,
			sop{fmt.Sprintf("Insert(%d)", k), any, func(s *sst) string {
				had := s.w[k]
				s.w[k] = true
				if r := s.m.Insert(k); bool(r) == had {
					return fmt.Sprintf("Insert(%d) = %v, element was present: %v", k, r, had)
				}
				return ""
			}},
			sop{fmt.Sprintf("Remove(%d)", k), any, func(s *sst) string {
				had := s.w[k]
				delete(s.w, k)
				if r := s.m.Remove(k); bool(r) != had {
					return fmt.Sprintf("Remove(%d) = %v, element was present: %v", k, r, had)
				}
				return ""
			}})
	}
	return append(out,
		sop{"Clear", any, func(s *sst) string { s.m.Clear(); s.w = map[K]bool{}; return "" }},
		sop{"take iterator", func(s *sst) bool { return s.it == nil }, func(s *sst) string {
			s.it, s.snap = s.m.IntoIter(), keysOf(s.w)
			return ""
		}},
		sop{"Next", func(s *sst) bool { return s.it != nil && len(s.got) < len(s.snap) }, func(s *sst) string {
			p := s.it.Next()
			if p.IsNone() {
				return "iterator ends early"
			}
			s.got = append(s.got, p.Unwrap())
			return ""
		}})
}

func (s *sst) finish() string {
	if s.it == nil {
		return ""
	}
	r, msg := ref.Drain(s.it, len(s.snap))
	if g := append(s.got, r...); msg != "" || !bag(g, s.snap) {
		return fmt.Sprintf("an iterator taken before later changes yields %v, want %v %s", g, s.snap, msg)
	}
	return s.observe()
}

func main() {
	core.Main("C15", func(c *core.C) {
		c.Assume("keys are comparable values equal to themselves (no NaN keys)", "iteration order is unspecified; results are compared as multisets")
		depth := 6
		if c.Thorough {
			depth = 7
		}
		ml := mapOps()
		for kind, kn := range []string{"New", "WithCapacity(2)", "WithCapacity(100)"} {
			c.Part("map:"+kn, fmt.Sprintf("every sequence of %d operations to length %d without merging (iterators held across changes)", len(ml), depth), func() {
				m := &explore.Machine[*st]{
					Name: "map " + kn, Depth: depth,
					Init: func() *st {
						s := &st{w: map[K]V{}}
						switch kind {
						case 0:
							s.m = gost.HashMapNew[K, V]()
						case 1:
							s.m = gost.HashMapWithCapacity[K, V](2)
						case 2:
							s.m = gost.HashMapWithCapacity[K, V](100)
						}
						return s
					},
					Enabled: func(s *st, o int) bool { return ml[o].need(s) },
					Apply:   func(s *st, o int) string { return ml[o].run(s) },
					Observe: (*st).observe, Finals: []func(s *st) string{(*st).finishIter},
				}
				for _, o := range ml {
					m.Ops = append(m.Ops, o.name)
				}
				m.Run(c)
			})
		}
		sl := setOps(4)
		for kind, kn := range []string{"New", "WithCapacity(3)", "FromSlice(1,0,1)"} {
			c.Part("set:"+kn, fmt.Sprintf("every sequence of %d operations to length %d without merging (an iterator held across changes)", len(sl), depth), func() {
				m := &explore.Machine[*sst]{
					Name: "set " + kn, Depth: depth,
					Init: func() *sst {
						s := &sst{w: map[K]bool{}}
						switch kind {
						case 0:
							s.m = gost.HashSetNew[K]()
						case 1:
							s.m = gost.HashSetWithCapacity[K](3)
						case 2:
							s.m = gost.HashSetFromSlice([]K{1, 0, 1})
							s.w[1], s.w[0] = true, true
						}
						return s
					},
					Enabled: func(s *sst, o int) bool { return sl[o].need(s) },
					Apply:   func(s *sst, o int) string { return sl[o].run(s) },
					Observe: (*sst).observe, Finals: []func(s *sst) string{(*sst).finish},
				}
				for _, o := range sl {
					m.Ops = append(m.Ops, o.name)
				}
				m.Run(c)
			})
		}
		c.Part("from slice", "HashSetFromSlice of every sequence over 4 values to length 6", func() {
			c.Solo(func(w *core.W) {
				for n := 0; n <= 6; n++ {
					total := 1
					for i := 0; i < n; i++ {
						total *= 4
					}
					for x := 0; x < total; x++ {
						sl := make([]K, n)
						want := map[K]bool{}
						for i, y := 0, x; i < n; i++ {
							sl[i] = K(y % 4)
							want[sl[i]] = true
							y /= 4
						}
						w.Begin(func() string { return fmt.Sprintf("HashSetFromSlice(%v)", sl) })
						orig := ref.Copy(sl)
						s := gost.HashSetFromSlice(sl)
						msg := checkSet(&s, want, []K{0, 1, 2, 3, 4})
						if msg == "" && !ref.Same(orig, sl) {
							msg = fmt.Sprintf("the given slice became %v", sl)
						}
						w.S++
						w.T++
						w.V++
						if msg != "" {
							c.Fail(fmt.Sprintf("HashSetFromSlice(%v)", orig), "HashSetFromSlice(%v): %s", orig, msg)
							return
						}
					}
				}
			})
		})
		maxLen := 300
		if c.Thorough {
			maxLen = 2000
		}
		more := []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 20000}
		c.Part("large", fmt.Sprintf("every size to %d and around powers of two to 20000: fill, overwrite, remove a third, re-insert, clear and refill", maxLen), func() {
			c.Par(maxLen+1+len(more), func(w *core.W, n int) {
				if n > maxLen {
					n = more[n-maxLen-1]
				}
				name := fmt.Sprintf("size %d", n)
				w.Begin(func() string { return name })
				s := &st{m: gost.HashMapNew[K, V](), w: map[K]V{}}
				hs, hw := gost.HashSetNew[K](), map[K]bool{}
				probes := []K{-5, K(n) * 3, K(n) + 1}
				for i := 0; i < n; i++ {
					probes = append(probes, K(i*3))
				}
				msg := ""
				do := func(f func() string) {
					if msg == "" {
						msg = f()
					}
					w.T++
				}
				look := func() {
					do(func() string { return checkMap(&s.m, s.w, probes) })
					do(func() string { return checkSet(&hs, hw, probes) })
				}
				ins := func(k K) {
					do(func() string { return s.insert(k, true) })
					if bool(hs.Insert(k)) == hw[k] {
						msg = fmt.Sprintf("set Insert(%d) wrong", k)
					}
					hw[k] = true
				}
				rem := func(k K) {
					do(func() string { return s.remove(k) })
					if bool(hs.Remove(k)) != hw[k] {
						msg = fmt.Sprintf("set Remove(%d) wrong", k)
					}
					delete(hw, k)
				}
				for i := 0; i < n; i++ {
					ins(K(i * 3))
				}
				look()
				for i := 0; i < n; i += 2 {
					ins(K(i * 3))
				}
				for i := 0; i < n; i += 3 {
					rem(K(i * 3))
					rem(K(i*3 + 1))
				}
				look()
				s.take()
				for i := 0; i < n; i += 6 {
					ins(K(i * 3))
				}
				for i := 1; i < n; i += 6 {
					rem(K(i * 3))
				}
				look()
				do(s.finishIter)
				s.m.Clear()
				hs.Clear()
				s.w, hw = map[K]V{}, map[K]bool{}
				look()
				for i := n - 1; i >= 0; i-- {
					ins(K(i * 3))
				}
				look()
				w.S++
				w.V++
				if msg != "" {
					c.Fail(name, "%s: %s", name, msg)
				}
			})
		})
		eltypes.Hash(c)
		c.Part("key types", "string, pair, bool and float keys, all subsets of 5 with every single removal", func() {
			c.Solo(func(w *core.W) {
				keyType(w, "String", []gost.String{"", "a", "b", "ab", "é"})
				keyType(w, "Pair", []P{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {-1, 1}})
				keyType(w, "F64", []gost.F64{0, 1, -1, 0.5, 1e300})
				keyType(w, "Byte", []gost.Byte{0, 1, 2, 254, 255})
				keyType(w, "array", [][2]gost.U8{{}, {0, 1}, {1, 0}, {1, 1}, {255, 255}})
			})
		})
	})
}

func keyType[T comparable](w *core.W, name string, keys []T) {
	for mask := 0; mask < 32; mask++ {
		for rem := 0; rem < len(keys); rem++ {
			desc := fmt.Sprintf("%s keys, subset %05b, Remove(key %d)", name, mask, rem)
			w.Begin(func() string { return desc })
			m := gost.HashMapNew[T, gost.I32]()
			s := gost.HashSetNew[T]()
			in := map[T]bool{}
			for i, k := range keys {
				if mask>>i&1 == 1 {
					m.Insert(k, gost.I32(i))
					s.Insert(k)
					in[k] = true
				}
			}
			had := in[keys[rem]]
			r := m.Remove(keys[rem])
			r2 := s.Remove(keys[rem])
			delete(in, keys[rem])
			msg := ""
			if bool(r.IsSome()) != had || bool(r2) != had || had && r.Unwrap() != gost.I32(rem) {
				msg = "Remove returns the wrong result"
			}
			for i, k := range keys {
				g := m.Get(k)
				if bool(g.IsSome()) != in[k] || in[k] && g.Unwrap() != gost.I32(i) || bool(s.Contains(k)) != in[k] {
					msg = fmt.Sprintf("Get/Contains(key %d) wrong", i)
				}
			}
			if m.Len() != gost.USize(len(in)) || s.Len() != gost.USize(len(in)) {
				msg = "wrong length"
			}
			w.S++
			w.T += 3
			w.V++
			if msg != "" {
				w.C.Fail(desc, "%s: %s", desc, msg)
				return
			}
		}
	}
}
