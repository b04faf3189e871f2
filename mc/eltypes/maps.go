package eltypes

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// table is what HashMap and BTreeMap share.
type table[K, V any] interface {
	Len() gost.USize
	IsEmpty() gost.Bool
	Insert(K, V) gost.Option[V]
	Remove(K) gost.Option[V]
	Get(K) gost.Option[V]
	ContainsKey(K) gost.Bool
	Clear()
	IntoIter() gost.Iterator[gost.Pair[K, V]]
	Keys() gost.Iterator[K]
	Values() gost.Iterator[V]
}

type mapSt[K, V any] struct {
	t table[K, V]
	m []int // value index per key index, -1: absent
}

// bag compares as multisets: gots are matched with wants.
func bag(n int, match func(g, w int) bool, gots int) bool {
	if gots != n {
		return false
	}
	used := make([]bool, n)
	for g := 0; g < gots; g++ {
		ok := false
		for w := 0; w < n && !ok; w++ {
			if !used[w] && match(g, w) {
				used[w], ok = true, true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func tables[K, V any](c *core.C, name string, kk Kind[K], kv Kind[V], mk func() table[K, V], ordered bool) {
	type S = *mapSt[K, V]
	var ops []op[S]
	for i := range kk.Vals {
		key := kk.Vals[i]
		for j := range kv.Vals {
			x := kv.Vals[j]
			ops = append(ops, op[S]{"Insert(" + show(key) + ", " + show(x) + ")", func(s S) string {
				old := s.m[i]
				s.m[i] = j
				return kv.opt("Insert", s.t.Insert(key, x), old)
			}})
		}
		ops = append(ops, op[S]{"Remove(" + show(key) + ")", func(s S) string {
			old := s.m[i]
			s.m[i] = -1
			return kv.opt("Remove", s.t.Remove(key), old)
		}})
	}
	ops = append(ops, op[S]{"Clear", func(s S) string {
		s.t.Clear()
		for i := range s.m {
			s.m[i] = -1
		}
		return ""
	}})
	run(c, name, depthFor(len(ops), budget(c)), func() S {
		s := &mapSt[K, V]{t: mk(), m: make([]int, len(kk.Vals))}
		for i := range s.m {
			s.m[i] = -1
		}
		return s
	}, ops, func(s S) string {
		var wk, wv []int
		for i, j := range s.m {
			if j >= 0 {
				wk, wv = append(wk, i), append(wv, j)
			}
			key := kk.Vals[i]
			if msg := kv.opt("Get("+show(key)+")", s.t.Get(key), j); msg != "" {
				return msg
			}
			if bool(s.t.ContainsKey(key)) != (j >= 0) {
				return fmt.Sprintf("ContainsKey(%s) = %v", show(key), s.t.ContainsKey(key))
			}
		}
		n := len(wk)
		if s.t.Len() != gost.USize(n) || bool(s.t.IsEmpty()) != (n == 0) {
			return fmt.Sprintf("Len() = %d, IsEmpty() = %v, want %d entries", s.t.Len(), s.t.IsEmpty(), n)
		}
		ks, over := drain(s.t.Keys(), n)
		if over || !bag(n, func(g, w int) bool { return kk.Same(ks[g], kk.Vals[wk[w]]) && (!ordered || g == w) }, len(ks)) {
			return fmt.Sprintf("Keys yields %s, want %s", kk.show(ks), kk.wants(wk))
		}
		vs, over := drain(s.t.Values(), n)
		if over || !bag(n, func(g, w int) bool { return kv.Same(vs[g], kv.Vals[wv[w]]) && (!ordered || g == w) }, len(vs)) {
			return fmt.Sprintf("Values yields %s, want %s", kv.show(vs), kv.wants(wv))
		}
		ps, over := drain(s.t.IntoIter(), n)
		if over || !bag(n, func(g, w int) bool {
			return kk.Same(ps[g].Key, kk.Vals[wk[w]]) && kv.Same(ps[g].Value, kv.Vals[wv[w]]) && (!ordered || g == w)
		}, len(ps)) {
			return fmt.Sprintf("IntoIter yields %+v, want keys %s with values %s", ps, kk.wants(wk), kv.wants(wv))
		}
		// counts through the adaptors
		all := func(V) gost.Bool { return true }
		fs, over := drain(s.t.Values().Filter(all), n)
		if over || len(fs) != n {
			return fmt.Sprintf("Values().Filter(all) yields %d of %d values", len(fs), n)
		}
		if v := s.t.Values().CollectToVec(); v.Len() != gost.USize(n) {
			return fmt.Sprintf("Values().CollectToVec() holds %d of %d values", v.Len(), n)
		}
		if v := s.t.Keys().CollectToLinkedList(); v.Len() != gost.USize(n) {
			return fmt.Sprintf("Keys().CollectToLinkedList() holds %d of %d keys", v.Len(), n)
		}
		if v, over := drain(s.t.IntoIter().Rev(), n); over || len(v) != n {
			return fmt.Sprintf("IntoIter().Rev() yields %d of %d entries", len(v), n)
		}
		return ""
	})
}

func hash[K comparable, V any](c *core.C, kk Kind[K], kv Kind[V]) {
	tables(c, "key type "+kk.Name+", value type "+kv.Name, kk, kv, func() table[K, V] { m := gost.HashMapNew[K, V](); return &m }, false)
}

func two[T any](k Kind[T]) Kind[T] {
	if len(k.Vals) > 2 {
		k.Vals = k.Vals[:2]
	}
	return k
}

func kI32() Kind[gost.I32] {
	return Kind[gost.I32]{"I32", []gost.I32{-1, 0, 1}, eq[gost.I32], true}
}

type setSt[K comparable] struct {
	s gost.HashSet[K]
	m []bool
}

func set[K comparable](c *core.C, k Kind[K]) {
	type S = *setSt[K]
	var ops []op[S]
	for i, key := range k.Vals {
		ops = append(ops,
			op[S]{"Insert(" + show(key) + ")", func(s S) string {
				old := s.m[i]
				s.m[i] = true
				if bool(s.s.Insert(key)) == old {
					return fmt.Sprintf("Insert reports %v", !old)
				}
				return ""
			}},
			op[S]{"Remove(" + show(key) + ")", func(s S) string {
				old := s.m[i]
				s.m[i] = false
				if bool(s.s.Remove(key)) != old {
					return fmt.Sprintf("Remove reports %v", !old)
				}
				return ""
			}})
	}
	ops = append(ops, op[S]{"Clear", func(s S) string {
		s.s.Clear()
		for i := range s.m {
			s.m[i] = false
		}
		return ""
	}})
	run(c, "set of "+k.Name, min(5, depthFor(len(ops), budget(c))), func() S {
		return &setSt[K]{s: gost.HashSetNew[K](), m: make([]bool, len(k.Vals))}
	}, ops, func(s S) string {
		var want []int
		for i, in := range s.m {
			if in {
				want = append(want, i)
			}
			if bool(s.s.Contains(k.Vals[i])) != in {
				return fmt.Sprintf("Contains(%s) = %v", show(k.Vals[i]), !in)
			}
		}
		n := len(want)
		if s.s.Len() != gost.USize(n) || bool(s.s.IsEmpty()) != (n == 0) {
			return fmt.Sprintf("Len() = %d, want %d", s.s.Len(), n)
		}
		got, over := drain(s.s.IntoIter(), n)
		if over || !bag(n, func(g, w int) bool { return k.Same(got[g], k.Vals[want[w]]) }, len(got)) {
			return fmt.Sprintf("iteration yields %s, want %s", k.show(got), k.wants(want))
		}
		sl := s.s.AsSlice()
		if !bag(n, func(g, w int) bool { return k.Same(sl[g], k.Vals[want[w]]) }, len(sl)) {
			return fmt.Sprintf("AsSlice gives %s, want %s", k.show(sl), k.wants(want))
		}
		for i, in := range s.m {
			w := -1
			if in {
				w = i
			}
			if msg := k.opt("Get("+show(k.Vals[i])+")", s.s.Get(k.Vals[i]), w); msg != "" {
				return msg
			}
		}
		return ""
	})
}

// Hash explores HashMap and HashSet over key and value types.
func Hash(c *core.C) {
	i := two(kI32())
	hash(c, i, kAny())
	hash(c, i, kPtr())
	hash(c, i, kUnit())
	hash(c, i, kSlice())
	hash(c, i, kFunc())
	hash(c, i, kErr())
	hash(c, i, kOpt())
	hash(c, i, kBool())
	hash(c, i, kBig())
	hash(c, kAny(), i)
	hash(c, kPtr(), i)
	hash(c, kUnit(), i)
	hash(c, kErr(), i)
	hash(c, kBig(), i)
	hash(c, kChan(), i)
	hash(c, kArr(), i)
	hash(c, kString(), i)
	hash(c, kAny(), two(kAny()))
	set(c, kAny())
	set(c, kPtr())
	set(c, kUnit())
	set(c, kErr())
	set(c, kBig())
	set(c, kChan())
	set(c, kArr())
	set(c, kString())
	set(c, kBool())
}

func tree[K gost.Ord[K], V any](c *core.C, kk Kind[K], kv Kind[V]) {
	tables(c, "key type "+kk.Name+", value type "+kv.Name, kk, kv, func() table[K, V] { m := gost.BTreeMapNew[K, V](); return &m }, true)
}

// Tree explores BTreeMap over key and value types.
func Tree(c *core.C) {
	i := two(kI32())
	tree(c, i, kAny())
	tree(c, i, kPtr())
	tree(c, i, kUnit())
	tree(c, i, kSlice())
	tree(c, i, kFunc())
	tree(c, i, kErr())
	tree(c, i, kOpt())
	tree(c, i, kBig())
	tree(c, kString(), i)
	tree(c, kBool(), i)
	u := kU64()
	u.Vals = []gost.U64{0, 1 << 63, ^gost.U64(0)}
	tree(c, u, i)
	tree(c, u, two(kAny()))
}
