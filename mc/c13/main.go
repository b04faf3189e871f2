// C13: BTreeMap is a correct ordered map at every size and history.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	b "verifmc/btreemc"
	"verifmc/core"
	"verifmc/eltypes"
	"verifmc/ref"
)

type tree struct{ m gost.BTreeMap[b.Key, b.Val] }

func opt(what string, o gost.Option[b.Val], had bool, old b.Val) string {
	if had {
		if !ref.IsSome(o, old) {
			return fmt.Sprintf("%s = %s, want Some(%d)", what, ref.Opt(o), old)
		}
	} else if !ref.IsNone(o) {
		return fmt.Sprintf("%s = %s, want None", what, ref.Opt(o))
	}
	return ""
}

func (t *tree) Insert(k b.Key, v b.Val, had bool, old b.Val) string {
	return opt("Insert", t.m.Insert(k, v), had, old)
}
func (t *tree) Remove(k b.Key, had bool, old b.Val) string {
	return opt("Remove", t.m.Remove(k), had, old)
}
func (t *tree) Clear()       { t.m.Clear() }
func (t *tree) Len() int     { return int(t.m.Len()) }
func (t *tree) Look(k b.Key) { t.m.Get(k) }
func (t *tree) Ptr() any     { return &t.m }

func (t *tree) Check(s *b.State) string {
	n := len(s.M)
	if t.m.Len() != gost.USize(n) {
		return fmt.Sprintf("Len() = %d, want %d", t.m.Len(), n)
	}
	if bool(t.m.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v with %d entries", t.m.IsEmpty(), n)
	}
	for i, e := range s.M {
		k := b.Key{C: e.C, Tag: -7}
		if msg := opt(fmt.Sprintf("Get(rank %d of %d)", i, n), t.m.Get(k), true, e.V); msg != "" {
			return msg
		}
		if !t.m.ContainsKey(k) {
			return fmt.Sprintf("ContainsKey(rank %d of %d) = false", i, n)
		}
	}
	for i := 0; i <= n; i++ {
		k := s.Probe(i)
		if msg := opt(fmt.Sprintf("Get(absent, gap %d of %d)", i, n), t.m.Get(k), false, 0); msg != "" {
			return msg
		}
		if t.m.ContainsKey(k) {
			return fmt.Sprintf("ContainsKey(absent, gap %d of %d) = true", i, n)
		}
	}
	ps, msg := ref.Drain(t.m.IntoIter(), n)
	if msg != "" {
		return "IntoIter: " + msg
	}
	ks, msg := ref.Drain(t.m.Keys(), n)
	if msg != "" {
		return "Keys: " + msg
	}
	vs, msg := ref.Drain(t.m.Values(), n)
	if msg != "" {
		return "Values: " + msg
	}
	if len(ps) != n || len(ks) != n || len(vs) != n {
		return fmt.Sprintf("IntoIter/Keys/Values yield %d/%d/%d elements, want %d", len(ps), len(ks), len(vs), n)
	}
	for i, e := range s.M {
		if ps[i].Key.C != e.C || ps[i].Key.Tag != e.Tag || ps[i].Value != e.V {
			return fmt.Sprintf("IntoIter element %d of %d is key tag %d value %d, want tag %d value %d", i, n, ps[i].Key.Tag, ps[i].Value, e.Tag, e.V)
		}
		if ks[i].C != e.C || ks[i].Tag != e.Tag {
			return fmt.Sprintf("Keys element %d of %d has tag %d, want %d", i, n, ks[i].Tag, e.Tag)
		}
		if vs[i] != e.V {
			return fmt.Sprintf("Values element %d of %d = %d, want %d", i, n, vs[i], e.V)
		}
	}
	return ""
}

func main() {
	core.Main("C13", func(c *core.C) {
		c.Assume("keys are ordered by a lawful total order")
		b.Explore(c, func() b.Tree { return &tree{gost.BTreeMapNew[b.Key, b.Val]()} })
		eltypes.Tree(c)
		c.Part("concrete keys", "String and I64 keys in every order of 6, and the zero-value map", func() {
			c.Solo(concrete)
		})
	})
}

func concrete(w *core.W) {
	texts := []gost.String{"", "a", "aa", "b", "é", "日"}
	var perm func(p []int, k int)
	perm = func(p []int, k int) {
		if w.C.Stopped() {
			return
		}
		if k == len(p) {
			name := fmt.Sprintf("order %v", p)
			w.Begin(func() string { return name })
			m := gost.BTreeMapNew[gost.String, gost.String]()
			var z gost.BTreeMap[gost.I64, gost.I32]
			msg := ""
			for i, x := range p {
				if r := m.Insert(texts[x], texts[i]); r.IsSome() {
					msg = "Insert of a new text returns Some"
				}
				if r := z.Insert(gost.I64(x)*1e15-3e15, gost.I32(i)); r.IsSome() {
					msg = "Insert of a new number returns Some"
				}
			}
			ks, _ := ref.Drain(m.Keys(), len(p))
			zs, _ := ref.Drain(z.Keys(), len(p))
			if !ref.Same(ks, texts) {
				msg = fmt.Sprintf("Keys() = %v", ks)
			}
			for i, x := range p {
				if i >= len(zs) || zs[i] != gost.I64(i)*1e15-3e15 {
					msg = fmt.Sprintf("Keys() = %v", zs)
				}
				if r := m.Get(texts[x]); !ref.IsSome(r, texts[i]) {
					msg = "Get = " + ref.Opt(r)
				}
				if r := z.Remove(gost.I64(x)*1e15 - 3e15); !ref.IsSome(r, gost.I32(i)) {
					msg = "Remove = " + ref.Opt(r)
				}
			}
			if !z.IsEmpty() {
				msg = "not empty after removing all"
			}
			w.S++
			w.V++
			w.T += 18
			if msg != "" {
				w.C.Fail(name, "%s: %s", name, msg)
			}
			return
		}
		for i := k; i < len(p); i++ {
			p[k], p[i] = p[i], p[k]
			perm(p, k+1)
			p[k], p[i] = p[i], p[k]
		}
	}
	perm([]int{0, 1, 2, 3, 4, 5}, 0)
}
