// C14: BTreeSet is a correct ordered set at every size and history.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	b "verifmc/btreemc"
	"verifmc/core"
	"verifmc/ref"
)

type tree struct{ m gost.BTreeSet[b.Key] }

func (t *tree) Insert(k b.Key, v b.Val, had bool, old b.Val) string {
	if r := t.m.Insert(k); bool(r) != !had {
		return fmt.Sprintf("Insert = %v, element was present: %v", r, had)
	}
	return ""
}
func (t *tree) Remove(k b.Key, had bool, old b.Val) string {
	if r := t.m.Remove(k); bool(r) != had {
		return fmt.Sprintf("Remove = %v, element was present: %v", r, had)
	}
	return ""
}
func (t *tree) Clear()       { t.m.Clear() }
func (t *tree) Len() int     { return int(t.m.Len()) }
func (t *tree) Look(k b.Key) { t.m.Contains(k) }
func (t *tree) Ptr() any     { return &t.m }

func (t *tree) Check(s *b.State) string {
	n := len(s.M)
	if t.m.Len() != gost.USize(n) {
		return fmt.Sprintf("Len() = %d, want %d", t.m.Len(), n)
	}
	if bool(t.m.IsEmpty()) != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v with %d elements", t.m.IsEmpty(), n)
	}
	for i, e := range s.M {
		if !t.m.Contains(b.Key{C: e.C, Tag: -7}) {
			return fmt.Sprintf("Contains(rank %d of %d) = false", i, n)
		}
	}
	for i := 0; i <= n; i++ {
		if t.m.Contains(s.Probe(i)) {
			return fmt.Sprintf("Contains(absent, gap %d of %d) = true", i, n)
		}
	}
	ks, msg := ref.Drain(t.m.IntoIter(), n)
	if msg != "" {
		return "IntoIter: " + msg
	}
	if len(ks) != n {
		return fmt.Sprintf("IntoIter yields %d elements, want %d", len(ks), n)
	}
	for i, e := range s.M {
		if ks[i].C.Pos() != e.C.Pos() {
			return fmt.Sprintf("IntoIter element %d of %d is at %d", i, n, ks[i].C.Pos())
		}
	}
	return ""
}

func main() {
	core.Main("C14", func(c *core.C) {
		c.Assume("elements are ordered by a lawful total order")
		b.Explore(c, func() b.Tree { return &tree{gost.BTreeSetNew[b.Key]()} })
		c.Part("concrete elements", "String and I32 elements, every subset of 6 inserted in 6 rotations, zero-value set", func() {
			c.Solo(func(w *core.W) {
				texts := []gost.String{"", "a", "aa", "b", "é", "日"}
				for mask := 0; mask < 64; mask++ {
					for rot := 0; rot < 6; rot++ {
						name := fmt.Sprintf("subset %06b rotation %d", mask, rot)
						w.Begin(func() string { return name })
						a := gost.BTreeSetNew[gost.String]()
						var z gost.BTreeSet[gost.I32]
						var want []gost.String
						var wantz []gost.I32
						for i := range texts {
							if mask>>i&1 == 1 {
								want = append(want, texts[i])
								wantz = append(wantz, gost.I32(i-3))
							}
							if j := (i + rot) % 6; mask>>j&1 == 1 {
								a.Insert(texts[j])
								z.Insert(gost.I32(j - 3))
							}
						}
						x, _ := ref.Drain(a.IntoIter(), 6)
						y, _ := ref.Drain(z.IntoIter(), 6)
						w.S++
						w.T += 6
						w.V++
						if !ref.Same(x, want) || !ref.Same(y, wantz) {
							c.Fail(name, "%s: iteration yields %v and %v, want %v and %v", name, x, y, want, wantz)
							return
						}
					}
				}
			})
		})
	})
}
