// C29: assertions panic exactly when violated.
package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/wide"
)

// message forms: the arguments after the values, and what must appear
type message struct {
	args []any
	text string
}

func messages() []message {
	v := gost.VecNew[gost.I32]()
	v.Push(4)
	return []message{
		{nil, ""},
		{[]any{gost.String("plain message")}, "plain message"},
		{[]any{"a Go string"}, "a Go string"},
		{[]any{gost.String("value {} here"), gost.I32(-42)}, "value -42 here"},
		{[]any{"value {} here", gost.String("{}")}, "value {} here"},
		{[]any{gost.String("{}{}, {} and {{}}"), gost.String("x"), v, gost.Some(gost.Bool(true))}, "xVec[4], Some(true) and {}"},
		{[]any{gost.String("100% é世😀 {{{}}}"), gost.U8(7)}, "100% é世😀 {7}"},
		{[]any{gost.String("line\n{}\n"), gost.String("%d")}, "line\n%d\n"},
	}
}

// panicking runs f and tells whether and with which text it panicked.
func panicking(f func()) (yes bool, text string) {
	yes = true
	defer func() {
		if r := recover(); yes {
			text = fmt.Sprint(r)
			if _, bad := r.(runtime.Error); bad {
				yes = false // an accident, not an assertion
				text = "a run-time error instead: " + text
			}
		}
	}()
	f()
	yes = false
	return
}

// pairs checks AssertEq and AssertNe on every pair of values.
func pairs[T gost.Eq[T]](c *core.C, name string, vals []T, same func(i, j int) bool, show func(T) string) {
	c.Part(name, fmt.Sprintf("every ordered pair of %d values x %d forms of the message", len(vals), len(messages())), func() {
		c.Par(len(vals), func(w *core.W, i int) {
			for j := range vals {
				for _, m := range messages() {
					a, b := vals[i], vals[j]
					sa, sb := show(a), show(b)
					w.S++
					w.V++
					for _, ne := range []bool{false, true} {
						w.T++
						f := "AssertEq"
						if ne {
							f = "AssertNe"
						}
						d := fmt.Sprintf("%s(%s, %s, %v)", f, sa, sb, m.args)
						w.Begin(func() string { return name + " " + d })
						yes, text := panicking(func() {
							if ne {
								gost.AssertNe(a, b, m.args...)
							} else {
								gost.AssertEq(a, b, m.args...)
							}
						})
						if want := same(i, j) == ne; yes != want {
							c.Fail(name+" "+d, "%s on %s: panics %v, want %v", d, name, yes, want)
							return
						}
						if yes && !strings.Contains(text, m.text) {
							c.Fail(name+" "+d, "%s on %s: the panic text %q lacks %q", d, name, text, m.text)
							return
						}
						if show(a) != sa || show(b) != sb {
							c.Fail(name+" changes "+d, "%s on %s changes its arguments to %s and %s", d, name, show(a), show(b))
							return
						}
						if yes && m.text != "" && c.WantSample() {
							c.Sample("%s panics with %q", d, text)
						}
					}
				}
			}
		})
	})
}

func simple[T interface {
	comparable
	gost.Eq[T]
}](c *core.C, name string, vals ...T) {
	pairs(c, name, vals, func(i, j int) bool { return vals[i] == vals[j] }, func(x T) string { return fmt.Sprint(x) })
}

// byText is for collections: equal when they were built from equal contents.
func byKey[T gost.Eq[T]](c *core.C, name string, vals []T, keys []string) {
	show := func(x T) string {
		if d, ok := any(x).(interface{ Display() gost.String }); ok {
			return string(d.Display())
		}
		return fmt.Sprint(x)
	}
	if strings.HasPrefix(name, "Hash") {
		show = func(x T) string {
			return fmt.Sprint(reflect.ValueOf(x).Type(), len(any(x).(interface{ Display() gost.String }).Display()))
		}
	}
	pairs(c, name, vals, func(i, j int) bool { return keys[i] == keys[j] }, show)
}

// Mod3 is a user-defined comparable type: equal modulo 3.
type Mod3 struct{ n int }

func (a Mod3) Eq(b Mod3) gost.Bool  { return a.n%3 == b.n%3 }
func (a Mod3) Display() gost.String { return gost.String(fmt.Sprint("mod3:", a.n)) }

func main() {
	core.Main("C29", func(c *core.C) {
		simple(c, "ISize", gost.ISize(0), 1, -1, math.MaxInt64, math.MinInt64, 1<<32)
		simple(c, "I8", gost.I8(0), 1, -1, 127, -128)
		simple(c, "I16", gost.I16(0), 1, -1, 256, math.MaxInt16, math.MinInt16)
		simple(c, "I32", gost.I32(0), 1, -1, 256, 65536, math.MaxInt32, math.MinInt32)
		simple(c, "I64", gost.I64(0), 1, -1, 1<<32, math.MaxInt64, math.MinInt64)
		simple(c, "USize", gost.USize(0), 1, 1<<32, math.MaxUint64)
		simple(c, "U8", gost.U8(0), 1, 128, 255)
		simple(c, "U16", gost.U16(0), 1, 256, 65535)
		simple(c, "U32", gost.U32(0), 1, 256, 65536, math.MaxUint32)
		simple(c, "U64", gost.U64(0), 1, 1<<32, math.MaxUint64)
		simple(c, "Byte", gost.Byte(0), 1, 128, 255)
		simple(c, "Char", gost.Char(0), 'a', 'b', 0x10FFFF)
		simple(c, "Bool", gost.Bool(false), true)
		simple(c, "String", gost.String(""), "a", "b", "ab", "é", "e", "{}", "{{", "%d")
		nan := math.NaN()
		simple(c, "F64", gost.F64(0), gost.F64(math.Copysign(0, -1)), 1, -1, gost.F64(math.Inf(1)), gost.F64(math.Inf(-1)), gost.F64(nan), 5e-324)
		simple(c, "F32", gost.F32(0), gost.F32(math.Copysign(0, -1)), 1, -1, gost.F32(math.Inf(1)), gost.F32(math.Inf(-1)), gost.F32(nan), 1e-45)
		var us []gost.U128
		var is []gost.I128
		for _, w := range [][2]uint64{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {^uint64(0), ^uint64(0)}, {^uint64(0), 0}, {0, ^uint64(0)}} {
			us = append(us, wide.U(w[0], w[1]))
			is = append(is, wide.I(w[0], w[1]))
		}
		pairs(c, "U128", us, func(i, j int) bool { return i == j }, func(x gost.U128) string { return fmt.Sprint(wide.UWords(x)) })
		pairs(c, "I128", is, func(i, j int) bool { return i == j }, func(x gost.I128) string { return fmt.Sprint(wide.IWords(x)) })
		simple(c, "Pair", gost.Pair[gost.I32, gost.String]{Key: 0, Value: ""}, gost.Pair[gost.I32, gost.String]{Key: 1, Value: ""}, gost.Pair[gost.I32, gost.String]{Key: 0, Value: "x"}, gost.Pair[gost.I32, gost.String]{Key: 1, Value: "x"})
		mods := []Mod3{{0}, {1}, {2}, {3}, {7}}
		pairs(c, "custom", mods, func(i, j int) bool { return mods[i].n%3 == mods[j].n%3 }, func(m Mod3) string { return fmt.Sprint(m.n) })

		contents := [][]gost.I32{{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0}, {0, 1, 2}, {2, 1, 0}}
		var keys, setKeys []string
		for _, s := range contents {
			keys = append(keys, fmt.Sprint(s))
			set := 0
			for _, x := range s {
				set |= 1 << x
			}
			setKeys = append(setKeys, fmt.Sprint(set))
		}
		var vecs []gost.Vec[gost.I32]
		var deqs []gost.VecDeque[gost.I32]
		var lists []gost.LinkedList[gost.I32]
		var bsets []gost.BTreeSet[gost.I32]
		var hsets []gost.HashSet[gost.I32]
		var hmaps []gost.HashMap[gost.I32, gost.I32]
		var mapKeys []string
		for _, s := range contents {
			v, d, l := gost.VecNew[gost.I32](), gost.VecDequeNew[gost.I32](), gost.LinkedListNew[gost.I32]()
			bs, hs := gost.BTreeSetNew[gost.I32](), gost.HashSetNew[gost.I32]()
			hm := gost.HashMapNew[gost.I32, gost.I32]()
			mk := map[gost.I32]int{}
			for i, x := range s {
				v.Push(x)
				l.PushBack(x)
				bs.Insert(x)
				hs.Insert(x)
				hm.Insert(x, gost.I32(i%2))
				mk[x] = i % 2
			}
			for i := len(s) - 1; i >= 0; i-- {
				d.PushFront(s[i])
			}
			vecs, deqs, lists = append(vecs, v), append(deqs, d), append(lists, l)
			bsets, hsets = append(bsets, bs), append(hsets, hs)
			hmaps = append(hmaps, hm)
			mapKeys = append(mapKeys, fmt.Sprint(mk))
		}
		byKey(c, "Vec", vecs, keys)
		byKey(c, "VecDeque", deqs, keys)
		byKey(c, "LinkedList", lists, keys)
		byKey(c, "BTreeSet", bsets, setKeys)
		byKey(c, "HashSet", hsets, setKeys)
		byKey(c, "HashMap", hmaps, mapKeys)
		opts := []gost.Option[gost.I32]{gost.None[gost.I32](), gost.Some(gost.I32(0)), gost.Some(gost.I32(1))}
		byKey(c, "Option", opts, []string{"N", "0", "1"})
		e1 := errors.New("e1")
		rs := []gost.Result[gost.I32]{gost.Ok(gost.I32(0)), gost.Ok(gost.I32(1)), gost.Err[gost.I32](e1), gost.Err[gost.I32](errors.New("e2"))}
		byKey(c, "Result", rs, []string{"0", "1", "e1", "e2"})

		c.Part("Assert", "both conditions x every form of the message", func() {
			c.Solo(func(w *core.W) {
				for _, cond := range []bool{false, true} {
					for _, m := range messages() {
						w.S++
						w.T++
						w.V++
						d := fmt.Sprintf("Assert(%v, %v)", cond, m.args)
						w.Begin(func() string { return d })
						yes, text := panicking(func() { gost.Assert(gost.Bool(cond), m.args...) })
						if yes == cond {
							c.Fail(d, "%s: panics %v", d, yes)
						} else if yes && !strings.Contains(text, m.text) {
							c.Fail(d, "%s: the panic text %q lacks %q", d, text, m.text)
						} else if yes && text == "" {
							c.Fail(d, "%s: the panic text is empty", d)
						}
					}
				}
			})
		})
		c.Part("Panic, Unimplemented, Unreachable, Todo", "every form of the message", func() {
			c.Solo(func(w *core.W) {
				for _, m := range messages() {
					if m.args == nil {
						continue
					}
					w.S++
					w.T++
					w.V++
					msg, ok := m.args[0].(gost.String)
					if !ok {
						msg = gost.String(m.args[0].(string))
					}
					d := fmt.Sprintf("Panic(%v)", m.args)
					w.Begin(func() string { return d })
					yes, text := panicking(func() { gost.Panic(msg, m.args[1:]...) })
					if !yes || text != m.text {
						c.Fail(d, "%s: panics %v with %q, want %q", d, yes, text, m.text)
					}
				}
				for _, f := range []struct {
					name, std string
					run       func(...gost.String)
				}{{"Unimplemented", "not implemented", gost.Unimplemented}, {"Unreachable", "unreachable", gost.Unreachable}, {"Todo", "todo", gost.Todo}} {
					for _, m := range []string{"-", "", "m", "with {} braces", "é\n%d", "not implemented"} {
						w.S++
						w.T++
						w.V++
						want := m
						var args []gost.String
						if m == "-" {
							want = f.std
						} else {
							args = append(args, gost.String(m))
						}
						d := fmt.Sprintf("%s(%q)", f.name, args)
						w.Begin(func() string { return d })
						if yes, text := panicking(func() { f.run(args...) }); !yes || text != want {
							c.Fail(d, "%s: panics %v with %q, want %q", d, yes, text, want)
						}
					}
				}
			})
		})
	})
}
