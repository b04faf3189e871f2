// C21: Format, Display, Debug, Print and Println.
package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

// A pat describes the texts a value may display as: a fixed text, an ordered
// list of entries, or an unordered one (hash collections).
type pat struct {
	text     string
	kids     []*pat
	pre, suf string
	kind     byte // 't' text, 's' list with separators, 'b' unordered list, 'c' concatenation
}

func t(s string) *pat { return &pat{kind: 't', text: s} }

// match returns every rest of s that remains after p matched a prefix of it.
func (p *pat) match(s string) []string {
	switch p.kind {
	case 't':
		if strings.HasPrefix(s, p.text) {
			return []string{s[len(p.text):]}
		}
		return nil
	case 'c':
		rests := []string{s}
		for _, k := range p.kids {
			var next []string
			for _, r := range rests {
				next = append(next, k.match(r)...)
			}
			rests = next
		}
		return rests
	}
	if !strings.HasPrefix(s, p.pre) {
		return nil
	}
	s = s[len(p.pre):]
	used := make([]bool, len(p.kids))
	var out []string
	var rec func(s string, done int)
	rec = func(s string, done int) {
		if done == len(p.kids) {
			if strings.HasPrefix(s, p.suf) {
				out = append(out, s[len(p.suf):])
			}
			return
		}
		if done > 0 {
			if !strings.HasPrefix(s, ", ") {
				return
			}
			s = s[2:]
		}
		for i, k := range p.kids {
			if used[i] || (p.kind == 's' && i != done) {
				continue
			}
			used[i] = true
			for _, r := range k.match(s) {
				rec(r, done+1)
			}
			used[i] = false
			if len(out) > 0 && p.kind == 'b' {
				return // one way suffices for texts compared as a whole
			}
		}
	}
	rec(s, 0)
	return out
}

func (p *pat) is(s string) bool {
	for _, r := range p.match(s) {
		if r == "" {
			return true
		}
	}
	return false
}

func (p *pat) String() string {
	switch p.kind {
	case 't':
		return p.text
	}
	var parts []string
	for _, k := range p.kids {
		parts = append(parts, k.String())
	}
	if p.kind == 'c' {
		return strings.Join(parts, "")
	}
	s := p.pre + strings.Join(parts, ", ") + p.suf
	if p.kind == 'b' && len(parts) > 1 {
		s += " (entries in any order)"
	}
	return s
}

// val is a value with what it must display as.
type val[T any] struct {
	v T
	p *pat
}

type displayer interface{ Display() gost.String }

// Shown is a user-defined displayable type.
type Shown struct{ s string }

func (x Shown) Display() gost.String { return gost.String("<" + x.s + ">") }

type chk struct {
	c *core.C
	w *core.W
}

func (k *chk) fail(key, format string, a ...any) { k.c.Fail(key, format, a...) }

// one checks the displays of one value.
func one[T any](k *chk, name string, x val[T]) {
	w := k.w
	w.S++
	w.V++
	w.Begin(func() string { return name + ": " + x.p.String() })
	d := any(x.v).(displayer)
	for i := 0; i < 2; i++ {
		w.T++
		if got := string(d.Display()); !x.p.is(got) {
			k.fail("display:"+name, "Display of a %s is %q, want %q", name, got, x.p.String())
			return
		}
	}
	w.T++
	if got := string(gost.Format("{}", x.v)); !x.p.is(got) {
		k.fail("format:"+name, "Format(\"{}\", a %s) = %q, want %q", name, got, x.p.String())
	}
	var dbg string
	has := true
	switch g := any(x.v).(type) {
	case interface{ Debug() gost.String }:
		dbg = string(g.Debug())
	case interface{ Debug() string }:
		dbg = g.Debug()
	default:
		has = false
	}
	if has && strings.ContainsAny(name, "[") {
		w.T++
		if !x.p.is(dbg) {
			k.fail("debug:"+name, "Debug of a %s is %q, want %q", name, dbg, x.p.String())
		}
	}
	if k.c.WantSample() {
		k.c.Sample("%s displays as %q", name, d.Display())
	}
}

// tuples lists every sequence over xs of length 0..max.
func tuples[T any](xs []val[T], max int) [][]val[T] {
	out := [][]val[T]{nil}
	last := out
	for n := 0; n < max; n++ {
		var next [][]val[T]
		for _, s := range last {
			for _, x := range xs {
				next = append(next, append(append([]val[T]{}, s...), x))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// spread lists sequences covering every length up to max but few contents.
func spread[T any](xs []val[T], max int) [][]val[T] {
	out := [][]val[T]{nil}
	for n := 1; n <= max; n++ {
		for r := 0; r < len(xs); r++ {
			var s []val[T]
			for i := 0; i < n; i++ {
				s = append(s, xs[(r+i)%len(xs)])
			}
			out = append(out, s)
		}
	}
	return out
}

func kids[T any](s []val[T]) (out []*pat) {
	for _, x := range s {
		out = append(out, x.p)
	}
	return
}

func list[T any](kind byte, pre string, s []val[T], suf string) *pat {
	return &pat{kind: kind, pre: pre, kids: kids(s), suf: suf}
}

func vecs[T any](seqs [][]val[T]) (out []val[gost.Vec[T]]) {
	for i, s := range seqs {
		v := gost.VecNew[T]()
		if i%2 == 1 {
			v = gost.VecWithCapacity[T](gost.USize(len(s) + 3))
		}
		for _, x := range s {
			v.Push(x.v)
		}
		out = append(out, val[gost.Vec[T]]{v, list('s', "Vec[", s, "]")})
	}
	return
}

func deques[T any](seqs [][]val[T]) (out []val[gost.VecDeque[T]]) {
	for _, s := range seqs {
		for rot := 0; rot <= len(s); rot++ {
			v := gost.VecDequeWithCapacity[T](gost.USize(len(s)))
			for i := rot; i < len(s); i++ {
				v.PushBack(s[i].v)
			}
			for i := rot - 1; i >= 0; i-- {
				v.PushFront(s[i].v)
			}
			out = append(out, val[gost.VecDeque[T]]{v, list('s', "VecDeque[", s, "]")})
		}
	}
	return
}

func lists[T any](seqs [][]val[T]) (out []val[gost.LinkedList[T]]) {
	for _, s := range seqs {
		v := gost.LinkedListNew[T]()
		for _, x := range s {
			v.PushBack(x.v)
		}
		out = append(out, val[gost.LinkedList[T]]{v, list('s', "LinkedList[", s, "]")})
	}
	return
}

func options[T any](xs []val[T]) (out []val[gost.Option[T]]) {
	out = append(out, val[gost.Option[T]]{gost.None[T](), t("None")})
	for _, x := range xs {
		out = append(out, val[gost.Option[T]]{gost.Some(x.v), list('s', "Some(", []val[T]{x}, ")")})
	}
	return
}

func results[T any](xs []val[T]) (out []val[gost.Result[T]]) {
	for _, x := range xs {
		out = append(out, val[gost.Result[T]]{gost.Ok(x.v), list('s', "Ok(", []val[T]{x}, ")")})
	}
	return
}

func pairs[A, B any](as []val[A], bs []val[B]) (out []val[gost.Pair[A, B]]) {
	for _, a := range as {
		for _, b := range bs {
			out = append(out, val[gost.Pair[A, B]]{gost.Pair[A, B]{Key: a.v, Value: b.v}, &pat{kind: 's', pre: "Pair[", kids: []*pat{a.p, b.p}, suf: "]"}})
		}
	}
	return
}

// A key comes with its rank, in ascending order.
type key[K any] []val[K]

func (ks key[K]) subsets() (out [][]int) {
	for m := 0; m < 1<<len(ks); m++ {
		var s []int
		for i := range ks {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		out = append(out, s)
	}
	return
}

func entry(a, b *pat) *pat { return &pat{kind: 'c', kids: []*pat{a, t(": "), b}} }

func bmaps[K gost.Ord[K], V any](ks key[K], vs []val[V]) (out []val[gost.BTreeMap[K, V]]) {
	for n, s := range ks.subsets() {
		for r := range vs {
			m := gost.BTreeMapNew[K, V]()
			p := &pat{kind: 's', pre: "BTreeMap{", suf: "}"}
			for j, i := range s {
				p.kids = append(p.kids, entry(ks[i].p, vs[(r+j)%len(vs)].p))
			}
			for j := range s {
				if n%2 == 1 {
					j = len(s) - 1 - j
				}
				m.Insert(ks[s[j]].v, vs[(r+j)%len(vs)].v)
			}
			out = append(out, val[gost.BTreeMap[K, V]]{m, p})
		}
	}
	return
}

func bsets[K gost.Ord[K]](ks key[K]) (out []val[gost.BTreeSet[K]]) {
	for n, s := range ks.subsets() {
		m := gost.BTreeSetNew[K]()
		p := &pat{kind: 's', pre: "BTreeSet{", suf: "}"}
		for _, i := range s {
			p.kids = append(p.kids, ks[i].p)
		}
		for j := range s {
			if n%2 == 1 {
				j = len(s) - 1 - j
			}
			m.Insert(ks[s[j]].v)
		}
		out = append(out, val[gost.BTreeSet[K]]{m, p})
	}
	return
}

func hmaps[K comparable, V any](ks key[K], vs []val[V]) (out []val[gost.HashMap[K, V]]) {
	for _, s := range ks.subsets() {
		for r := range vs {
			m := gost.HashMapNew[K, V]()
			p := &pat{kind: 'b', pre: "HashMap{", suf: "}"}
			for j, i := range s {
				p.kids = append(p.kids, entry(ks[i].p, vs[(r+j)%len(vs)].p))
				m.Insert(ks[i].v, vs[(r+j)%len(vs)].v)
			}
			out = append(out, val[gost.HashMap[K, V]]{m, p})
		}
	}
	return
}

func hsets[K comparable](ks key[K]) (out []val[gost.HashSet[K]]) {
	for _, s := range ks.subsets() {
		m := gost.HashSetNew[K]()
		p := &pat{kind: 'b', pre: "HashSet{", suf: "}"}
		for _, i := range s {
			p.kids = append(p.kids, ks[i].p)
			m.Insert(ks[i].v)
		}
		out = append(out, val[gost.HashSet[K]]{m, p})
	}
	return
}

func ints() []val[gost.I32] {
	return []val[gost.I32]{{-1, t("-1")}, {0, t("0")}, {70000, t("70000")}}
}

func strs() []val[gost.String] {
	return []val[gost.String]{{"", t("")}, {"{}", t("{}")}, {"a, é%d", t("a, é%d")}}
}

func shown() []val[Shown] {
	return []val[Shown]{{Shown{""}, t("<>")}, {Shown{"}}"}, t("<}}>")}}
}

func ikeys() key[gost.I32] { return key[gost.I32]{{-7, t("-7")}, {0, t("0")}, {3, t("3")}} }
func skeys() key[gost.String] {
	return key[gost.String]{{"", t("")}, {"k", t("k")}, {"{}", t("{}")}}
}

func each[T any](k *chk, name string, xs []val[T]) {
	for _, x := range xs {
		if k.c.Stopped() {
			return
		}
		one(k, name, x)
	}
}

func thin[T any](xs []val[T], n int) []val[T] {
	if len(xs) <= n {
		return xs
	}
	out := []val[T]{}
	for i := 0; i < n; i++ {
		out = append(out, xs[i*(len(xs)-1)/(n-1)])
	}
	return out
}

// level2 checks every collection of T.
func level2[T any](k *chk, name string, xs []val[T], full int, long int) {
	seqs := append(tuples(xs, full), spread(xs, long)...)
	each(k, "Vec["+name+"]", vecs(seqs))
	each(k, "VecDeque["+name+"]", deques(seqs))
	each(k, "LinkedList["+name+"]", lists(seqs))
	each(k, "Option["+name+"]", options(xs))
	each(k, "Result["+name+"]", results(xs))
	each(k, "Pair["+name+"]", pairs(xs, xs))
	each(k, "Pair[I32,"+name+"]", pairs(ints(), xs))
	each(k, "BTreeMap[I32,"+name+"]", bmaps(ikeys(), xs))
	each(k, "HashMap[String,"+name+"]", hmaps(skeys(), xs))
}

// some checks four collections of T (each instantiation costs compile time).
func some[T any](k *chk, name string, xs []val[T], full int, long int) {
	seqs := append(tuples(xs, full), spread(xs, long)...)
	each(k, "VecDeque["+name+"]", deques(seqs))
	each(k, "Option["+name+"]", options(xs))
	each(k, "Pair["+name+"]", pairs(xs, xs))
	each(k, "HashMap[I32,"+name+"]", hmaps(ikeys(), xs))
}

// level1some makes every collection of T an element of four collections.
func level1some[T any](k *chk, name string, xs []val[T]) {
	seqs := tuples(xs, 2)
	const n = 5
	some(k, "Vec["+name+"]", thin(vecs(seqs), n), 2, 4)
	some(k, "VecDeque["+name+"]", thin(deques(seqs), n), 2, 4)
	some(k, "LinkedList["+name+"]", thin(lists(seqs), n), 2, 4)
	some(k, "Option["+name+"]", thin(options(xs), n), 2, 4)
	some(k, "Result["+name+"]", thin(results(xs), n), 2, 4)
	some(k, "Pair["+name+"]", thin(pairs(xs, xs), n), 2, 4)
	some(k, "BTreeMap[I32,"+name+"]", thin(bmaps(ikeys(), xs), n), 2, 4)
	some(k, "HashMap[String,"+name+"]", thin(hmaps(skeys(), xs), n), 2, 3)
}

// level1 makes every collection of T an element of every collection.
func level1[T any](k *chk, name string, xs []val[T]) {
	seqs := tuples(xs, 2)
	const n = 5
	level2(k, "Vec["+name+"]", thin(vecs(seqs), n), 2, 4)
	level2(k, "VecDeque["+name+"]", thin(deques(seqs), n), 2, 4)
	level2(k, "LinkedList["+name+"]", thin(lists(seqs), n), 2, 4)
	level2(k, "Option["+name+"]", thin(options(xs), n), 2, 4)
	level2(k, "Result["+name+"]", thin(results(xs), n), 2, 4)
	level2(k, "Pair["+name+"]", thin(pairs(xs, xs), n), 2, 4)
	level2(k, "BTreeMap[I32,"+name+"]", thin(bmaps(ikeys(), xs), n), 2, 4)
	level2(k, "HashMap[String,"+name+"]", thin(hmaps(skeys(), xs), n), 2, 3)
}

type prim struct {
	name, typ string
	v         any
	text      string
}

func prims() (out []prim) {
	add := func(typ string, v any, text string) { out = append(out, prim{typ, typ, v, text}) }
	ints := []int64{0, 1, -1, 9, 10, -10, 99, 100, 127, -128, 128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, math.MaxInt64, math.MinInt64}
	for _, i := range ints {
		d := strconv.FormatInt(i, 10)
		add("ISize", gost.ISize(i), d)
		add("I64", gost.I64(i), d)
		add("I128", gost.I128_FromI64(gost.I64(i)), d)
		if int64(int32(i)) == i {
			add("I32", gost.I32(i), d)
		}
		if int64(int16(i)) == i {
			add("I16", gost.I16(i), d)
		}
		if int64(int8(i)) == i {
			add("I8", gost.I8(i), d)
		}
		if i >= 0 {
			add("USize", gost.USize(i), d)
			add("U64", gost.U64(i), d)
			add("U128", gost.U128_FromU64(gost.U64(i)), d)
			if i <= math.MaxUint32 {
				add("U32", gost.U32(i), d)
			}
			if i <= math.MaxUint16 {
				add("U16", gost.U16(i), d)
			}
			if i <= math.MaxUint8 {
				add("U8", gost.U8(i), d)
				add("Byte", gost.Byte(i), d)
			}
		}
	}
	add("U64", gost.U64(math.MaxUint64), "18446744073709551615")
	add("USize", gost.USize(math.MaxUint64), "18446744073709551615")
	add("Bool", gost.Bool(true), "true")
	add("Bool", gost.Bool(false), "false")
	for _, s := range []string{"", "a", "{}", "é世😀", "a\nb", "%d", "{{"} {
		add("String", gost.String(s), s)
	}
	for _, x := range []struct {
		f float64
		s string
	}{{0, "0"}, {1, "1"}, {-2.5, "-2.5"}, {0.125, "0.125"}, {1e6, "1000000"}} {
		add("F64", gost.F64(x.f), x.s)
		add("F32", gost.F32(x.f), x.s)
	}
	add("F32", gost.F32(0.1), "0.1")
	add("F64", gost.F64(0.1), "0.1")
	return
}

// stdout captures what is written to the standard output while f runs.
type stdout struct {
	f   *os.File
	old int
}

func capture(dir string) (*stdout, error) {
	f, err := os.OpenFile(filepath.Join(dir, "stdout"), os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0o600)
	if err != nil {
		return nil, err
	}
	old, err := syscall.Dup(1)
	if err != nil {
		return nil, err
	}
	syscall.CloseOnExec(old)
	return &stdout{f, old}, nil
}

func (s *stdout) run(f func()) (text string, panicked any) {
	s.f.Truncate(0)
	syscall.Dup3(int(s.f.Fd()), 1, 0)
	panicked = core.Try(f)
	syscall.Dup3(s.old, 1, 0)
	st, err := s.f.Stat()
	if err != nil {
		return "?", err
	}
	buf := make([]byte, st.Size())
	s.f.ReadAt(buf, 0)
	return string(buf), panicked
}

type arg struct {
	v    any
	text string
}

func args() []arg {
	v := gost.VecNew[gost.I32]()
	v.Push(1)
	v.Push(2)
	return []arg{
		{gost.String("x"), "x"},
		{gost.String("{}"), "{}"},
		{gost.I32(-5), "-5"},
		{gost.String("{{}}%v"), "{{}}%v"},
		{gost.String(""), ""},
		{v, "Vec[1, 2]"},
		{gost.Some(gost.String("é")), "Some(é)"},
		{Shown{"u}"}, "<u}>"},
		{gost.Bool(true), "true"},
		{gost.String("}"), "}"},
	}
}

type tok struct{ src, out string }

var tokens = []tok{
	{"{}", ""}, {"{{", "{"}, {"}}", "}"},
	{"a", "a"}, {"é", "é"}, {"😀", "😀"}, {"%d", "%d"}, {"\n", "\n"}, {" ", " "}, {"\x00", "\x00"}, {"世", "世"}, {"\uFFFD", "\uFFFD"}, {"\\", "\\"}, {":", ":"}, {"0", "0"},
}

// render gives the specified result of a token sequence, and its arguments.
func render(seq []int, as []arg, first, step int) (src, want string, params []any) {
	n := 0
	var s, o strings.Builder
	for _, i := range seq {
		s.WriteString(tokens[i].src)
		if i == 0 {
			a := as[(first+n*step)%len(as)]
			n++
			params = append(params, a.v)
			o.WriteString(a.text)
		} else {
			o.WriteString(tokens[i].out)
		}
	}
	return s.String(), o.String(), params
}

func digits(x, base, n int) []int {
	d := make([]int, n)
	for i := range d {
		d[i] = x % base
		x /= base
	}
	return d
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

func main() {
	core.Main("C21", func(c *core.C) {
		as := args()
		depth, few := 5, 7
		if c.Thorough {
			depth, few = 6, 9
		}
		templates := func(n, base int, all bool) {
			total := pow(base, n)
			c.Par((total+511)/512, func(w *core.W, chunk int) {
				for x := chunk * 512; x < total && x < (chunk+1)*512; x++ {
					seq := digits(x, base, n)
					for first := range as {
						for step := 0; step < len(as); step++ {
							src, want, params := render(seq, as, first, step)
							if (len(params) < 2 || !all) && step != 1 {
								continue
							}
							if len(params) == 0 && first > 0 {
								continue
							}
							w.S++
							w.T++
							w.V++
							w.Begin(func() string { return fmt.Sprintf("Format(%q, %d arguments)", src, len(params)) })
							got := string(gost.Format(gost.String(src), params...))
							if got != want {
								c.Fail(fmt.Sprintf("Format(%q)", src), "Format(%q, arguments %v) = %q, want %q", src, texts(params), got, want)
								return
							}
							if !utf8.ValidString(got) {
								c.Fail("utf8", "Format(%q) returns invalid UTF-8 %q", src, got)
								return
							}
							// an argument more changes nothing
							w.T++
							if got := string(gost.Format(gost.String(src), append(params[:len(params):len(params)], gost.String("extra"))...)); got != want {
								c.Fail(fmt.Sprintf("extra Format(%q)", src), "Format(%q, arguments %v and one more) = %q, want %q", src, texts(params), got, want)
								return
							}
							if len(params) > 1 && c.WantSample() {
								c.Sample("Format(%q, %v) = %q", src, texts(params), got)
							}
						}
					}
				}
			})
		}
		for n := 0; n <= depth; n++ {
			c.Part(fmt.Sprintf("templates of %d pieces", n), fmt.Sprintf("every sequence of %d of the %d pieces {} {{ }} and texts of 1-4 byte characters, with every first argument of %d and every stride", n, len(tokens), len(as)), func() {
				templates(n, len(tokens), n < 4 || n < 5 && c.Thorough)
			})
		}
		for n := depth + 1; n <= few; n++ {
			c.Part(fmt.Sprintf("templates of %d pieces, 5 kinds", n), fmt.Sprintf("every sequence of %d of the pieces {} {{ }} a é, with every first argument of %d", n, len(as)), func() {
				templates(n, 5, false)
			})
		}
		c.Part("long templates", "0..300 placeholders, or repeats of each piece, between texts", func() {
			c.Par(301, func(w *core.W, n int) {
				for unit := 0; unit < len(tokens); unit++ {
					for gap := 0; gap < len(tokens); gap++ {
						var seq []int
						for i := 0; i < n; i++ {
							seq = append(seq, unit, gap)
						}
						src, want, params := render(seq, as, n, 1)
						w.S++
						w.T++
						w.V++
						w.Begin(func() string { return fmt.Sprintf("Format(%d x %q)", n, tokens[unit].src+tokens[gap].src) })
						if got := string(gost.Format(gost.String(src), params...)); got != want {
							c.Fail(fmt.Sprintf("long Format %q x %d", tokens[unit].src+tokens[gap].src, n), "Format of %d repetitions of %q = %q, want %q", n, tokens[unit].src+tokens[gap].src, got, want)
							return
						}
					}
				}
			})
		})
		c.Part("every character", "every Unicode scalar value alone, beside a placeholder and inside an argument", func() {
			c.Par(0x110000/4096+1, func(w *core.W, chunk int) {
				for x := chunk * 4096; x < (chunk+1)*4096 && x <= 0x10FFFF; x++ {
					if x >= 0xD800 && x < 0xE000 || x == '{' || x == '}' {
						continue
					}
					r := string(rune(x))
					w.S++
					w.V++
					w.T++
					w.Begin(func() string { return fmt.Sprintf("character %q", r) })
					want := r + "<" + r + ">" + r
					if got := string(gost.Format(gost.String(r+"<{}>"+r), gost.String(r))); got != want {
						c.Fail(fmt.Sprintf("char %q", r), "Format(%q, %q) = %q, want %q", r+"<{}>"+r, r, got, want)
						return
					}
				}
			})
		})
		c.Part("primitives", "Display, ToString, Debug and Format of boundary values of every primitive type", func() {
			c.Solo(func(w *core.W) {
				for _, p := range prims() {
					w.S++
					w.V++
					w.T += 3
					w.Begin(func() string { return p.name + " " + p.text })
					if got := string(p.v.(displayer).Display()); got != p.text {
						c.Fail("display "+p.name+" "+p.text, "Display of %s %s is %q", p.name, p.text, got)
					}
					if got := string(gost.Format("{}", p.v)); got != p.text {
						c.Fail("format "+p.name+" "+p.text, "Format(\"{}\") of %s %s is %q", p.name, p.text, got)
					}
					want := p.typ + "(" + p.text + ")"
					if got := string(p.v.(interface{ Debug() gost.String }).Debug()); got != want {
						c.Fail("debug "+p.name+" "+p.text, "Debug of %s %s is %q, want %q", p.name, p.text, got, want)
					}
				}
				for i := 0; i <= 0x10FFFF; i++ {
					ch := gost.Char(i)
					w.S++
					w.T++
					if got, want := ch.Debug(), "Char("+ch.Display()+")"; got != want {
						c.Fail(fmt.Sprintf("debug Char %d", i), "Debug of Char %d is %q, want %q", i, got, want)
						return
					}
				}
				for re := -2; re <= 2; re++ {
					for im := -2; im <= 2; im++ {
						a, b := gost.Complex64(complex(float32(re), float32(im))), gost.Complex128(complex(float64(re), float64(im)))
						w.S += 2
						w.T += 2
						if got, want := a.Debug(), "Complex64("+a.Display()+")"; got != want {
							c.Fail("debug Complex64", "Debug of Complex64 is %q, want %q", got, want)
						}
						if got, want := b.Debug(), "Complex128("+b.Display()+")"; got != want {
							c.Fail("debug Complex128", "Debug of Complex128 is %q, want %q", got, want)
						}
					}
				}
			})
		})
		full, long := 4, 12
		if c.Thorough {
			full, long = 6, 40
		}
		c.Part("collections", fmt.Sprintf("every collection of every sequence of up to %d of three elements (spread contents to length %d); every ring layout; every subset of three keys", full, long), func() {
			jobs := []func(k *chk){
				func(k *chk) { level2(k, "I32", ints(), full, long) },
				func(k *chk) { level2(k, "String", strs(), full, long) },
				func(k *chk) { level2(k, "custom", shown(), full, long) },
				func(k *chk) {
					var fs []val[gost.F64]
					for _, p := range prims() {
						if p.typ == "F64" {
							fs = append(fs, val[gost.F64]{p.v.(gost.F64), t(p.text)})
						}
					}
					level2(k, "F64", fs[:3], 3, 5)
				},
				func(k *chk) {
					level2(k, "U128", []val[gost.U128]{{gost.U128_FromU64(7), t("7")}, {gost.U128_FromU64(0), t("0")}}, 3, 5)
				},
				func(k *chk) { level2(k, "Bool", []val[gost.Bool]{{true, t("true")}, {false, t("false")}}, 3, 5) },
				func(k *chk) {
					each(k, "BTreeSet[I32]", bsets(ikeys()))
					each(k, "BTreeSet[String]", bsets(skeys()))
					each(k, "HashSet[I32]", hsets(ikeys()))
					each(k, "HashSet[String]", hsets(skeys()))
					each(k, "BTreeMap[String,I32]", bmaps(skeys(), ints()))
					each(k, "BTreeMap[String,String]", bmaps(skeys(), strs()))
					each(k, "HashMap[I32,I32]", hmaps(ikeys(), ints()))
					each(k, "HashMap[I32,custom]", hmaps(ikeys(), shown()))
					for _, s := range []string{"", "boom", "{}", "é"} {
						one(k, "Result[Err]", val[gost.Result[gost.I32]]{gost.Err[gost.I32](errors.New(s)), t(s)})
					}
				},
			}
			c.Par(len(jobs), func(w *core.W, i int) { jobs[i](&chk{c, w}) })
		})
		c.Part("nested collections", "every collection, as an element of every collection, over an element type with its own Display (and, as an element of four collections, over I32)", func() {
			jobs := []func(k *chk){
				func(k *chk) { level1some(k, "I32", ints()) },
				func(k *chk) { level1(k, "custom", shown()) },
				func(k *chk) { level2(k, "BTreeSet[I32]", bsets(ikeys()), 2, 4) },
				func(k *chk) { level2(k, "HashSet[String]", hsets(skeys()), 2, 3) },
				func(k *chk) {
					level2(k, "Result[Err]", []val[gost.Result[gost.I32]]{{gost.Err[gost.I32](errors.New("bad")), t("bad")}, {gost.Ok(gost.I32(1)), t("Ok(1)")}}, 2, 4)
				},
			}
			c.Par(len(jobs), func(w *core.W, i int) { jobs[i](&chk{c, w}) })
		})
		more := []int{511, 512, 513, 1000, 1023, 1024, 1025, 2049}
		c.Part("large collections", "every collection with 0..300 and, around powers of two, to 2049 elements", func() {
			c.Par(301+len(more), func(w *core.W, n int) {
				if n > 300 {
					n = more[n-301]
				}
				k := &chk{c, w}
				var s []val[gost.I32]
				for i := 0; i < n; i++ {
					s = append(s, val[gost.I32]{gost.I32(i * 3), t(strconv.Itoa(i * 3))})
				}
				each(k, "Vec[I32]", vecs([][]val[gost.I32]{s}))
				each(k, "LinkedList[I32]", lists([][]val[gost.I32]{s}))
				d := deques([][]val[gost.I32]{s})
				each(k, "VecDeque[I32]", []val[gost.VecDeque[gost.I32]]{d[0], d[len(d)/2], d[len(d)-1]})
				m, bs := gost.BTreeMapNew[gost.I32, gost.I32](), gost.BTreeSetNew[gost.I32]()
				hm, hs := gost.HashMapNew[gost.I32, gost.I32](), gost.HashSetNew[gost.I32]()
				mp, sp := &pat{kind: 's', pre: "BTreeMap{", suf: "}"}, list('s', "BTreeSet{", s, "}")
				for i, x := range s {
					mp.kids = append(mp.kids, entry(x.p, t(strconv.Itoa(-i))))
					m.Insert(x.v, gost.I32(-i))
					hm.Insert(x.v, gost.I32(-i))
					hs.Insert(x.v)
				}
				for i := len(s) - 1; i >= 0; i-- {
					bs.Insert(s[i].v)
				}
				one(k, "BTreeMap[I32]", val[gost.BTreeMap[gost.I32, gost.I32]]{m, mp})
				one(k, "BTreeSet[I32]", val[gost.BTreeSet[gost.I32]]{bs, sp})
				hp := *mp
				hp.kind, hp.pre = 'b', "HashMap{"
				one(k, "HashMap[I32]", val[gost.HashMap[gost.I32, gost.I32]]{hm, &hp})
				hq := *sp
				hq.kind, hq.pre = 'b', "HashSet{"
				one(k, "HashSet[I32]", val[gost.HashSet[gost.I32]]{hs, &hq})
			})
		})
		c.Part("Print and Println", "every sequence of up to 3 calls of 2 functions x 9 templates, bytes on file descriptor 1 compared after every sequence; texts to 200 kB", func() {
			dir := os.Getenv("MC_TMP")
			if dir == "" {
				d, err := os.MkdirTemp("", "c21")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(d)
				dir = d
			}
			cap, err := capture(dir)
			if err != nil {
				panic(err)
			}
			type call struct {
				tpl, out string
				params   []any
				nl       bool
			}
			var calls []call
			for _, nl := range []bool{false, true} {
				for _, x := range []call{
					{tpl: "", out: ""}, {tpl: "a", out: "a"}, {tpl: "\n", out: "\n"}, {tpl: "{}", out: "%d{}", params: []any{gost.String("%d{}")}},
					{tpl: "%s é😀", out: "%s é😀"}, {tpl: "{{}}", out: "{}"}, {tpl: "{} {}", out: "-5 Vec[1, 2]", params: []any{as[2].v, as[5].v}},
					{tpl: "end\n", out: "end\n"}, {tpl: "\x00\t ", out: "\x00\t "},
				} {
					x.nl = nl
					calls = append(calls, x)
				}
			}
			c.Solo(func(w *core.W) {
				run := func(seq []call) {
					want := ""
					name := []string{}
					for _, x := range seq {
						want += x.out
						f := "Print"
						if x.nl {
							want += "\n"
							f = "Println"
						}
						if len(x.tpl) < 50 {
							name = append(name, fmt.Sprintf("%s(%q)", f, x.tpl))
						} else {
							name = append(name, fmt.Sprintf("%s(%d bytes)", f, len(x.tpl)))
						}
					}
					w.S++
					w.V++
					w.T += int64(len(seq))
					d := strings.Join(name, "; ")
					w.Begin(func() string { return d })
					got, p := cap.run(func() {
						for _, x := range seq {
							if x.nl {
								gost.Println(gost.String(x.tpl), x.params...)
							} else {
								gost.Print(gost.String(x.tpl), x.params...)
							}
						}
					})
					if p != nil {
						c.Fail("print:"+d, "%s panics: %v", d, p)
					} else if got != want {
						if len(got) > 300 {
							got = got[:300] + "..."
						}
						c.Fail("print:"+d, "%s writes %q (want %d bytes)", d, got, len(want))
					}
				}
				for n := 1; n <= 3; n++ {
					for x := 0; x < pow(len(calls), n) && !c.Stopped(); x++ {
						var seq []call
						for _, i := range digits(x, len(calls), n) {
							seq = append(seq, calls[i])
						}
						run(seq)
					}
				}
				for _, n := range []int{100, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
					long := strings.Repeat("x", n)
					for _, nl := range []bool{false, true} {
						a := call{tpl: long, out: long, nl: nl}
						b := call{tpl: "{}!", out: long + "!", params: []any{gost.String(long)}, nl: nl}
						run([]call{b, calls[1], b})
						if n < 5000 {
							run([]call{a, calls[1]})
						}
					}
				}
			})
		})
	})
}

func texts(params []any) (out []string) {
	for _, p := range params {
		out = append(out, string(p.(displayer).Display()))
	}
	return
}
