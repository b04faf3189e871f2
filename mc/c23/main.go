// C23: String operations against definitions written out here.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/myyrakle/gost"

	"verifmc/core"
)

type S = gost.String

// --- reference definitions, on code points and bytes ---

func encode(rs []rune) string {
	var b []byte
	for _, r := range rs {
		switch {
		case r < 0x80:
			b = append(b, byte(r))
		case r < 0x800:
			b = append(b, 0xC0|byte(r>>6), 0x80|byte(r&0x3F))
		case r < 0x10000:
			b = append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
		default:
			b = append(b, 0xF0|byte(r>>18), 0x80|byte(r>>12&0x3F), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
		}
	}
	return string(b)
}

func units(rs []rune) (out []uint16) {
	for _, r := range rs {
		if r < 0x10000 {
			out = append(out, uint16(r))
		} else {
			r -= 0x10000
			out = append(out, uint16(0xD800+r>>10), uint16(0xDC00+r&0x3FF))
		}
	}
	return
}

// decode16 is the definition of UTF-16; ok is false at an unpaired surrogate.
func decode16(u []uint16) (rs []rune, ok bool) {
	for i := 0; i < len(u); i++ {
		switch {
		case u[i] < 0xD800 || u[i] > 0xDFFF:
			rs = append(rs, rune(u[i]))
		case u[i] < 0xDC00 && i+1 < len(u) && u[i+1] >= 0xDC00 && u[i+1] <= 0xDFFF:
			rs = append(rs, 0x10000+(rune(u[i])-0xD800)<<10+(rune(u[i+1])-0xDC00))
			i++
		default:
			return nil, false
		}
	}
	return rs, true
}

func find(s, p string) int {
	for i := 0; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p {
			return i
		}
	}
	return -1
}

func split(s, sep string) (out []string) {
	start := 0
	for i := 0; i+len(sep) <= len(s); {
		if s[i:i+len(sep)] == sep {
			out = append(out, s[start:i])
			i += len(sep)
			start = i
		} else {
			i++
		}
	}
	return append(out, s[start:])
}

func replace(s, old, new string) string {
	if old == "" {
		out := new
		for _, r := range s {
			out += string(r) + new
		}
		return out
	}
	return join(split(s, old), new)
}

func join(parts []string, sep string) string {
	out := ""
	for i, p := range parts {
		if i > 0 {
			out += sep
		}
		out += p
	}
	return out
}

func white(r rune) bool {
	return r >= 9 && r <= 13 || r == 0x20 || r == 0x85 || r == 0xA0 || r == 0x1680 || r >= 0x2000 && r <= 0x200A || r == 0x2028 || r == 0x2029 || r == 0x202F || r == 0x205F || r == 0x3000
}

func trim(rs []rune) []rune {
	for len(rs) > 0 && white(rs[0]) {
		rs = rs[1:]
	}
	for len(rs) > 0 && white(rs[len(rs)-1]) {
		rs = rs[:len(rs)-1]
	}
	return rs
}

func mapped(rs []rune, f func(rune) rune) string {
	out := make([]rune, len(rs))
	for i, r := range rs {
		switch {
		case r < 0x80 && r >= 'A' && r <= 'Z' && f('A') == 'a':
			out[i] = r + 32
		case r < 0x80 && r >= 'a' && r <= 'z' && f('a') == 'A':
			out[i] = r - 32
		case r < 0x80:
			out[i] = r
		default:
			out[i] = f(r)
		}
	}
	return encode(out)
}

// --- checks ---

type run struct {
	c *core.C
	w *core.W
}

func (k *run) bad(s string, format string, a ...any) {
	k.c.Fail(fmt.Sprintf("%q "+format, append([]any{s}, a...)...), "on %q: "+format, append([]any{s}, a...)...)
}

// single checks every operation without further arguments.
func (k *run) single(rs []rune) {
	text := encode(rs)
	s := S(text)
	w := k.w
	w.S++
	w.V++
	w.Begin(func() string { return fmt.Sprintf("%q", text) })
	w.T += 12
	if n := s.Len(); n != gost.USize(len(text)) {
		k.bad(text, "Len() = %d, want %d", n, len(text))
	}
	if e := s.IsEmpty(); bool(e) != (len(text) == 0) {
		k.bad(text, "IsEmpty() = %v", e)
	}
	b := s.IntoBytes()
	if b.Len() != gost.USize(len(text)) {
		k.bad(text, "IntoBytes() has %d elements, want %d", b.Len(), len(text))
		return
	}
	for i := range text {
		if v := b.GetUnchecked(gost.USize(i)); byte(v) != text[i] {
			k.bad(text, "IntoBytes()[%d] = %d, want %d", i, v, text[i])
		}
	}
	if t := gost.StringFromUTF8(b); string(t) != text {
		k.bad(text, "StringFromUTF8(IntoBytes()) = %q", t)
	} else if len(text) > 0 {
		// the text does not follow later changes of the vector
		b.SetUnchecked(0, b.GetUnchecked(0)^1)
		b.Push('x')
		if string(t) != text {
			k.bad(text, "StringFromUTF8(bytes) changes to %q when the bytes change", t)
		}
		if c := s.IntoBytes(); byte(c.GetUnchecked(0)) != text[0] || c.Len() != gost.USize(len(text)) {
			k.bad(text, "IntoBytes() follows changes of an earlier result")
		}
	}
	ch := s.Chars()
	if ch.Len() != gost.USize(len(rs)) {
		k.bad(text, "Chars() has %d elements, want %d", ch.Len(), len(rs))
		return
	}
	for i, r := range rs {
		if v := ch.GetUnchecked(gost.USize(i)); rune(v) != r {
			k.bad(text, "Chars()[%d] = %U, want %U", i, v, r)
		}
	}
	u := gost.VecNew[gost.U16]()
	for _, x := range units(rs) {
		u.Push(gost.U16(x))
	}
	if r := gost.StringFromUTF16(u); r.IsErr() {
		k.bad(text, "StringFromUTF16 of its encoding is an error")
	} else if t := r.Unwrap(); string(t) != text {
		k.bad(text, "StringFromUTF16 of its encoding = %q", t)
	}
	if x, want := s.Trim(), encode(trim(rs)); string(x) != want {
		k.bad(text, "Trim() = %q, want %q", x, want)
	}
	if x, want := s.ToLowercase(), mapped(rs, unicode.ToLower); string(x) != want {
		k.bad(text, "ToLowercase() = %q, want %q", x, want)
	}
	if x, want := s.ToUppercase(), mapped(rs, unicode.ToUpper); string(x) != want {
		k.bad(text, "ToUppercase() = %q, want %q", x, want)
	}
	if string(s) != text {
		k.bad(text, "an operation changed the string to %q", s)
	}
	// Pop removes exactly the last character
	p := S(text)
	o := p.Pop()
	if len(rs) == 0 {
		if o.IsSome() || p != "" {
			k.bad(text, "Pop() = Some or changes the empty string to %q", p)
		}
	} else if o.IsNone() || rune(o.Unwrap()) != rs[len(rs)-1] || string(p) != encode(rs[:len(rs)-1]) {
		k.bad(text, "Pop() is None %v and leaves %q, want %U and %q", o.IsNone(), p, rs[len(rs)-1], encode(rs[:len(rs)-1]))
	}
	if string(s) != text {
		k.bad(text, "Pop on a copy changed the original to %q", s)
	}
}

// push checks Push, Add and AddAssign.
func (k *run) push(rs []rune, r rune) {
	text := encode(rs)
	k.w.T += 3
	want := text + encode([]rune{r})
	p := S(text)
	q := p
	res := p.Push(gost.Char(r))
	if string(p) != want || string(q) != text {
		k.bad(text, "Push(%U) leaves %q (copy %q), want %q", r, p, q, want)
	}
	if string(res) != want {
		k.bad(text, "Push(%U) returns %q, want %q", r, res, want)
	}
	if o := p.Pop(); o.IsNone() || rune(o.Unwrap()) != r || string(p) != text {
		k.bad(text, "Pop after Push(%U) leaves %q", r, p)
	}
}

func (k *run) add(text, more string) {
	k.w.T += 2
	p, m := S(text), S(more)
	if x := p.Add(m); string(x) != text+more || string(p) != text || string(m) != more {
		k.bad(text, "Add(%q) = %q (operands then %q, %q)", more, x, p, m)
	}
	q := p
	p.AddAssign(m)
	if string(p) != text+more || string(m) != more || string(q) != text {
		k.bad(text, "AddAssign(%q) leaves %q (argument %q, copy %q)", more, p, m, q)
	}
}

// pattern checks the operations with a pattern.
func (k *run) pattern(text, p string) {
	k.w.T += 3
	s := S(text)
	i := find(text, p)
	if x := s.Contains(S(p)); bool(x) != (i >= 0) {
		k.bad(text, "Contains(%q) = %v", p, x)
	}
	if o := s.Find(S(p)); bool(o.IsSome()) != (i >= 0) || i >= 0 && o.Unwrap() != gost.USize(i) {
		got := "None"
		if o.IsSome() {
			got = fmt.Sprint(o.Unwrap())
		}
		k.bad(text, "Find(%q) = %s, want %d (-1 for None)", p, got, i)
	}
	if p != "" {
		want := split(text, p)
		got := s.Split(S(p)).AsSlice()
		ok := len(got) == len(want)
		for j := 0; ok && j < len(got); j++ {
			ok = string(got[j]) == want[j]
		}
		if !ok {
			k.bad(text, "Split(%q) = %q, want %q", p, got, want)
		}
	}
	if string(s) != text {
		k.bad(text, "an operation with %q changed the string to %q", p, s)
	}
}

func (k *run) replace(text, old, new string) {
	k.w.T++
	s := S(text)
	if x, want := s.Replace(S(old), S(new)), replace(text, old, new); string(x) != want {
		k.bad(text, "Replace(%q, %q) = %q, want %q", old, new, x, want)
	}
	if string(s) != text {
		k.bad(text, "Replace(%q, %q) changed the string to %q", old, new, s)
	}
}

func (k *run) repeat(text string, n int) {
	k.w.T++
	want := ""
	for i := 0; i < n; i++ {
		want += text
	}
	s := S(text)
	if x := s.Repeat(gost.USize(n)); string(x) != want || string(s) != text {
		k.bad(text, "Repeat(%d) = %q, want %q", n, x, want)
	}
}

func digits(x, base, n int) []int {
	d := make([]int, n)
	for i := range d {
		d[i] = x % base
		x /= base
	}
	return d
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

func pick(alpha []rune, d []int) []rune {
	rs := make([]rune, len(d))
	for i, x := range d {
		rs[i] = alpha[x]
	}
	return rs
}

func all(alpha []rune, max int) (out []string) {
	for n := 0; n <= max; n++ {
		for x := 0; x < pow(len(alpha), n); x++ {
			out = append(out, encode(pick(alpha, digits(x, len(alpha), n))))
		}
	}
	return
}

func main() {
	core.Main("C23", func(c *core.C) {
		c.Assume("characters are Unicode scalar values and strings valid UTF-8; upper and lower case of non-ASCII characters are Go's simple case mappings")
		wide := []rune{'a', 'Z', ' ', '\n', 0, 0x7F, 0x80, 0x85, 0xA0, 0xE9, 0xC9, 0x7FF, 0x800, 0x200B, 0x2003, 0x3000, 0x4E16, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}
		n1 := 4
		if c.Thorough {
			n1 = 5
		}
		for n := 0; n <= n1; n++ {
			c.Part(fmt.Sprintf("strings of %d characters", n), fmt.Sprintf("every string of %d of %d characters of 1 to 4 bytes: all operations without arguments; Push of every one", n, len(wide)), func() {
				total := pow(len(wide), n)
				c.Par((total+255)/256, func(w *core.W, chunk int) {
					k := &run{c, w}
					for x := chunk * 256; x < total && x < (chunk+1)*256; x++ {
						rs := pick(wide, digits(x, len(wide), n))
						k.single(rs)
						if n <= 3 {
							for _, r := range wide {
								k.push(rs, r)
							}
						}
						if c.Stopped() {
							return
						}
						if n == 3 && c.WantSample() {
							c.Sample("%q", encode(rs))
						}
					}
				})
			})
		}
		c.Part("every character", "each Unicode scalar value alone, first, last and between others", func() {
			c.Par(0x110000/1024, func(w *core.W, chunk int) {
				k := &run{c, w}
				for x := chunk * 1024; x < (chunk+1)*1024; x++ {
					if x >= 0xD800 && x <= 0xDFFF {
						continue
					}
					r := rune(x)
					k.single([]rune{r})
					k.single([]rune{'a', r})
					k.single([]rune{r, 'a'})
					k.single([]rune{r, 0x4E16, r})
					k.push([]rune{'a'}, r)
					if c.Stopped() {
						return
					}
				}
			})
		})
		{
			alpha := []rune{'a', 'b', 0xE9, 0x1F600}
			max, maxp, maxr := 6, 3, 4
			if c.Thorough {
				max, maxp, maxr = 7, 4, 5
			}
			pats := all(alpha, maxp)
			c.Part("patterns", fmt.Sprintf("every string of up to %d of 4 characters with every pattern of up to %d of them: Contains, Find, Split, Add", max, maxp), func() {
				texts := all(alpha, max)
				c.Par(len(texts), func(w *core.W, i int) {
					k := &run{c, w}
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("%q", texts[i]) })
					for _, p := range pats {
						k.pattern(texts[i], p)
						k.add(texts[i], p)
					}
					for n := 0; n < 5; n++ {
						k.repeat(texts[i], n)
					}
				})
			})
			c.Part("overlaps", "every string of up to 12 of two characters with every pattern of up to 5: Contains, Find, Split, Replace", func() {
				texts, pats := all([]rune{'a', 'b'}, 12), all([]rune{'a', 'b'}, 5)
				c.Par(len(texts), func(w *core.W, i int) {
					k := &run{c, w}
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("%q", texts[i]) })
					for _, p := range pats {
						k.pattern(texts[i], p)
						k.replace(texts[i], p, "ab")
					}
				})
			})
			c.Part("replacements", fmt.Sprintf("every string of up to %d of 4 characters, every old text of up to 2 and new text of up to 2 of them", maxr), func() {
				texts, olds := all(alpha, maxr), all(alpha, 2)
				c.Par(len(texts), func(w *core.W, i int) {
					k := &run{c, w}
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("%q", texts[i]) })
					for _, o := range olds {
						for _, n := range olds {
							k.replace(texts[i], o, n)
						}
					}
				})
			})
			bytes := []rune{0x80, 0x81, 0xC0, 0x100, 0x1000, 0x1001, 0x10000, 0x10001}
			c.Part("shared bytes", "strings and patterns of characters that share leading or trailing bytes: every string of up to 4 of 8, every pattern of up to 2", func() {
				texts, pats := all(bytes, 4), all(bytes, 2)
				c.Par(len(texts), func(w *core.W, i int) {
					k := &run{c, w}
					w.S++
					w.V++
					w.Begin(func() string { return fmt.Sprintf("%q", texts[i]) })
					for _, p := range pats {
						k.pattern(texts[i], p)
						k.replace(texts[i], p, "-")
					}
				})
			})
		}
		c.Part("trimming", "every string of up to 6 of 6 characters, white and not", func() {
			alpha := []rune{' ', '\t', 0x3000, 'x', 0x200B, 0xE9}
			for n := 0; n <= 6; n++ {
				total := pow(len(alpha), n)
				c.Par((total+255)/256, func(w *core.W, chunk int) {
					k := &run{c, w}
					for x := chunk * 256; x < total && x < (chunk+1)*256; x++ {
						k.single(pick(alpha, digits(x, len(alpha), n)))
						if c.Stopped() {
							return
						}
					}
				})
			}
		})
		c.Part("UTF-16 units", "every sequence of up to 4 of 14 code units (surrogate boundaries); every pair of a surrogate and another unit", func() {
			alpha := []uint16{0, 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF}
			one := func(w *core.W, us []uint16) {
				w.S++
				w.T++
				w.V++
				v := gost.VecNew[gost.U16]()
				for _, u := range us {
					v.Push(gost.U16(u))
				}
				w.Begin(func() string { return fmt.Sprintf("units %04x", us) })
				r := gost.StringFromUTF16(v)
				rs, ok := decode16(us)
				if bool(r.IsOk()) != ok || bool(r.IsErr()) == ok {
					c.Fail(fmt.Sprintf("utf16 %04x", us), "StringFromUTF16(%04x): Ok %v, want %v", us, r.IsOk(), ok)
				} else if ok {
					if got, want := string(r.Unwrap()), encode(rs); got != want {
						c.Fail(fmt.Sprintf("utf16 %04x", us), "StringFromUTF16(%04x) = %q, want %q", us, got, want)
					}
				}
				for i, u := range v.AsSlice() {
					if uint16(u) != us[i] {
						c.Fail(fmt.Sprintf("utf16 changes %04x", us), "StringFromUTF16(%04x) changes its argument", us)
					}
				}
			}
			for n := 0; n <= 5; n++ {
				total := pow(len(alpha), n)
				c.Par((total+255)/256, func(w *core.W, chunk int) {
					for x := chunk * 256; x < total && x < (chunk+1)*256; x++ {
						var us []uint16
						for _, i := range digits(x, len(alpha), n) {
							us = append(us, alpha[i])
						}
						one(w, us)
					}
				})
			}
			step := 16
			if c.Thorough {
				step = 1
			}
			c.Par(0x10000, func(w *core.W, u int) {
				for _, v := range alpha {
					one(w, []uint16{uint16(u), v})
					one(w, []uint16{v, uint16(u)})
				}
				if u >= 0xD800 && u < 0xE000 {
					for v := 0xD800 - 64; v < 0xE000+64; v += step {
						one(w, []uint16{uint16(u), uint16(v)})
					}
					one(w, []uint16{uint16(u), 0xDFFF})
				}
			})
		})
		c.Part("building", "every sequence of up to 6 of Push of 4 characters, AddAssign of 3 texts and Pop, from 3 texts", func() {
			starts := [][]rune{{}, {'a'}, {0x1F600, 0xE9}}
			push := []rune{'b', 0xE9, 0x4E16, 0x1F600}
			texts := []string{"", "c", "é😀"}
			c.Par(len(starts)*pow(8, 6), func(w *core.W, x int) {
				cur := append([]rune{}, starts[x%len(starts)]...)
				seq := digits(x/len(starts), 8, 6)
				s := S(encode(cur))
				w.S++
				w.V++
				w.Begin(func() string { return fmt.Sprintf("sequence %v on %q", seq, encode(starts[x%len(starts)])) })
				for _, o := range seq {
					w.T++
					switch {
					case o < 4:
						cur = append(cur, push[o])
						s.Push(gost.Char(push[o]))
					case o < 7:
						cur = append(cur, []rune(texts[o-4])...)
						s.AddAssign(S(texts[o-4]))
					default:
						r := s.Pop()
						if len(cur) == 0 {
							if r.IsSome() {
								c.Fail(fmt.Sprintf("building %v", seq), "sequence %v (0-3 Push, 4-6 AddAssign, 7 Pop): Pop on empty gives a character", seq)
							}
						} else {
							if r.IsNone() || rune(r.Unwrap()) != cur[len(cur)-1] {
								c.Fail(fmt.Sprintf("building %v", seq), "sequence %v (0-3 Push, 4-6 AddAssign, 7 Pop): wrong Pop", seq)
							}
							cur = cur[:len(cur)-1]
						}
					}
					if string(s) != encode(cur) {
						c.Fail(fmt.Sprintf("building %v", seq), "sequence %v (0-3 Push, 4-6 AddAssign, 7 Pop) gives %q, want %q", seq, s, encode(cur))
						return
					}
				}
			})
		})
		c.Part("long strings", "lengths to 300 and around powers of two to 65537, of characters of each width: every operation; patterns at every position", func() {
			var ns []int
			for n := 0; n <= 300; n++ {
				ns = append(ns, n)
			}
			for b := 512; b <= 65536; b *= 2 {
				ns = append(ns, b-1, b, b+1)
			}
			c.Par(len(ns), func(w *core.W, i int) {
				n := ns[len(ns)-1-i]
				k := &run{c, w}
				for _, unit := range []string{"a", "é", "世", "😀", "ab", "aé世😀"} {
					rs := []rune(strings.Repeat(unit, n))
					if len(rs) > n {
						rs = rs[:n]
					}
					k.single(rs)
					text := encode(rs)
					k.push(rs, 0x4E16)
					k.add(text, "z")
					k.add("z", text)
					k.pattern(text, unit)
					k.pattern(text, "zz")
					if n <= 300 {
						for at := 0; at <= n; at += 1 + n/40 {
							mod := encode(rs[:at]) + "Zé" + encode(rs[at:])
							k.pattern(mod, "Zé")
							k.replace(mod, "Zé", "y")
							sp := encode(rs[:at]) + " \u3000" + encode(rs[at:])
							k.single([]rune(sp))
						}
						k.repeat(unit, n)
						k.replace(text, unit, "")
						k.replace(text, "", "-")
					}
				}
				if n > 0 && n < 70 {
					k.repeat("", n)
				}
			})
		})
		if !utf8.ValidString(encode(wide)) || encode(wide) != string(wide) {
			panic("reference encoder")
		}
	})
}
