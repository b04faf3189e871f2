package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/myyrakle/gost"

	"verifmc/mcrt"
)

// input makes text the complete standard input.
func input(text string) {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
	if err := syscall.Dup3(p[0], 0, 0); err != nil {
		panic(err)
	}
	syscall.Close(p[0])
	for b := []byte(text); len(b) > 0; {
		n, err := syscall.Write(p[1], b)
		if err != nil && err != syscall.EINTR {
			panic(err)
		}
		b = b[max(n, 0):]
	}
	syscall.Close(p[1])
}

type got struct {
	from, to, line int // line: index, len(lines) for end of input
}

func stdins() {
	share := func(text string, minus int, reads ...int) {
		var lines []string
		if text != "" {
			lines = strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		}
		show := fmt.Sprintf("%q", text)
		if len(text) > 100 {
			show = fmt.Sprintf("of %d bytes", len(text))
		}
		add(fmt.Sprintf("input %s, goroutines reading %v lines", show, reads), minus, func() {
			input(text)
			h := &gost.Stdin{}
			var g group
			for i, n := range reads {
				client := func() {
					for k := 0; k < n; k++ {
						pre := strings.Repeat("<", k%2)
						buf := gost.String(pre)
						mcrt.Put(0, 0)
						h.ReadLine(&buf)
						if !strings.HasPrefix(string(buf), pre) {
							mcrt.Fail("ReadLine turned %q into %q", pre, buf)
						}
						rest := string(buf)[len(pre):]
						line := -1
						for j, l := range lines {
							if l == rest {
								line = j
							}
						}
						if rest == "" && line < 0 {
							line = len(lines)
						}
						if line < 0 {
							mcrt.Fail("ReadLine gave %.100q, which is not a line of the input", rest)
						}
						mcrt.Put(1, line)
					}
				}
				if i == len(reads)-1 {
					client()
				} else {
					g.Go(client)
				}
			}
			g.Wait()
			var flat []got
			began := map[int]int{}
			for i, r := range mcrt.Recs() {
				if r.Op == 0 {
					began[r.G] = i
				} else {
					flat = append(flat, got{began[r.G], i, r.A})
				}
			}
			for i, a := range flat {
				for j, b := range flat {
					if i != j && a.line == b.line && a.line < len(lines) {
						mcrt.Fail("the line %q was delivered twice", lines[a.line])
					}
					if a.to < b.from && a.line > b.line {
						mcrt.Fail("a later ReadLine delivered an earlier line: %v then %v", a, b)
					}
				}
			}
			n := 0
			for _, a := range flat {
				if a.line < len(lines) {
					n++
				}
			}
			if n != min(len(lines), len(flat)) {
				mcrt.Fail("%d of %d lines were delivered to %d reads", n, len(lines), len(flat))
			}
			// to the end, so that nothing is left over
			for {
				buf := gost.String("")
				h.ReadLine(&buf)
				if buf == "" {
					break
				}
				if n >= len(lines) || string(buf) != lines[n] {
					mcrt.Fail("afterwards ReadLine gave %.100q, want the lines after %d", buf, n)
				}
				n++
			}
			if n != len(lines) {
				mcrt.Fail("%d of %d lines were delivered", n, len(lines))
			}
		})
	}
	for _, text := range []string{"", "a", "a\n", "ab\n", "a\nb", "a\nbc\n", "ab\ncd\nef\n", "a\nb\nc\nd"} {
		minus := 0
		if len(text) > 4 {
			minus = 1
		}
		share(text, minus, 1, 1)
		share(text, minus, 1, 2)
		share(text, minus, 2, 2)
		share(text, minus+1, 1, 1, 1)
		share(text, minus+1, 2, 1, 1)
	}
	share("one\ntwo\nthree\nfour\nfive\n", 2, 3, 3)
	share("a\nb\nc\nd\ne\nf\ng\nh\n", 2, 2, 2, 2, 2)
	long := strings.Repeat("x", 200)
	share(long+"\ny\n"+long+"z\n", 99, 2, 2)
}
