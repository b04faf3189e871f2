// C31: standard input is read line by line without losing data.
package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/schedrun"
)

type feeder struct {
	jobs chan job
	done chan bool
}

type job struct {
	w      int // write end
	chunks []string
}

func pending(fd int) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541B, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// feed writes the chunks, each once the previous one was read.
func feed(fd int, chunks []string) {
	defer syscall.Close(fd)
	for k, ch := range chunks {
		if k > 0 {
			for i := 0; pending(fd) > 0; i++ {
				if i > 100 {
					time.Sleep(10 * time.Microsecond)
				}
			}
		}
		b := []byte(ch)
		for len(b) > 0 {
			n, err := syscall.Write(fd, b)
			if err == syscall.EINTR || err == syscall.EAGAIN {
				continue
			}
			if err != nil {
				return
			}
			b = b[n:]
		}
	}
}

// begin makes the chunks the standard input.
func begin(chunks []string) (wait func()) {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		panic(err)
	}
	if err := syscall.Dup3(p[0], 0, 0); err != nil {
		panic(err)
	}
	syscall.Close(p[0])
	total := 0
	for _, c := range chunks {
		total += len(c)
	}
	if len(chunks) <= 1 && total <= 4096 {
		feed(p[1], chunks)
		return func() {}
	}
	done := make(chan bool)
	go func() { feed(p[1], chunks); close(done) }()
	return func() {
		// close the reading end, so that a reader which stopped early does not
		// leave the writer blocked
		null, _ := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
		syscall.Dup3(null, 0, 0)
		syscall.Close(null)
		<-done
	}
}

// lines is the specification.
func lines(s string) (out []string) {
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(out, s)
		}
		out = append(out, s[:i])
		s = s[i+1:]
	}
	return
}

func show(chunks []string) string {
	total := 0
	for _, c := range chunks {
		total += len(c)
	}
	if total > 60 {
		var l []int
		for _, c := range chunks {
			l = append(l, len(c))
		}
		return fmt.Sprintf("input in pieces of %v bytes", l)
	}
	return fmt.Sprintf("input %q", chunks)
}

// mode: 0 a fresh buffer per line, 1 a buffer with text in it, 2 one buffer for
// all lines, 3 as 0 with two handles taking turns
func check(c *core.C, w *core.W, chunks []string, mode int) bool {
	w.S++
	w.V++
	name := fmt.Sprintf("%s, mode %d", show(chunks), mode)
	w.Begin(func() string { return name })
	want := lines(strings.Join(chunks, ""))
	wait := begin(chunks)
	defer wait()
	var handles [2]gost.Stdin
	one := gost.String("")
	expect := ""
	for i := 0; i < len(want)+2; i++ {
		w.T++
		line := ""
		if i < len(want) {
			line = want[i]
		}
		h := &handles[0]
		if mode == 3 {
			h = &handles[i%2]
		}
		buf := gost.String("")
		exp := line
		target := &buf
		switch mode {
		case 1:
			buf = "pre\nfix"
			exp = "pre\nfix" + line
		case 2:
			target = &one
			expect += line
			exp = expect
		}
		h.ReadLine(target)
		if string(*target) != exp {
			got := string(*target)
			if len(got) > 80 {
				got = fmt.Sprintf("%s... (%d bytes)", got[:80], len(got))
			}
			if len(exp) > 80 {
				exp = fmt.Sprintf("%s... (%d bytes)", exp[:80], len(exp))
			}
			what := fmt.Sprintf("line %d of %d", i+1, len(want))
			if i >= len(want) {
				what = "at end of input"
			}
			c.Fail(name, "%s (0: fresh buffers, 1: text already in the buffer, 2: one buffer, 3: two handles): %s: the buffer is %q, want %q", name, what, got, exp)
			return false
		}
	}
	if len(want) > 1 && len(chunks) > 2 && c.WantSample() {
		c.Sample("%s gives %q", show(chunks), want)
	}
	return true
}

func cuts(s string, f func([]string) bool) {
	n := len(s)
	if n == 0 {
		f(nil)
		return
	}
	for m := 0; m < 1<<(n-1); m++ {
		var parts []string
		start := 0
		for i := 1; i < n; i++ {
			if m>>(i-1)&1 == 1 {
				parts = append(parts, s[start:i])
				start = i
			}
		}
		if !f(append(parts, s[start:])) {
			return
		}
	}
}

func words(alpha []string, n int, f func(string) bool) {
	total := 1
	for i := 0; i < n; i++ {
		total *= len(alpha)
	}
	for x := 0; x < total; x++ {
		s := ""
		for i, y := 0, x; i < n; i++ {
			s += alpha[y%len(alpha)]
			y /= len(alpha)
		}
		if strings.Contains(s, "\r\n") {
			continue // whether "\r\n" ends a line as a whole is not specified
		}
		if !f(s) {
			return
		}
	}
}

func main() {
	core.HangSeconds = 30
	core.Main("C31", func(c *core.C) {
		c.Assume("the treatment of \\r directly before \\n is unspecified")
		alpha := []string{"a", "\n", "\r", "é", " ", "\x00", "\xff"}
		max := 5
		if c.Thorough {
			max = 7
		}
		for n := 0; n <= max; n++ {
			c.Part(fmt.Sprintf("inputs of %d characters", n), fmt.Sprintf("every input of %d characters over a, newline, carriage return, é, space, NUL and an invalid byte; four uses of the buffer", n), func() {
				c.Solo(func(w *core.W) {
					words(alpha, n, func(s string) bool {
						for mode := 0; mode < 4; mode++ {
							if n > 5 && mode != n%4 {
								continue
							}
							var ch []string
							if s != "" {
								ch = []string{s}
							}
							if !check(c, w, ch, mode) {
								return false
							}
						}
						return !c.TimeUp()
					})
				})
			})
		}
		cut := 5
		if c.Thorough {
			cut = 7
		}
		c.Part("arrival in pieces", fmt.Sprintf("every input of up to %d characters over a, newline, é in every way to cut its bytes into pieces that arrive one by one", cut), func() {
			c.Solo(func(w *core.W) {
				for n := 0; n <= cut; n++ {
					words([]string{"a", "\n", "é"}, n, func(s string) bool {
						ok := true
						cuts(s, func(ch []string) bool {
							ok = check(c, w, ch, len(ch)%4)
							return ok
						})
						return ok && !c.TimeUp()
					})
				}
			})
		})
		c.Part("long lines", "lines of 0..130 bytes and around every power of two to 128 kB, alone, after one another, last without terminator, in pieces of several sizes", func() {
			var ns []int
			for n := 0; n <= 130; n++ {
				ns = append(ns, n)
			}
			for b := 256; b <= 1<<17; b *= 2 {
				ns = append(ns, b-1, b, b+1)
			}
			c.Solo(func(w *core.W) {
				for _, n := range ns {
					l := strings.Repeat("0123456789é", n/11+1)[:n]
					for _, s := range []string{l + "\n", l, l + "\nx\n", "x\n" + l + "\ny", l + "\n\n" + l + "\n"} {
						var ch []string
						if s != "" {
							ch = []string{s}
						}
						if !check(c, w, ch, n%4) {
							return
						}
						if n > 1 && n < 5000 && !check(c, w, []string{s[:n/2], s[n/2:]}, (n+1)%4) {
							return
						}
					}
					if c.TimeUp() {
						return
					}
				}
				for _, piece := range []int{1, 3, 4095, 4096, 4097} {
					l := strings.Repeat("x", 10000) + "\n" + strings.Repeat("yz", 3000) + "\nend"
					var ch []string
					for len(l) > piece {
						if piece < 100 && len(ch) > 300 {
							break
						}
						ch = append(ch, l[:piece])
						l = l[piece:]
					}
					if !check(c, w, append(ch, l), 0) {
						return
					}
				}
			})
		})
		b := 3
		if c.Thorough {
			b = 4
		}
		schedrun.Part(c, "C31", b)
		c.Part("many lines", "0..300 lines, empty and not", func() {
			c.Solo(func(w *core.W) {
				for n := 0; n <= 300; n++ {
					s := ""
					for i := 0; i < n; i++ {
						s += strings.Repeat("v", (i*7+n)%5) + "\n"
					}
					if s == "" {
						continue
					}
					if !check(c, w, []string{s}, n%4) {
						return
					}
				}
			})
		})
		c.Part("files", "inputs from a regular file and from /dev/null", func() {
			c.Solo(func(w *core.W) {
				dir := os.Getenv("MC_TMP")
				f, err := os.CreateTemp(dir, "stdin")
				if err != nil {
					panic(err)
				}
				defer os.Remove(f.Name())
				for _, s := range []string{"", "a", "a\n", "\n", "one\ntwo\nthree", "é\n\nz\n", strings.Repeat("long", 5000) + "\nrest\n"} {
					f.Truncate(0)
					f.WriteAt([]byte(s), 0)
					f.Seek(0, 0)
					syscall.Dup3(int(f.Fd()), 0, 0)
					w.S++
					w.V++
					w.Begin(func() string { return "file " + s })
					var h gost.Stdin
					want := lines(s)
					for i := 0; i < len(want)+2; i++ {
						w.T++
						buf := gost.String("")
						h.ReadLine(&buf)
						exp := ""
						if i < len(want) {
							exp = want[i]
						}
						if string(buf) != exp {
							c.Fail(fmt.Sprintf("file %d %.20q", i, s), "input from a file of %d bytes: line %d is %.60q, want %.60q", len(s), i+1, buf, exp)
							return
						}
					}
				}
			})
		})
	})
}
