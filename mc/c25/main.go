// C25: the filesystem functions leave the tree in the specified state.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/fsref"
)

type S = gost.String

func bytes(s string) []gost.Byte {
	b := make([]gost.Byte, len(s))
	for i := range b {
		b[i] = gost.Byte(s[i])
	}
	return b
}

func text(b []gost.Byte) string {
	s := make([]byte, len(b))
	for i := range s {
		s[i] = byte(b[i])
	}
	return string(s)
}

// An op is one call with its specified outcome.
type op struct {
	name string
	real func(root string) (ok bool, fail string) // runs it; fail reports a wrong result
	spec func(t fsref.Tree) (fsref.Tree, fsref.Verdict)
}

func res[T any](r gost.Result[T]) (bool, string) {
	if r.IsOk() == r.IsErr() {
		return false, "result is neither or both of Ok and Err"
	}
	return bool(r.IsOk()), ""
}

func full(root, p string) S {
	if p == "" {
		return S(root)
	}
	return S(root + "/" + p)
}

func mutators(paths, contents []string) (ops []op) {
	for _, p := range paths {
		ops = append(ops,
			op{"CreateDir(" + p + ")", func(r string) (bool, string) { return res(gost.CreateDir(full(r, p))) }, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.CreateDir(t, p) }},
			op{"RemoveDir(" + p + ")", func(r string) (bool, string) { return res(gost.RemoveDir(full(r, p))) }, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.RemoveDir(t, p) }},
			op{"RemoveFile(" + p + ")", func(r string) (bool, string) { return res(gost.RemoveFile(full(r, p))) }, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.RemoveFile(t, p) }})
		for _, d := range contents {
			ops = append(ops, op{fmt.Sprintf("Write(%s,%q)", p, d), func(r string) (bool, string) {
				b := bytes(d)
				ok, f := res(gost.Write(full(r, p), b))
				if text(b) != d {
					f = "Write changes the data given to it"
				}
				return ok, f
			}, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.Write(t, p, d) }})
		}
		for _, q := range paths {
			ops = append(ops,
				op{"Rename(" + p + "," + q + ")", func(r string) (bool, string) { return res(gost.Rename(full(r, p), full(r, q))) }, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.Rename(t, p, q) }},
				op{"Copy(" + p + "," + q + ")", func(r string) (bool, string) {
					ok, f := res(gost.Copy(full(r, p), full(r, q)))
					if ok && f == "" && p != q {
						f = independent(string(full(r, p)), string(full(r, q)))
					}
					return ok, f
				}, func(t fsref.Tree) (fsref.Tree, fsref.Verdict) { return fsref.Copy(t, p, q) }})
		}
	}
	return
}

// independent checks that two files do not share their storage.
func independent(p, q string) string {
	a, err1 := os.Lstat(p)
	b, err2 := os.Lstat(q)
	if err1 != nil || err2 != nil {
		return ""
	}
	if !b.Mode().IsRegular() {
		return "the copy is not a regular file"
	}
	if os.SameFile(a, b) {
		return "the copy is the same file as its source"
	}
	return ""
}

// queries checks all reads in a tree state.
func queries(w *core.W, root string, t fsref.Tree, paths []string) string {
	for _, p := range paths {
		w.T += 3
		want, v := fsref.Read(t, p)
		r := gost.Read(full(root, p))
		if bool(r.IsOk()) != (v == 'k') {
			return fmt.Sprintf("Read(%s): Ok is %v", p, r.IsOk())
		} else if v == 'k' && text(r.Unwrap()) != want {
			return fmt.Sprintf("Read(%s) = %q, want %q", p, text(r.Unwrap()), want)
		}
		s := gost.ReadToString(full(root, p))
		if bool(s.IsOk()) != (v == 'k') {
			return fmt.Sprintf("ReadToString(%s): Ok is %v", p, s.IsOk())
		} else if v == 'k' && string(s.Unwrap()) != want {
			return fmt.Sprintf("ReadToString(%s) = %q, want %q", p, s.Unwrap(), want)
		}
		if msg := listing(root, t, p, string(full(root, p))); msg != "" {
			return msg
		}
	}
	w.T++
	return listing(root, t, "", root)
}

// listing checks ReadDir of the directory rel, named by arg.
func listing(root string, t fsref.Tree, rel, arg string) string {
	entries, v := fsref.List(t, rel)
	r := gost.ReadDir(S(arg))
	if bool(r.IsOk()) != (v == 'k') {
		return fmt.Sprintf("ReadDir(%s): Ok is %v", rel, r.IsOk())
	}
	if v != 'k' {
		return ""
	}
	vec := r.Unwrap()
	seen := map[string]bool{}
	for i := gost.USize(0); i < vec.Len(); i++ {
		e := vec.GetUnchecked(i)
		name := string(e.FileName)
		n, ok := entries[name]
		if !ok {
			return fmt.Sprintf("ReadDir(%s) lists %q, which does not exist", rel, name)
		}
		if seen[name] {
			return fmt.Sprintf("ReadDir(%s) lists %q twice", rel, name)
		}
		seen[name] = true
		if d, f, l := bool(e.FileType.IsDir()), bool(e.FileType.IsFile()), bool(e.FileType.IsSymlink()); d != (n.Kind == 'd') || f != (n.Kind == 'f') || l != (n.Kind == 'l') {
			return fmt.Sprintf("ReadDir(%s): %q has kind dir=%v file=%v symlink=%v, want %c", rel, name, d, f, l, n.Kind)
		}
		a, err1 := os.Lstat(string(e.Path))
		b, err2 := os.Lstat(filepath.Join(root, rel, name))
		if err1 != nil || err2 != nil || !os.SameFile(a, b) {
			return fmt.Sprintf("ReadDir(%s): the path of %q is %q", rel, name, e.Path)
		}
	}
	if len(seen) != len(entries) {
		return fmt.Sprintf("ReadDir(%s) lists %d of %d entries", rel, len(seen), len(entries))
	}
	return ""
}

// step runs one op on the real tree, which is t, and returns the new tree.
func step(root string, o op, t fsref.Tree) (next fsref.Tree, real fsref.Tree, fail string) {
	want, v := o.spec(t)
	var ok bool
	if p := core.Try(func() { ok, fail = o.real(root) }); p != nil {
		return nil, nil, fmt.Sprintf("panics: %v", p)
	}
	if fail != "" {
		return nil, nil, fail
	}
	real = fsref.Snapshot(root)
	if v == 'k' && !ok || v == 'e' && ok {
		return nil, real, fmt.Sprintf("Ok is %v, want %v (tree then %v)", ok, v == 'k', real)
	}
	if v == '?' && !ok {
		want = t
	}
	if !real.Same(want) {
		return nil, real, fmt.Sprintf("leaves %v, want %v", real, want)
	}
	return want, real, ""
}

var scratchN atomic.Int64

func scratch(c *core.C) string {
	base := os.Getenv("MC_SCRATCH")
	if base == "" {
		var err error
		if base, err = os.MkdirTemp(os.Getenv("MC_TMP"), "c25"); err != nil {
			panic(err)
		}
		os.Setenv("MC_SCRATCH", base)
	}
	d := filepath.Join(base, fmt.Sprintf("r%d", scratchN.Add(1)))
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// trees lists every tree over the two top names with the two names below each.
func trees(files []fsref.Node) (out []fsref.Tree) {
	kid := append([]fsref.Node{{}, {Kind: 'd'}}, files...)
	type sub []struct {
		name string
		n    fsref.Node
	}
	tops := []fsref.Tree{{}}
	for _, f := range files {
		tops = append(tops, fsref.Tree{"": f})
	}
	for _, x := range kid {
		for _, y := range kid {
			t := fsref.Tree{"": {Kind: 'd'}}
			if x.Kind != 0 {
				t["/x"] = x
			}
			if y.Kind != 0 {
				t["/y"] = y
			}
			tops = append(tops, t)
		}
	}
	for _, a := range tops {
		for _, b := range tops {
			t := fsref.Tree{}
			for k, n := range a {
				t["a"+k] = n
			}
			for k, n := range b {
				t["b"+k] = n
			}
			out = append(out, t)
		}
	}
	return
}

func fionread(f *os.File) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// feed writes the chunks into a FIFO, each after the previous one was taken.
func feed(path string, chunks []string) error {
	f, err := os.OpenFile(path, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	for _, ch := range chunks {
		for i := 0; fionread(f) > 0; i++ {
			if i > 50 {
				time.Sleep(20 * time.Microsecond)
			}
			if i > 200000 {
				return fmt.Errorf("nobody reads")
			}
		}
		if _, err := f.WriteString(ch); err != nil {
			return err
		}
	}
	return nil
}

func cuts(s string) (out [][]string) {
	n := len(s)
	if n == 0 {
		return [][]string{nil}
	}
	for m := 0; m < 1<<(n-1); m++ {
		var parts []string
		start := 0
		for i := 1; i < n; i++ {
			if m>>(i-1)&1 == 1 {
				parts = append(parts, s[start:i])
				start = i
			}
		}
		out = append(out, append(parts, s[start:]))
	}
	return
}

func pattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + i>>16)
	}
	return string(b)
}

func main() {
	core.Unprivileged = true
	core.Main("C25", func(c *core.C) {
		syscall.Umask(0o022)
		signal.Ignore(syscall.SIGXFSZ, syscall.SIGPIPE)
		c.Assume("the file system itself (Linux) behaves as specified; renaming onto an existing empty directory and onto itself, and the mode of a file made by Write, are unspecified")
		files := []fsref.Node{{Kind: 'f', Data: "", Mode: 0o644}, {Kind: 'f', Data: "A", Mode: 0o600}, {Kind: 'f', Data: "BBBB\n", Mode: 0o755}}
		paths := []string{"a", "b", "a/x", "a/y", "b/x", "a/x/z", "c", "q/z"}
		ts := trees(files)
		ops := mutators(paths, []string{"", "xy", "longer text\x00\xff"})
		c.Part("one operation in every tree", fmt.Sprintf("every tree over a, b, {a,b}/x, {a,b}/y with %d kinds of files (%d trees): each of %d operations on 8 paths, and all reads", len(files), len(ts), len(ops)), func() {
			c.Par(len(ts), func(w *core.W, i int) {
				root := scratch(c)
				defer os.RemoveAll(root)
				t := ts[i]
				fsref.Build(root, t)
				w.Begin(func() string { return "tree " + t.String() })
				w.S++
				if !fsref.Snapshot(root).Same(t) {
					panic("the tree was not built as described")
				}
				if msg := queries(w, root, t, paths); msg != "" {
					c.Fail("reads "+t.String()+msg, "in the tree %v: %s", t, msg)
					return
				}
				for _, o := range ops {
					w.Begin(func() string { return o.name + " in " + t.String() })
					w.T++
					w.V++
					next, real, fail := step(root, o, t)
					if fail != "" {
						c.Fail(o.name+" "+t.String(), "%s in the tree %v: %s", o.name, t, fail)
						return
					}
					if i == len(ts)/2 && len(next) != len(t) && c.WantSample() {
						c.Sample("%s in %v leaves %v", o.name, t, real)
					}
					if !real.Same(t) {
						fsref.Clear(root)
						fsref.Build(root, t)
					}
				}
				if msg := queries(w, root, t, nil); msg != "" {
					c.Fail("reads after "+t.String()+msg, "in the tree %v, afterwards: %s", t, msg)
				}
			})
		})

		depth := 3
		if c.Thorough {
			depth = 4
		}
		hp := []string{"a", "d", "d/x"}
		hops := mutators(hp, []string{"", "xy"})
		c.Part("histories", fmt.Sprintf("every sequence of %d of %d operations on 3 paths in one directory, the tree and all reads compared after every operation; names reused across histories", depth, len(hops)), func() {
			starts := []fsref.Tree{{}, {"a": {Kind: 'f', Data: "long old text", Mode: 0o640}, "d": {Kind: 'd'}}}
			c.Par(len(hops)*len(hops)*len(starts), func(w *core.W, i int) {
				root := scratch(c)
				defer os.RemoveAll(root)
				start := starts[i%len(starts)]
				i /= len(starts)
				var rec func(t fsref.Tree, hist []int)
				replay := func(hist []int) {
					fsref.Clear(root)
					fsref.Build(root, start)
					t := start
					for _, o := range hist {
						hops[o].real(root)
						t, _ = hops[o].spec(t)
					}
				}
				name := func(hist []int) string {
					var s []string
					for _, o := range hist {
						s = append(s, hops[o].name)
					}
					return start.String() + " " + strings.Join(s, " ")
				}
				// at returns the tree after hist, or nil after a failure
				run := func(t fsref.Tree, hist []int) fsref.Tree {
					w.Begin(func() string { return name(hist) })
					w.T++
					next, real, fail := step(root, hops[hist[len(hist)-1]], t)
					if fail == "" {
						fail = queries(w, root, next, hp)
					}
					if fail != "" {
						c.Fail(name(hist), "%s: %s", name(hist), fail)
						return nil
					}
					// modes that are unspecified are whatever they are now
					for k, n := range next {
						if n.Kind == 'f' && n.Mode == 0 {
							n.Mode = real[k].Mode
							next[k] = n
						}
					}
					return next
				}
				rec = func(t fsref.Tree, hist []int) {
					if len(hist) == depth || c.Stopped() {
						w.S++
						w.V++
						return
					}
					for o := range hops {
						h := append(hist[:len(hist):len(hist)], o)
						next := run(t.Clone(), h)
						if next == nil {
							return
						}
						rec(next, h)
						if !fsref.Snapshot(root).Same(t) {
							replay(hist)
						}
					}
				}
				h := []int{i / len(hops), i % len(hops)}
				fsref.Build(root, start)
				t := run(start.Clone(), h[:1])
				if t == nil {
					return
				}
				if t = run(t, h); t == nil {
					return
				}
				rec(t, h)
			})
		})

		c.Part("sizes", "contents of 0..66 bytes, around every power of two to 2 MB, written over shorter and longer files: Write, Read, ReadToString, Copy, and independence of copies", func() {
			var sizes []int
			for n := 0; n <= 66; n++ {
				sizes = append(sizes, n)
			}
			for b := 128; b <= 1<<21; b *= 2 {
				sizes = append(sizes, b-1, b, b+1)
			}
			sizes = append(sizes, 100000, 1000003)
			c.Par(len(sizes), func(w *core.W, i int) {
				n := sizes[len(sizes)-1-i]
				root := scratch(c)
				defer os.RemoveAll(root)
				data := pattern(n)
				for _, old := range []int{-1, 0, 1, n - 1, n, n + 1, 2*n + 5} {
					if old < -1 || old == 0 && n == 0 {
						continue
					}
					w.S++
					w.V++
					w.T += 6
					w.Begin(func() string { return fmt.Sprintf("%d bytes over %d", n, old) })
					f, g := filepath.Join(root, "f"), filepath.Join(root, "g")
					os.Remove(f)
					os.Remove(g)
					if old >= 0 {
						os.WriteFile(f, []byte(strings.Repeat("o", old)), 0o644)
						os.WriteFile(g, []byte(strings.Repeat("p", old)), 0o600)
					}
					bad := func(what string) {
						c.Fail(fmt.Sprintf("size %d over %d: %s", n, old, what), "%d bytes, over a file of %d bytes (-1: none): %s", n, old, what)
					}
					if r := gost.Write(S(f), bytes(data)); r.IsErr() {
						bad("Write fails")
						return
					}
					if got, _ := os.ReadFile(f); string(got) != data {
						bad(fmt.Sprintf("Write leaves %d bytes or other contents", len(got)))
					}
					if r := gost.Read(S(f)); r.IsErr() || text(r.Unwrap()) != data {
						bad("Read is not the contents")
					}
					if r := gost.ReadToString(S(f)); r.IsErr() || string(r.Unwrap()) != data {
						bad("ReadToString is not the contents")
					}
					os.Chmod(f, 0o640)
					if r := gost.Copy(S(f), S(g)); r.IsErr() {
						bad("Copy fails")
						return
					}
					if got, _ := os.ReadFile(g); string(got) != data {
						bad(fmt.Sprintf("Copy makes %d bytes or other contents", len(got)))
					}
					if st, err := os.Stat(g); err != nil || st.Mode().Perm() != 0o640 {
						bad("Copy does not copy the permission bits")
					}
					for _, x := range []string{f, g} {
						y := f
						if x == f {
							y = g
						}
						if h, err := os.OpenFile(x, os.O_WRONLY, 0); err == nil {
							h.WriteString("changed!")
							h.Close()
						}
						_ = y
						if x == f {
							if got, _ := os.ReadFile(g); string(got) != data {
								bad("changing the source changes the copy")
							}
							os.WriteFile(f, []byte(data), 0o640)
						} else if got, _ := os.ReadFile(f); string(got) != data {
							bad("changing the copy changes the source")
						}
					}
				}
			})
		})

		c.Part("short reads", "files whose reads are short: every way to cut an 8-byte (10 thorough) text into pieces arriving through a FIFO, pieces around the pipe's and the reader's buffer sizes, and /proc files of reported size 0", func() {
			msg := "abcdefgh"
			if c.Thorough {
				msg = "abcdefghij"
			}
			all := cuts(msg)
			for _, n := range []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
				for _, m := range []int{0, 1, 512, 4096, 70000} {
					all = append(all, []string{pattern(n), pattern(m)}, []string{pattern(1), pattern(n), pattern(m)})
				}
			}
			c.Par(len(all)*2, func(w *core.W, i int) {
				chunks := all[i/2]
				want := strings.Join(chunks, "")
				root := scratch(c)
				defer os.RemoveAll(root)
				p := filepath.Join(root, "fifo")
				if err := syscall.Mkfifo(p, 0o600); err != nil {
					panic(err)
				}
				var lens []int
				for _, x := range chunks {
					lens = append(lens, len(x))
				}
				name := fmt.Sprintf("a text arriving in pieces of %v bytes", lens)
				w.S++
				w.T++
				w.V++
				w.Begin(func() string { return name })
				fed := make(chan error, 1)
				go func() { fed <- feed(p, chunks) }()
				var got string
				var ok bool
				if i%2 == 0 {
					r := gost.Read(S(p))
					if ok = bool(r.IsOk()); ok {
						got = text(r.Unwrap())
					}
				} else {
					r := gost.ReadToString(S(p))
					if ok = bool(r.IsOk()); ok {
						got = string(r.Unwrap())
					}
				}
				if !ok || got != want {
					c.Fail(name, "%s: read as %d bytes (Ok %v), want %d", name, len(got), ok, len(want))
					return
				}
				<-fed
				if len(chunks) > 3 && c.WantSample() {
					c.Sample("%s is read completely", name)
				}
			})
			c.Solo(func(w *core.W) {
				for _, p := range []string{"/proc/version", "/proc/cpuinfo", "/proc/filesystems", "/proc/self/limits"} {
					want, err := os.ReadFile(p)
					if err != nil {
						continue
					}
					w.S++
					w.T += 2
					w.V++
					again, _ := os.ReadFile(p)
					if string(again) != string(want) {
						continue
					}
					if r := gost.Read(S(p)); r.IsErr() || len(r.Unwrap()) != len(want) && p != "/proc/cpuinfo" {
						c.Fail("read "+p, "Read(%s) is not its %d bytes", p, len(want))
					}
					if r := gost.ReadToString(S(p)); r.IsErr() || len(r.Unwrap()) != len(want) && p != "/proc/cpuinfo" {
						c.Fail("readtostring "+p, "ReadToString(%s) is not its %d bytes", p, len(want))
					}
				}
			})
		})

		c.Part("write errors", "a full device, and a file size limit at every byte of texts of up to 24 bytes and around larger boundaries: short writes must be reported; unreadable memory", func() {
			c.Solo(func(w *core.W) {
				root := scratch(c)
				defer os.RemoveAll(root)
				src := filepath.Join(root, "src")
				if _, err := os.Stat("/dev/full"); err == nil {
					for _, n := range []int{1, 10, 5000, 100000} {
						w.S++
						w.T += 2
						w.V++
						os.WriteFile(src, []byte(pattern(n)), 0o644)
						if r := gost.Write("/dev/full", bytes(pattern(n))); r.IsOk() {
							c.Fail(fmt.Sprintf("full %d", n), "Write of %d bytes to a full device returns Ok", n)
						}
						if r := gost.Copy(S(src), "/dev/full"); r.IsOk() {
							c.Fail(fmt.Sprintf("copy full %d", n), "Copy of %d bytes to a full device returns Ok", n)
						}
					}
				}
				if r := gost.Read("/proc/self/mem"); r.IsOk() {
					c.Fail("read mem", "Read of a file whose reads fail returns Ok")
				}
				if r := gost.ReadToString("/proc/self/mem"); r.IsOk() {
					c.Fail("readtostring mem", "ReadToString of a file whose reads fail returns Ok")
				}
				var old syscall.Rlimit
				if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
					return
				}
				type cs struct{ n, limit int }
				var cases []cs
				for n := 0; n <= 24; n++ {
					for l := 0; l <= n+1; l++ {
						cases = append(cases, cs{n, l})
					}
				}
				for _, n := range []int{4096, 5000, 65536, 70000, 300000} {
					for _, l := range []int{0, 1, 4095, 4096, 4097, n / 2, n - 1, n, n + 1, n + 65537, 10 * n} {
						cases = append(cases, cs{n, l})
					}
				}
				dst := filepath.Join(root, "dst")
				for _, x := range cases {
					data := pattern(x.n)
					for k := 0; k < 4; k++ {
						os.Remove(dst)
						os.WriteFile(src, []byte(data), 0o644)
						if k >= 2 {
							os.WriteFile(dst, []byte("old contents"), 0o644)
						}
						what := "Write"
						if k%2 == 1 {
							what = "Copy"
						}
						w.S++
						w.T++
						w.V++
						name := fmt.Sprintf("%s of %d bytes with a limit of %d", what, x.n, x.limit)
						w.Begin(func() string { return name })
						var ok bool
						syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(x.limit), Max: old.Max})
						p := core.Try(func() {
							if k%2 == 0 {
								ok = bool(gost.Write(S(dst), bytes(data)).IsOk())
							} else {
								ok = bool(gost.Copy(S(src), S(dst)).IsOk())
							}
						})
						syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
						got, _ := os.ReadFile(dst)
						if p != nil {
							c.Fail(name, "%s panics: %v", name, p)
						} else if ok && string(got) != data {
							c.Fail(name, "%s returns Ok but leaves %d bytes", name, len(got))
						} else if !ok && x.limit > x.n+65536 {
							c.Fail(name, "%s fails", name)
						}
						if !ok && c.WantSample() {
							c.Sample("%s is Err", name)
						}
						if s, _ := os.ReadFile(src); string(s) != data {
							c.Fail(name, "%s changes the source", name)
						}
					}
				}
			})
		})

		c.Part("long histories", "each function 200 times, succeeding and failing, with few open files allowed and no garbage collection in between: what one call opens does not stay open", func() {
			c.Solo(func(w *core.W) {
				root := scratch(c)
				defer os.RemoveAll(root)
				var old syscall.Rlimit
				if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old) != nil {
					return
				}
				open, err := os.ReadDir("/proc/self/fd")
				if err != nil {
					return
				}
				file, dir, none := filepath.Join(root, "f"), filepath.Join(root, "d"), filepath.Join(root, "none", "x")
				os.WriteFile(file, []byte("text"), 0o644)
				os.Mkdir(dir, 0o755)
				calls := []struct {
					name string
					want bool
					call func(i int) bool
				}{
					{"Read of a file", true, func(i int) bool { return bool(gost.Read(S(file)).IsOk()) }},
					{"Read of nothing", false, func(i int) bool { return bool(gost.Read(S(none)).IsOk()) }},
					{"Read of a directory", false, func(i int) bool { return bool(gost.Read(S(dir)).IsOk()) }},
					{"ReadToString of a file", true, func(i int) bool { return bool(gost.ReadToString(S(file)).IsOk()) }},
					{"ReadToString of nothing", false, func(i int) bool { return bool(gost.ReadToString(S(none)).IsOk()) }},
					{"ReadToString of a directory", false, func(i int) bool { return bool(gost.ReadToString(S(dir)).IsOk()) }},
					{"Write", true, func(i int) bool { return bool(gost.Write(S(file), bytes("text")).IsOk()) }},
					{"Write of new files", true, func(i int) bool {
						return bool(gost.Write(S(fmt.Sprint(file, i)), bytes("text")).IsOk())
					}},
					{"Write to nowhere", false, func(i int) bool { return bool(gost.Write(S(none), bytes("text")).IsOk()) }},
					{"Write to a directory", false, func(i int) bool { return bool(gost.Write(S(dir), bytes("text")).IsOk()) }},
					{"Copy", true, func(i int) bool { return bool(gost.Copy(S(file), S(file+"copy")).IsOk()) }},
					{"Copy of nothing", false, func(i int) bool { return bool(gost.Copy(S(none), S(file)).IsOk()) }},
					{"Copy to nowhere", false, func(i int) bool { return bool(gost.Copy(S(file), S(none)).IsOk()) }},
					{"Copy of a directory", false, func(i int) bool { return bool(gost.Copy(S(dir), S(file+"copy")).IsOk()) }},
					{"Copy to a directory", false, func(i int) bool { return bool(gost.Copy(S(file), S(dir)).IsOk()) }},
					{"ReadDir", true, func(i int) bool { return bool(gost.ReadDir(S(root)).IsOk()) }},
					{"ReadDir of nothing", false, func(i int) bool { return bool(gost.ReadDir(S(none)).IsOk()) }},
					{"ReadDir of a file", false, func(i int) bool { return bool(gost.ReadDir(S(file)).IsOk()) }},
					{"CreateDir", true, func(i int) bool { return bool(gost.CreateDir(S(fmt.Sprint(dir, i))).IsOk()) }},
					{"CreateDir again", false, func(i int) bool { return bool(gost.CreateDir(S(dir)).IsOk()) }},
					{"RemoveDir", true, func(i int) bool { return bool(gost.RemoveDir(S(fmt.Sprint(dir, i))).IsOk()) }},
					{"RemoveDir of nothing", false, func(i int) bool { return bool(gost.RemoveDir(S(none)).IsOk()) }},
					{"RemoveDir of a file", false, func(i int) bool { return bool(gost.RemoveDir(S(file)).IsOk()) }},
					{"Rename", true, func(i int) bool {
						return bool(gost.Rename(S(fmt.Sprint(file, i)), S(fmt.Sprint(file, "r", i))).IsOk())
					}},
					{"Rename of nothing", false, func(i int) bool { return bool(gost.Rename(S(none), S(file)).IsOk()) }},
					{"RemoveFile", true, func(i int) bool { return bool(gost.RemoveFile(S(fmt.Sprint(file, "r", i))).IsOk()) }},
					{"RemoveFile of nothing", false, func(i int) bool { return bool(gost.RemoveFile(S(none)).IsOk()) }},
					{"RemoveFile of a directory", false, func(i int) bool { return bool(gost.RemoveFile(S(dir)).IsOk()) }},
				}
				defer debug.SetGCPercent(debug.SetGCPercent(-1))
				syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(len(open) + 40), Max: old.Max})
				defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
				for _, x := range calls {
					for i := 0; i < 200; i++ {
						w.S++
						w.T++
						w.V++
						var ok bool
						if p := core.Try(func() { ok = x.call(i) }); p != nil {
							c.Fail(x.name, "%s number %d panics: %v", x.name, i, p)
							break
						}
						if ok != x.want {
							c.Fail(x.name, "%s number %d with few open files allowed: Ok is %v", x.name, i, ok)
							break
						}
					}
					runtime.GC() // so that one leaking function is not blamed on the next
					time.Sleep(time.Millisecond)
				}
				if got := gost.Read(S(file)); got.IsErr() || text(got.Unwrap()) != "text" {
					c.Fail("afterwards", "after many calls, Read of a file is not its contents")
				}
			})
		})

		c.Part("directory listings", "directories of 0..150 and of around 256..3000 entries of all kinds; unusual names; forms of the path", func() {
			ns := []int{}
			for n := 0; n <= 150; n++ {
				ns = append(ns, n)
			}
			ns = append(ns, 255, 256, 257, 511, 513, 1023, 1025, 3000)
			c.Par(len(ns), func(w *core.W, i int) {
				n := ns[len(ns)-1-i]
				root := scratch(c)
				defer os.RemoveAll(root)
				t := fsref.Tree{"d": {Kind: 'd'}}
				odd := []string{".hidden", "..x", "with space", "é世😀", "a\nb", "*", "-r", "\\", "con", strings.Repeat("n", 255), "d.d", "~", "x.txt", "\xff\xfe"}
				for k := 0; k < n; k++ {
					name := fmt.Sprintf("%04d%s", k, strings.Repeat("w", k%40))
					if k < len(odd) && n < 200 {
						name = odd[k]
					}
					p := "d/" + name
					switch (k + n) % 4 {
					case 0:
						t[p] = fsref.Node{Kind: 'd'}
					case 1:
						t[p] = fsref.Node{Kind: 'l', Link: "gone"}
					case 2:
						t[p] = fsref.Node{Kind: 'l', Link: "."}
					default:
						t[p] = fsref.Node{Kind: 'f', Data: "x", Mode: 0o644}
					}
				}
				fsref.Build(root, t)
				w.S++
				w.V++
				w.Begin(func() string { return fmt.Sprintf("directory of %d entries", n) })
				for _, form := range []string{root + "/d", root + "/d/", root + "/./d", root + "/d/../d/."} {
					w.T++
					if msg := listing(root, t, "d", form); msg != "" {
						c.Fail(fmt.Sprintf("listing %d %s", n, msg), "directory of %d entries: %s", n, msg)
						return
					}
				}
				// other things than files
				if n == 1 {
					syscall.Mkfifo(filepath.Join(root, "d", "fifo"), 0o600)
					t["d/fifo"] = fsref.Node{Kind: 'o'}
					if msg := listing(root, t, "d", root+"/d"); msg != "" {
						c.Fail("listing fifo "+msg, "directory with a FIFO: %s", msg)
					}
				}
			})
		})

		c.Part("symbolic links", "links to a file, to a directory and to nothing: what every operation does to the link and to its target", func() {
			base := fsref.Tree{"f": {Kind: 'f', Data: "text", Mode: 0o640}, "d": {Kind: 'd'}, "d/x": {Kind: 'f', Data: "inner", Mode: 0o600}, "e": {Kind: 'd'},
				"lf": {Kind: 'l', Link: "f"}, "ld": {Kind: 'l', Link: "d"}, "le": {Kind: 'l', Link: "e"}, "gone": {Kind: 'l', Link: "nowhere"}}
			without := func(ks ...string) fsref.Tree {
				t := base.Clone()
				for _, k := range ks {
					delete(t, k)
				}
				return t
			}
			with := func(t fsref.Tree, k string, n fsref.Node) fsref.Tree {
				t = t.Clone()
				t[k] = n
				return t
			}
			type exp struct {
				name string
				run  func(r string) bool
				ok   bool
				want fsref.Tree
			}
			var exps []exp
			for _, l := range []string{"lf", "ld", "le", "gone"} {
				exps = append(exps,
					exp{"RemoveFile(" + l + ")", func(r string) bool { return bool(gost.RemoveFile(full(r, l)).IsOk()) }, true, without(l)},
					exp{"RemoveDir(" + l + ")", func(r string) bool { return bool(gost.RemoveDir(full(r, l)).IsOk()) }, false, base},
					exp{"CreateDir(" + l + ")", func(r string) bool { return bool(gost.CreateDir(full(r, l)).IsOk()) }, false, base},
					exp{"Rename(" + l + ",n)", func(r string) bool { return bool(gost.Rename(full(r, l), full(r, "n")).IsOk()) }, true, with(without(l), "n", base[l])},
				)
			}
			exps = append(exps,
				exp{"Copy(lf,n)", func(r string) bool { return bool(gost.Copy(full(r, "lf"), full(r, "n")).IsOk()) }, true, with(base, "n", base["f"])},
				exp{"Copy(lf,d/x)", func(r string) bool { return bool(gost.Copy(full(r, "lf"), full(r, "d/x")).IsOk()) }, true, with(base, "d/x", base["f"])},
				exp{"Copy(ld,n)", func(r string) bool { return bool(gost.Copy(full(r, "ld"), full(r, "n")).IsOk()) }, false, base},
				exp{"Copy(gone,n)", func(r string) bool { return bool(gost.Copy(full(r, "gone"), full(r, "n")).IsOk()) }, false, base},
				exp{"Copy(ld/x,n)", func(r string) bool { return bool(gost.Copy(full(r, "ld/x"), full(r, "n")).IsOk()) }, true, with(base, "n", base["d/x"])},
				exp{"Copy(lf,f)", func(r string) bool { gost.Copy(full(r, "lf"), full(r, "f")); return true }, true, base},
				exp{"Read(lf)", func(r string) bool {
					x := gost.Read(full(r, "lf"))
					return bool(x.IsOk()) && text(x.Unwrap()) == "text"
				}, true, base},
				exp{"ReadToString(ld/x)", func(r string) bool {
					x := gost.ReadToString(full(r, "ld/x"))
					return bool(x.IsOk()) && string(x.Unwrap()) == "inner"
				}, true, base},
				exp{"Read(gone)", func(r string) bool { return bool(gost.Read(full(r, "gone")).IsOk()) }, false, base},
				exp{"Read(ld)", func(r string) bool { return bool(gost.Read(full(r, "ld")).IsOk()) }, false, base},
				exp{"ReadDir(gone)", func(r string) bool { return bool(gost.ReadDir(full(r, "gone")).IsOk()) }, false, base},
				exp{"ReadDir(lf)", func(r string) bool { return bool(gost.ReadDir(full(r, "lf")).IsOk()) }, false, base},
				exp{"ReadDir(ld)", func(r string) bool {
					x := gost.ReadDir(full(r, "ld"))
					if x.IsErr() {
						return false
					}
					v := x.Unwrap()
					return v.Len() == 1 && v.GetUnchecked(0).FileName == "x"
				}, true, base},
				exp{"RemoveFile(ld/x)", func(r string) bool { return bool(gost.RemoveFile(full(r, "ld/x")).IsOk()) }, true, without("d/x")},
				exp{"CreateDir(ld/y)", func(r string) bool { return bool(gost.CreateDir(full(r, "ld/y")).IsOk()) }, true, with(base, "d/y", fsref.Node{Kind: 'd'})},
			)
			c.Solo(func(w *core.W) {
				root := scratch(c)
				defer os.RemoveAll(root)
				for _, e := range exps {
					w.S++
					w.T++
					w.V++
					w.Begin(func() string { return e.name })
					fsref.Clear(root)
					fsref.Build(root, base)
					var ok bool
					if p := core.Try(func() { ok = e.run(root) }); p != nil {
						c.Fail("link "+e.name, "%s panics: %v", e.name, p)
						return
					}
					if ok != e.ok {
						c.Fail("link "+e.name, "%s with %v: success is %v, want %v", e.name, base, ok, e.ok)
					} else if got := fsref.Snapshot(root); !got.Same(e.want) {
						c.Fail("link "+e.name, "%s with %v leaves %v, want %v", e.name, base, got, e.want)
					}
				}
			})
		})

		c.Part("bad paths", "the empty path, a path with NUL, too long names and paths, a file used as a directory", func() {
			c.Solo(func(w *core.W) {
				root := scratch(c)
				defer os.RemoveAll(root)
				t := fsref.Tree{"f": {Kind: 'f', Data: "text", Mode: 0o640}, "d": {Kind: 'd'}}
				fsref.Build(root, t)
				wd, _ := os.Getwd()
				os.Chdir(root)
				defer os.Chdir(wd)
				good := S(root + "/f")
				for _, bad := range []S{"", "a\x00b", S(root + "/" + strings.Repeat("n", 256)), S(root + "/f/x"), S(root + "/no/x"), S("./" + strings.Repeat("d/", 3000)), S(root + "/f\x00")} {
					calls := map[string]func() bool{
						"CreateDir":    func() bool { return bool(gost.CreateDir(bad).IsOk()) },
						"RemoveDir":    func() bool { return bool(gost.RemoveDir(bad).IsOk()) },
						"RemoveFile":   func() bool { return bool(gost.RemoveFile(bad).IsOk()) },
						"Write":        func() bool { return bool(gost.Write(bad, bytes("x")).IsOk()) },
						"Read":         func() bool { return bool(gost.Read(bad).IsOk()) },
						"ReadToString": func() bool { return bool(gost.ReadToString(bad).IsOk()) },
						"ReadDir":      func() bool { return bool(gost.ReadDir(bad).IsOk()) },
						"Rename from":  func() bool { return bool(gost.Rename(bad, S(root+"/n")).IsOk()) },
						"Rename to":    func() bool { return bool(gost.Rename(good, bad).IsOk()) },
						"Copy from":    func() bool { return bool(gost.Copy(bad, S(root+"/n")).IsOk()) },
						"Copy to":      func() bool { return bool(gost.Copy(good, bad).IsOk()) },
						"Copy from on": func() bool { return bool(gost.Copy(bad, good).IsOk()) },
					}
					names := []string{}
					for n := range calls {
						names = append(names, n)
					}
					sort.Strings(names)
					for _, n := range names {
						w.S++
						w.T++
						w.V++
						short := string(bad)
						if len(short) > 60 {
							short = short[len(short)-60:]
						}
						w.Begin(func() string { return fmt.Sprintf("%s %q", n, short) })
						var ok bool
						if p := core.Try(func() { ok = calls[n]() }); p != nil {
							c.Fail("bad path "+n+short, "%s with the path ...%q panics: %v", n, short, p)
						} else if ok {
							c.Fail("bad path "+n+short, "%s with the path ...%q returns Ok", n, short)
						} else if got := fsref.Snapshot(root); !got.Same(t) {
							c.Fail("bad path "+n+short, "%s with the path ...%q leaves %v", n, short, got)
						}
						if c.Stopped() {
							return
						}
					}
				}
				// relative paths mean the current directory
				for i, f := range []func() bool{
					func() bool { return bool(gost.CreateDir("sub").IsOk()) },
					func() bool { return bool(gost.Write("sub/w", bytes("data")).IsOk()) },
					func() bool { return bool(gost.Copy("sub/w", "./c").IsOk()) },
					func() bool { return bool(gost.Rename("c", "sub/../c2").IsOk()) },
					func() bool { r := gost.Read("c2"); return bool(r.IsOk()) && text(r.Unwrap()) == "data" },
					func() bool { r := gost.ReadDir("sub"); return bool(r.IsOk()) && r.Unwrap().Len() == 1 },
					func() bool { r := gost.ReadDir("."); return bool(r.IsOk()) && r.Unwrap().Len() == 4 },
					func() bool { return bool(gost.RemoveFile("sub/w").IsOk()) },
					func() bool { return bool(gost.RemoveDir("sub").IsOk()) },
				} {
					w.S++
					w.T++
					w.V++
					if !f() {
						c.Fail(fmt.Sprintf("relative %d", i), "relative path, step %d (CreateDir, Write, Copy, Rename, Read, ReadDir, ReadDir, RemoveFile, RemoveDir) fails; tree %v", i, fsref.Snapshot(root))
						return
					}
				}
				if got := fsref.Snapshot(root); !got.Same(fsref.Tree{"f": t["f"], "d": t["d"], "c2": {Kind: 'f', Data: "data"}}) {
					c.Fail("relative", "operations with relative paths leave %v", got)
				}
			})
		})

		if os.Geteuid() != 0 {
			c.Part("permissions", "as an unprivileged user: operations refused by the system return Err and change nothing", func() {
				c.Solo(func(w *core.W) {
					root := scratch(c)
					t := fsref.Tree{"r": {Kind: 'f', Data: "read only", Mode: 0o444}, "n": {Kind: 'f', Data: "none", Mode: 0o200}, "o": {Kind: 'f', Data: "open", Mode: 0o644},
						"d": {Kind: 'd'}, "d/x": {Kind: 'f', Data: "inner", Mode: 0o644}, "d/e": {Kind: 'd'}}
					fsref.Build(root, t)
					os.Chmod(root+"/d", 0o555)
					defer os.RemoveAll(root)
					defer os.Chmod(root+"/d", 0o755)
					f := func(p string) S { return full(root, p) }
					calls := []struct {
						name string
						run  func() bool
					}{
						{"Write(read-only file)", func() bool { return bool(gost.Write(f("r"), bytes("zz")).IsOk()) }},
						{"Copy(onto read-only file)", func() bool { return bool(gost.Copy(f("o"), f("r")).IsOk()) }},
						{"Copy(unreadable file, onto another)", func() bool { return bool(gost.Copy(f("n"), f("o")).IsOk()) }},
						{"Copy(unreadable file, new)", func() bool { return bool(gost.Copy(f("n"), f("new")).IsOk()) }},
						{"Read(unreadable)", func() bool { return bool(gost.Read(f("n")).IsOk()) }},
						{"ReadToString(unreadable)", func() bool { return bool(gost.ReadToString(f("n")).IsOk()) }},
						{"RemoveFile(in read-only directory)", func() bool { return bool(gost.RemoveFile(f("d/x")).IsOk()) }},
						{"RemoveDir(in read-only directory)", func() bool { return bool(gost.RemoveDir(f("d/e")).IsOk()) }},
						{"CreateDir(in read-only directory)", func() bool { return bool(gost.CreateDir(f("d/n")).IsOk()) }},
						{"Write(new, in read-only directory)", func() bool { return bool(gost.Write(f("d/n"), bytes("x")).IsOk()) }},
						{"Copy(into read-only directory)", func() bool { return bool(gost.Copy(f("o"), f("d/n")).IsOk()) }},
						{"Rename(out of read-only directory)", func() bool { return bool(gost.Rename(f("d/x"), f("y")).IsOk()) }},
						{"Rename(into read-only directory)", func() bool { return bool(gost.Rename(f("o"), f("d/y")).IsOk()) }},
					}
					for _, x := range calls {
						w.S++
						w.T++
						w.V++
						w.Begin(func() string { return x.name })
						var ok bool
						p := core.Try(func() { ok = x.run() })
						os.Chmod(root+"/n", 0o644)
						got := fsref.Snapshot(root)
						os.Chmod(root+"/n", 0o200)
						want := t.Clone()
						want["n"] = fsref.Node{Kind: 'f', Data: "none", Mode: 0o644}
						if p != nil || ok || !got.Same(want) {
							c.Fail("permission "+x.name, "%s: Ok %v, panic %v, leaves %v, want Err and %v", x.name, ok, p, got, want)
							return
						}
					}
					os.Chmod(root+"/d", 0)
					if r := gost.ReadDir(f("d")); r.IsOk() {
						c.Fail("permission ReadDir", "ReadDir of an unreadable directory returns Ok")
					}
				})
			})
		}
	})
}
