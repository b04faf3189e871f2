// C26: futures deliver their result to every await, on every schedule.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"

	"verifmc/bubble"
	"verifmc/core"
	"verifmc/fsref"
	"verifmc/schedrun"
)

type S = gost.String

// --- order of events in virtual time, on the library as it is ---

func timing(c *core.C, w *core.W, dur int, awaits []int) {
	name := fmt.Sprintf("function of %d s, awaits at %v s", dur, awaits)
	w.Begin(func() string { return name })
	w.S++
	w.V++
	var bad string
	runs := 0
	msg := bubble.Run(func() {
		start := time.Now()
		at := func() time.Duration { return time.Since(start) }
		want := new(int)
		f := gokio.Spawn(func() *int {
			runs++
			time.Sleep(time.Duration(dur) * time.Second)
			return want
		})
		if at() != 0 {
			bad = fmt.Sprintf("Spawn took %v", at())
			return
		}
		type res struct {
			t time.Duration
			v *int
		}
		out := make([]res, len(awaits))
		for i, a := range awaits {
			i, a := i, a
			go func() {
				time.Sleep(time.Duration(a) * time.Second)
				v := f.Await()
				out[i] = res{at(), v}
			}()
		}
		time.Sleep(100 * time.Second)
		bubble.Wait()
		if runs != 1 {
			bad = fmt.Sprintf("the function ran %d times", runs)
		}
		for i, a := range awaits {
			e := time.Duration(max(a, dur)) * time.Second
			if out[i].v != want {
				bad = fmt.Sprintf("the await at %d s did not return the result within 100 s", a)
			} else if out[i].t != e {
				bad = fmt.Sprintf("the await at %d s returned at %v, want %v", a, out[i].t, e)
			}
		}
	})
	w.T += int64(len(awaits) + 1)
	if bad == "" {
		bad = msg
	}
	if bad != "" {
		c.Fail(name, "%s: %s", name, bad)
	} else if len(awaits) == 3 && c.WantSample() {
		c.Sample("%s: all returned", name)
	}
}

// --- file functions ---

var scratchN atomic.Int64

func scratch() string {
	base := os.Getenv("MC_SCRATCH")
	if base == "" {
		var err error
		if base, err = os.MkdirTemp(os.Getenv("MC_TMP"), "c26"); err != nil {
			panic(err)
		}
		os.Setenv("MC_SCRATCH", base)
	}
	d := filepath.Join(base, fmt.Sprintf("r%d", scratchN.Add(1)))
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func show[T any](r gost.Result[T], root string, f func(T) string) string {
	if r.IsErr() {
		return "Err " + strings.ReplaceAll(r.UnwrapErr().Error(), root, "ROOT")
	}
	return "Ok " + f(r.Unwrap())
}

func unit(any) string { return "" }

func data(b []gost.Byte) string {
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i])
	}
	return fmt.Sprintf("%q nil=%v", s, b == nil)
}

func entries(root string) func(v gost.Vec[gost.DirEntry]) string {
	return func(v gost.Vec[gost.DirEntry]) string {
		var out []string
		for i := gost.USize(0); i < v.Len(); i++ {
			e := v.GetUnchecked(i)
			out = append(out, fmt.Sprintf("%s|%s|%v%v%v", e.FileName, strings.ReplaceAll(string(e.Path), root, "ROOT"), e.FileType.IsDir(), e.FileType.IsFile(), e.FileType.IsSymlink()))
		}
		sort.Strings(out)
		return strings.Join(out, ", ")
	}
}

// an op gives the outcome of the synchronous function, and starts the
// asynchronous one, returning what awaits it.
type op struct {
	name  string
	sync  func(root string) string
	async func(root string) func() string
}

func pair[T any](name string, s func(p, q S) gost.Result[T], a func(p, q S) gost.Future[gost.Result[T]], f func(root string) func(T) string, p, q string) op {
	at := func(root, p string) S {
		if p == "" {
			return S(root)
		}
		return S(root + "/" + p)
	}
	return op{fmt.Sprintf("%s(%s %s)", name, p, q),
		func(root string) string { return show(s(at(root, p), at(root, q)), root, f(root)) },
		func(root string) func() string {
			fut := a(at(root, p), at(root, q))
			return func() string { return show(fut.Await(), root, f(root)) }
		}}
}

func ops(paths []string) (out []op) {
	u := func(string) func(any) string { return unit }
	for _, p := range paths {
		out = append(out,
			pair("CreateDir", func(p, _ S) gost.Result[any] { return gost.CreateDir(p) }, func(p, _ S) gost.Future[gost.Result[any]] { return gokio.CreateDir(p) }, u, p, ""),
			pair("RemoveDir", func(p, _ S) gost.Result[any] { return gost.RemoveDir(p) }, func(p, _ S) gost.Future[gost.Result[any]] { return gokio.RemoveDir(p) }, u, p, ""),
			pair("RemoveFile", func(p, _ S) gost.Result[any] { return gost.RemoveFile(p) }, func(p, _ S) gost.Future[gost.Result[any]] { return gokio.RemoveFile(p) }, u, p, ""),
			pair("Read", func(p, _ S) gost.Result[[]gost.Byte] { return gost.Read(p) }, func(p, _ S) gost.Future[gost.Result[[]gost.Byte]] { return gokio.Read(p) }, func(string) func([]gost.Byte) string { return data }, p, ""),
			pair("ReadToString", func(p, _ S) gost.Result[S] { return gost.ReadToString(p) }, func(p, _ S) gost.Future[gost.Result[S]] { return gokio.ReadToString(p) }, func(string) func(S) string { return func(s S) string { return string(s) } }, p, ""),
			pair("ReadDir", func(p, _ S) gost.Result[gost.Vec[gost.DirEntry]] { return gost.ReadDir(p) }, func(p, _ S) gost.Future[gost.Result[gost.Vec[gost.DirEntry]]] { return gokio.ReadDir(p) }, entries, p, ""))
		for _, d := range []string{"", "new", "a longer text\x00\xff\n"} {
			b := make([]gost.Byte, len(d))
			for i := range b {
				b[i] = gost.Byte(d[i])
			}
			o := pair("Write", func(p, _ S) gost.Result[any] { return gost.Write(p, b) }, func(p, _ S) gost.Future[gost.Result[any]] { return gokio.Write(p, b) }, u, p, "")
			o.name = fmt.Sprintf("Write(%s, %q)", p, d)
			out = append(out, o)
		}
		for _, q := range paths {
			out = append(out,
				pair("Rename", gost.Rename, func(p, q S) gost.Future[gost.Result[any]] { return gokio.Rename(p, q) }, u, p, q),
				pair("Copy", gost.Copy, func(p, q S) gost.Future[gost.Result[any]] { return gokio.Copy(p, q) }, u, p, q))
		}
	}
	return
}

func main() {
	core.Unprivileged = true
	bubble.Main("C26", func(c *core.C) {
		c.Assume("exploration at statement level is complete for programs without data races; races are looked for in every execution (race_detector), in the library's own memory and in values protected by it")
		times := []int{1, 3, 5, 7, 9}
		c.Part("order of events", "the library as it is, in virtual time: functions of 0, 2, 4, 6, 8 s; up to 3 awaits at every combination of 5 times before, between and after; the time at which each Await returns", func() {
			var cases [][]int
			cases = append(cases, nil)
			for _, a := range times {
				cases = append(cases, []int{a})
				for _, b := range times {
					if b < a {
						continue
					}
					cases = append(cases, []int{a, b})
					for _, d := range times {
						if d >= b {
							cases = append(cases, []int{a, b, d})
						}
					}
				}
			}
			c.Par(len(cases), func(w *core.W, i int) {
				for _, d := range []int{0, 2, 4, 6, 8} {
					timing(c, w, d, cases[i])
				}
			})
		})
		var ts []fsref.Tree
		kinds := []fsref.Node{{}, {Kind: 'f', Data: "data", Mode: 0o640}, {Kind: 'f', Data: "", Mode: 0o600}, {Kind: 'd'}}
		for _, a := range kinds {
			for _, b := range kinds {
				for _, x := range kinds {
					if x.Kind != 0 && a.Kind != 'd' {
						continue
					}
					t := fsref.Tree{}
					for p, n := range map[string]fsref.Node{"a": a, "b": b, "a/x": x} {
						if n.Kind != 0 {
							t[p] = n
						}
					}
					ts = append(ts, t)
				}
			}
		}
		all := ops([]string{"a", "b", "a/x", "n", "n/x", "b/y", ""})
		c.Part("file functions", fmt.Sprintf("%d trees x %d calls: each function of gokio in one copy of the tree, its synchronous counterpart in another; the same Result (awaited twice) and the same tree", len(ts), len(all)), func() {
			c.Par(len(ts), func(w *core.W, i int) {
				ra, rb := scratch(), scratch()
				defer os.RemoveAll(ra)
				defer os.RemoveAll(rb)
				t := ts[i]
				fsref.Build(ra, t)
				fsref.Build(rb, t)
				for _, o := range all {
					name := o.name + " in " + t.String()
					if strings.Contains(o.name, "( ") || strings.Contains(o.name, " )") && (strings.HasPrefix(o.name, "Rename") || strings.HasPrefix(o.name, "Copy")) || strings.HasPrefix(o.name, "RemoveDir( )") {
						if !strings.HasPrefix(o.name, "Read") && !strings.HasPrefix(o.name, "CreateDir") {
							continue // would move the scratch directory itself
						}
					}
					w.Begin(func() string { return name })
					w.S++
					w.V++
					w.T += 2
					sa := o.sync(ra)
					aw := o.async(rb)
					sb := aw()
					ta, tb := fsref.Snapshot(ra), fsref.Snapshot(rb)
					again := aw()
					if sa != sb || again != sb {
						c.Fail(name, "%s: the synchronous function gives %s, the asynchronous one %s, then %s", name, sa, sb, again)
						return
					}
					if !tb.Same(ta) {
						c.Fail(name, "%s: after the asynchronous function the tree is %v, want %v", name, tb, ta)
						return
					}
					if !ta.Same(t) {
						fsref.Clear(ra)
						fsref.Build(ra, t)
						fsref.Clear(rb)
						fsref.Build(rb, t)
					}
				}
			})
		})
		c.Part("file functions together", "two calls under way at once on different paths, awaited in either order or not at all", func() {
			two := ops([]string{"a"})
			other := ops([]string{"b"})
			c.Par(len(two), func(w *core.W, i int) {
				root, model := scratch(), scratch()
				defer os.RemoveAll(root)
				defer os.RemoveAll(model)
				for j := range other {
					for _, t := range []fsref.Tree{{}, {"a": kinds[1], "b": kinds[1]}, {"a": kinds[3], "b": kinds[3]}} {
						for order := 0; order < 3; order++ {
							name := fmt.Sprintf("%s with %s in %v, order %d", two[i].name, other[j].name, t, order)
							w.Begin(func() string { return name })
							w.S++
							w.V++
							w.T += 2
							fsref.Clear(root)
							fsref.Build(root, t)
							fsref.Clear(model)
							fsref.Build(model, t)
							wa, wb := two[i].sync(model), other[j].sync(model)
							want := fsref.Snapshot(model)
							fa, fb := two[i].async(root), other[j].async(root)
							var a, b string
							switch order {
							case 0:
								a, b = fa(), fb()
							case 1:
								b, a = fb(), fa()
							case 2:
								a, b = wa, wb
								for end := time.Now().Add(20 * time.Second); !fsref.Snapshot(root).Same(want) && time.Now().Before(end); {
									time.Sleep(100 * time.Microsecond)
								}
							}
							if got := fsref.Snapshot(root); a != wa || b != wb || !got.Same(want) {
								c.Fail(name, "%s: results %s and %s, want %s and %s; tree %v, want %v", name, a, b, wa, wb, got, want)
								return
							}
							if order == 2 {
								fa()
								fb()
							}
						}
					}
				}
			})
		})
		b := 3
		if c.Thorough {
			b = 4
		}
		schedrun.Part(c, "C26", b)
	})
}
