// C28: Mutex gives mutual exclusion and protects its value on every schedule.
package main

import (
	"fmt"

	"github.com/myyrakle/gost"

	"verifmc/core"
	"verifmc/schedrun"
)

func main() {
	core.Main("C28", func(c *core.C) {
		c.Assume("exploration at statement level is complete for programs without data races; races are looked for in every execution (race_detector), in the library's own memory and in the protected values")
		depth := 9
		if c.Thorough {
			depth = 11
		}
		c.Part("one goroutine", fmt.Sprintf("the library as it is: every sequence of up to %d of Lock, TryLock, Unlock and update on two mutexes (Lock and Unlock only where correctly paired), against a model", depth), func() {
			const ops = 8
			total := 1
			for i := 0; i < 3; i++ {
				total *= ops
			}
			c.Par(total, func(w *core.W, first int) {
				var seq [16]int
				var run func(n int)
				exec := func(n int) bool {
					w.S++
					w.V++
					var ms [2]*gost.Mutex[int]
					var ps, base [2]*int
					var held [2]bool
					var val [2]int
					for i := range ms {
						m := gost.MutexNew(10 * i)
						ms[i] = &m
						val[i] = 10 * i
					}
					fail := func(i int, format string, args ...any) bool {
						var s string
						for _, o := range seq[:i+1] {
							s += fmt.Sprintf("%s%d ", []string{"Lock", "TryLock", "Unlock", "update"}[o/2], o%2)
						}
						c.Fail(s, "%s: %s", s, fmt.Sprintf(format, args...))
						return false
					}
					for i := 0; i < n; i++ {
						k := seq[i] % 2
						w.T++
						switch seq[i] / 2 {
						case 0:
							if held[k] {
								return true // would block: not correctly paired
							}
							ps[k] = ms[k].Lock()
							held[k] = true
						case 1:
							r := ms[k].TryLock()
							if bool(r.IsOk()) == held[k] || r.IsOk() == r.IsErr() {
								return fail(i, "TryLock: Ok is %v on a mutex whose lock is held: %v", r.IsOk(), held[k])
							}
							if r.IsErr() {
								if e := r.UnwrapErr(); e == nil || e.Error() == "" {
									return fail(i, "TryLock: Err without an error")
								}
								break
							}
							ps[k] = r.Unwrap()
							held[k] = true
						case 2:
							if !held[k] {
								return true
							}
							ms[k].Unlock()
							held[k] = false
						case 3:
							if !held[k] {
								return true
							}
							*ps[k] += 1 + k
							val[k] += 1 + k
						}
						for j := range ms {
							if !held[j] {
								continue
							}
							if base[j] == nil {
								base[j] = ps[j]
							}
							if ps[j] == nil || ps[j] != base[j] {
								return fail(i, "the pointer to the value of mutex %d has changed", j)
							}
							if *ps[j] != val[j] {
								return fail(i, "mutex %d protects %d, want %d", j, *ps[j], val[j])
							}
						}
					}
					if base[0] != nil && base[0] == base[1] {
						return fail(n-1, "two mutexes protect the same variable")
					}
					return true
				}
				run = func(n int) {
					if c.Stopped() {
						return
					}
					// only sequences that are correctly paired go on
					h := [2]bool{}
					for i := 0; i < n; i++ {
						k := seq[i] % 2
						switch seq[i] / 2 {
						case 0:
							if h[k] {
								return
							}
							h[k] = true
						case 1:
							h[k] = true
						case 2:
							if !h[k] {
								return
							}
							h[k] = false
						case 3:
							if !h[k] {
								return
							}
						}
					}
					if n == depth {
						w.Begin(func() string { return fmt.Sprint(seq[:n]) })
						exec(n)
						return
					}
					for o := 0; o < ops; o++ {
						seq[n] = o
						run(n + 1)
					}
				}
				seq[0], seq[1], seq[2] = first%ops, first/ops%ops, first/ops/ops
				run(3)
			})
		})
		b := 3
		if c.Thorough {
			b = 4
		}
		schedrun.Part(c, "C28", b)
	})
}
