// C24: Durations convert exactly; Sleep lasts at least as long as asked.
package main

import (
	"fmt"
	"math/bits"
	"time"

	"github.com/myyrakle/gost"

	"verifmc/bubble"
	"verifmc/core"
	"verifmc/wide"
)

// u128 is the reference arithmetic.
type u128 struct{ hi, lo uint64 }

func mul(a, b uint64) u128 {
	hi, lo := bits.Mul64(a, b)
	return u128{hi, lo}
}

func (x u128) add(b uint64) u128 {
	lo, c := bits.Add64(x.lo, b, 0)
	return u128{x.hi + c, lo}
}

// check compares every accessor with secs seconds and nanos (< 10^9) nanoseconds.
func check(c *core.C, w *core.W, what func() string, d gost.Duration, secs uint64, nanos uint64) {
	w.S++
	w.V++
	w.T += 8
	bad := func(acc string, got, want any) {
		c.Fail(what()+" "+acc, "%s: %s = %v, want %v", what(), acc, got, want)
	}
	if z := bool(d.IsZero()); z != (secs == 0 && nanos == 0) {
		bad("IsZero", z, !z)
	}
	if x := uint64(d.AsSecs()); x != secs {
		bad("AsSecs", x, secs)
	}
	if x := uint64(d.SubsecMillis()); x != nanos/1000000 {
		bad("SubsecMillis", x, nanos/1000000)
	}
	if x := uint64(d.SubsecMicros()); x != nanos/1000 {
		bad("SubsecMicros", x, nanos/1000)
	}
	if x := uint64(d.SubsecNanos()); x != nanos {
		bad("SubsecNanos", x, nanos)
	}
	big := func(name string, got gost.U128, want u128) {
		if hi, lo := wide.UWords(got); hi != want.hi || lo != want.lo {
			bad(name, fmt.Sprintf("%d*2^64+%d", hi, lo), fmt.Sprintf("%d*2^64+%d", want.hi, want.lo))
		}
	}
	big("AsMillis", d.AsMillis(), mul(secs, 1000).add(nanos/1000000))
	big("AsMicros", d.AsMicros(), mul(secs, 1000000).add(nanos/1000))
	big("AsNanos", d.AsNanos(), mul(secs, 1000000000).add(nanos))
}

func boundary64() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	around := func(x uint64) {
		for d := uint64(0); d <= 2; d++ {
			add(x + d)
			add(x - d)
		}
	}
	around(0)
	for i := uint(1); i < 64; i++ {
		around(1 << i)
	}
	p := uint64(1)
	for i := 0; i < 19; i++ {
		for _, k := range []uint64{1, 2, 5, 9} {
			if hi, lo := bits.Mul64(p, k); hi == 0 {
				around(lo)
			}
		}
		p *= 10
	}
	for _, unit := range []uint64{1000, 1000000, 1000000000} {
		max := ^uint64(0) / unit
		around(max)
		around(max * unit)
		around((1 << 32) * unit)
		around((1<<32)*unit - unit)
		around(1999999999 * (unit / 1000))
		around(unit * 59)
		around(unit * 3600)
	}
	for _, x := range []uint64{59, 60, 61, 999999999, 123456789, 1234567890123456789, 987654321987654321, 4294967295999999999} {
		add(x)
	}
	return out
}

func nanos32() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		if x <= 0xFFFFFFFF && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range boundary64() {
		add(x)
	}
	for s := uint64(0); s <= 4; s++ {
		for _, sub := range []uint64{0, 1, 2, 999, 1000, 1001, 1999, 999999, 1000000, 1000001, 1999999, 123456789, 499999999, 500000000, 500000001, 999000000, 999999000, 999999998, 999999999} {
			add(s*1000000000 + sub)
		}
	}
	return out
}

// late is when, on a virtual clock, a sleep of d ns is noticeably too long.
func late(d int64) int64 { return d + d/1000 + 20000000 }

func main() {
	bubble.Main("C24", func(c *core.C) {
		c.Assume("sleeping is checked for durations that fit 2^63 ns; a virtual clock (testing/synctest) stands for the passage of time")
		b64, n32 := boundary64(), nanos32()
		c.Part("seconds plus nanoseconds", fmt.Sprintf("%d boundary second counts x %d boundary nanosecond counts, overflow included", len(b64), len(n32)), func() {
			c.Par(len(b64), func(w *core.W, i int) {
				for _, n := range n32 {
					s := b64[i]
					what := func() string { return fmt.Sprintf("DurationNew(%d, %d)", s, n) }
					w.Begin(what)
					var d gost.Duration
					p := core.Panics(func() { d = gost.DurationNew(gost.U64(s), gost.U32(n)) })
					sum, carry := bits.Add64(s, n/1000000000, 0)
					if p != (carry != 0) {
						c.Fail(what(), "%s panics: %v, seconds overflow: %v", what(), p, carry != 0)
						return
					}
					if !p {
						check(c, w, what, d, sum, n%1000000000)
					}
					if c.Stopped() {
						return
					}
				}
			})
		})
		one := func(w *core.W, x uint64) {
			w.Begin(func() string { return fmt.Sprint(x) })
			f := func(s string) func() string { return func() string { return fmt.Sprintf("%s(%d)", s, x) } }
			check(c, w, f("DurationFromSecs"), gost.DurationFromSecs(gost.U64(x)), x, 0)
			check(c, w, f("DurationFromMillis"), gost.DurationFromMillis(gost.U64(x)), x/1000, x%1000*1000000)
			check(c, w, f("DurationFromMicros"), gost.DurationFromMicros(gost.U64(x)), x/1000000, x%1000000*1000)
			check(c, w, f("DurationFromNanos"), gost.DurationFromNanos(gost.U64(x)), x/1000000000, x%1000000000)
		}
		c.Part("single units", fmt.Sprintf("each constructor on %d boundary amounts, and on every amount to 20000", len(b64)), func() {
			c.Par(len(b64), func(w *core.W, i int) { one(w, b64[i]) })
			c.Par(200, func(w *core.W, i int) {
				for x := i * 100; x < i*100+100; x++ {
					one(w, uint64(x))
				}
			})
		})
		step := uint64(4099)
		if c.Thorough {
			step = 7
		}
		c.Part("second fractions", fmt.Sprintf("nanosecond counts 0, %d, %d, ... below 2^32 at three second counts; every millisecond of 5 s", step, 2*step), func() {
			c.Par(1024, func(w *core.W, i int) {
				from, to := uint64(i)<<22, uint64(i+1)<<22
				for n := (from + step - 1) / step * step; n < to; n += step {
					for _, s := range []uint64{0, 7, 1 << 60} {
						what := func() string { return fmt.Sprintf("DurationNew(%d, %d)", s, n) }
						w.Begin(what)
						check(c, w, what, gost.DurationNew(gost.U64(s), gost.U32(n)), s+n/1000000000, n%1000000000)
					}
				}
			})
			c.Par(5, func(w *core.W, s int) {
				for m := uint64(0); m < 1000; m++ {
					for _, d := range []uint64{0, 1, 999, 1000, 999999} {
						n := uint64(s)*1000000000 + m*1000000 + d
						if n > 0xFFFFFFFF {
							return
						}
						what := func() string { return fmt.Sprintf("DurationNew(3, %d)", n) }
						check(c, w, what, gost.DurationNew(3, gost.U32(n)), 3+n/1000000000, n%1000000000)
					}
				}
			})
		})

		// --- sleeping, on a virtual clock ---
		type dur struct {
			d    gost.Duration
			ns   int64
			name string
		}
		var durs []dur
		for _, x := range b64 {
			if x < 1<<63-1<<62 { // the virtual clock starts in 2000
				durs = append(durs, dur{gost.DurationFromNanos(gost.U64(x)), int64(x), fmt.Sprintf("%d ns", x)})
			}
			if x < 1<<52 {
				durs = append(durs, dur{gost.DurationFromMicros(gost.U64(x)), int64(x) * 1000, fmt.Sprintf("%d us", x)})
			}
			if x < 1<<42 {
				durs = append(durs, dur{gost.DurationFromMillis(gost.U64(x)), int64(x) * 1000000, fmt.Sprintf("%d ms", x)})
			}
			if x < 1<<32 {
				durs = append(durs, dur{gost.DurationFromSecs(gost.U64(x)), int64(x) * 1000000000, fmt.Sprintf("%d s", x)})
			}
		}
		for _, s := range []uint64{0, 1, 59, 60, 61, 3599, 3600, 86400, 4000000000} {
			for _, n := range n32 {
				durs = append(durs, dur{gost.DurationNew(gost.U64(s), gost.U32(n)), int64(s*1000000000 + n), fmt.Sprintf("%d s + %d ns", s, n)})
			}
		}
		c.Part("one sleeper", fmt.Sprintf("%d boundary durations on a virtual clock", len(durs)), func() {
			c.Par(len(durs), func(w *core.W, i int) {
				x := durs[i]
				w.S++
				w.T++
				w.V++
				w.Begin(func() string { return "Sleep(" + x.name + ")" })
				var slept time.Duration
				msg := bubble.Run(func() {
					t := time.Now()
					gost.Sleep(x.d)
					slept = time.Since(t)
				})
				if msg != "" {
					c.Fail("sleep "+x.name, "Sleep(%s): %s", x.name, msg)
				} else if int64(slept) < x.ns {
					c.Fail("sleep "+x.name, "Sleep(%s) returns after %d ns", x.name, int64(slept))
				} else if int64(slept) > late(x.ns) {
					c.Fail("sleep "+x.name, "Sleep(%s) returns only after %d ns although nothing else runs", x.name, int64(slept))
				} else if x.ns > 1000 && c.WantSample() {
					c.Sample("Sleep(%s) returns after %d virtual ns", x.name, int64(slept))
				}
			})
		})
		c.Part("several sleepers", "every assignment of 6 durations (0 to 1 s) to two sleeps each of three concurrent threads", func() {
			ds := []int64{0, 1, 999999, 1000000, 1000001, 1000000000}
			total := 6 * 6 * 6 * 6 * 6 * 6
			c.Par(total, func(w *core.W, x int) {
				w.S++
				w.T += 6
				w.V++
				w.Begin(func() string { return fmt.Sprintf("sleepers %d", x) })
				var fail string
				var sl [6]int64
				for i, y := 0, x; i < 6; i++ {
					sl[i] = ds[y%6]
					y /= 6
				}
				msg := bubble.Run(func() {
					res := make(chan string, 3)
					for k := 0; k < 3; k++ {
						go func() {
							out := ""
							for _, d := range sl[2*k : 2*k+2] {
								t := time.Now()
								gost.Sleep(gost.DurationFromNanos(gost.U64(d)))
								s := int64(time.Since(t))
								if s < d {
									out = fmt.Sprintf("Sleep of %d ns returns after %d ns", d, s)
								}
								if s > late(d) {
									out = fmt.Sprintf("Sleep of %d ns returns only after %d ns although the others only sleep", d, s)
								}
							}
							res <- out
						}()
					}
					for k := 0; k < 3; k++ {
						if s := <-res; s != "" {
							fail = s
						}
					}
				})
				if msg != "" {
					fail = msg
				}
				if fail != "" {
					c.Fail("sleepers "+fail, "three threads sleeping %v ns: %s", sl, fail)
				}
			})
		})
		c.Part("real clock", "ten short sleeps on the machine's clock", func() {
			c.Par(10, func(w *core.W, i int) {
				w.S++
				w.T++
				w.V++
				d := time.Duration(i) * 7 * time.Millisecond
				t := time.Now()
				gost.Sleep(gost.DurationFromMicros(gost.U64(d / time.Microsecond)))
				if s := time.Since(t); s < d {
					c.Fail(fmt.Sprintf("real %v", d), "Sleep(%v) returns after %v", d, s)
				}
			})
		})
	})
}
