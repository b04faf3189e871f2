package explore

// WeakOrders calls f with every sequence of length n over 0..n-1 whose values
// are exactly 0..k-1 for some k: one representative per order type, so every
// pattern of equal, smaller and larger elements is covered.
func WeakOrders(n int, f func(seq []int) bool) {
	seq := make([]int, n)
	var used uint64
	var cnt [64]int
	var rec func(i, max int) bool
	rec = func(i, max int) bool {
		if i == n {
			if used == (uint64(1)<<max)-1 {
				return f(seq)
			}
			return true
		}
		for v := 0; v < n; v++ {
			m := max
			if v+1 > m {
				m = v + 1
			}
			// the values below m still missing must fit in the remaining places
			missing := 0
			for x := 0; x < m; x++ {
				if cnt[x] == 0 && x != v {
					missing++
				}
			}
			if missing > n-i-1 {
				continue
			}
			seq[i] = v
			cnt[v]++
			used |= 1 << v
			ok := rec(i+1, m)
			cnt[v]--
			if cnt[v] == 0 {
				used &^= 1 << v
			}
			if !ok {
				return false
			}
		}
		return true
	}
	rec(0, 0)
}

// AllWeakOrders returns copies of all sequences of WeakOrders(n).
func AllWeakOrders(n int) [][]int8 {
	var out [][]int8
	WeakOrders(n, func(s []int) bool {
		c := make([]int8, n)
		for i, v := range s {
			c[i] = int8(v)
		}
		out = append(out, c)
		return true
	})
	return out
}

// Patterns returns named deterministic integer sequences of length n, with the
// orders on which comparison-based structures take their different paths.
func Patterns(n int) map[string][]int {
	p := map[string][]int{}
	mk := func(name string, f func(i int) int) {
		s := make([]int, n)
		for i := range s {
			s[i] = f(i)
		}
		p[name] = s
	}
	mk("ascending", func(i int) int { return i })
	mk("descending", func(i int) int { return n - i })
	mk("equal", func(i int) int { return 1 })
	mk("two values", func(i int) int { return i % 2 })
	mk("sawtooth", func(i int) int { return i % 7 })
	mk("organ pipe", func(i int) int {
		if i < n/2 {
			return i
		}
		return n - i
	})
	mk("zigzag", func(i int) int {
		if i%2 == 0 {
			return i
		}
		return n - i
	})
	mk("outside in", func(i int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	})
	mk("scramble", func(i int) int { return (i*7919 + 13) % (n + 1) })
	mk("blocks", func(i int) int { return (i / 3) * (1 - 2*(i%2)) })
	mk("last smallest", func(i int) int {
		if i == n-1 {
			return -1
		}
		return i
	})
	mk("first largest", func(i int) int {
		if i == 0 {
			return n + 1
		}
		return i
	})
	return p
}
