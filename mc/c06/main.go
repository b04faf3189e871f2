// C06: numbers print canonically and parse exactly.
package main

import (
	"fmt"
	"math"
	"math/big"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"

	"verifmc/core"
	. "verifmc/intmc"
	"verifmc/wide"
)

// decimal writes the canonical decimal of v into buf from the end.
func decimal(buf *[48]byte, v Val) []byte {
	i := len(buf)
	x := v.Lo
	for {
		i--
		buf[i] = '0' + byte(x%10)
		x /= 10
		if x == 0 {
			break
		}
	}
	if v.Neg {
		i--
		buf[i] = '-'
	}
	return buf[i:]
}

func printed[T Int[T]](a T, buf *[48]byte) string {
	want := decimal(buf, Of(a))
	if g := a.ToString(); string(g) != string(want) {
		return fmt.Sprintf("ToString gives %q", string(g))
	}
	if g := a.Display(); string(g) != string(want) {
		return fmt.Sprintf("Display gives %q", string(g))
	}
	return ""
}

func ints[T Int[T]](c *core.C, typ string) {
	Values(c, typ, func(a T) (int, string) {
		var buf [48]byte
		if m := printed(a, &buf); m != "" {
			return 2, m
		}
		if typ == "I64" || typ == "ISize" {
			r := a.ToString().ParseI64()
			if !r.IsOk() || Of(r.Unwrap()) != Of(a) {
				return 3, "ParseI64 of its text does not give it back"
			}
		}
		if typ == "U64" || typ == "USize" {
			r := a.ToString().ParseU64()
			if !r.IsOk() || Of(r.Unwrap()) != Of(a) {
				return 3, "ParseU64 of its text does not give it back"
			}
		}
		return 3, ""
	})
}

// grid32 prints every high half with chosen low halves (all when thorough).
func grid32[T Int[T]](c *core.C, typ string) {
	var lows []uint64
	if c.Thorough {
		for i := uint64(0); i < 65536; i++ {
			lows = append(lows, i)
		}
	} else {
		for _, x := range Alphabet[uint16](false) {
			lows = append(lows, uint64(x))
		}
	}
	c.Part(typ+" grid", fmt.Sprintf("65536 high halves x %d low halves", len(lows)), func() {
		c.Par(65536, func(w *core.W, hi int) {
			w.Begin(func() string { return fmt.Sprintf("%s values with high half %#x", typ, hi) })
			var buf [48]byte
			for _, lo := range lows {
				a := T(uint64(hi)<<16 | lo)
				w.S++
				w.T += 2
				w.V++
				if m := printed(a, &buf); m != "" {
					c.Fail(typ+"/print", "%s: value %v: %s", typ, Of(a), m)
					return
				}
			}
		})
	})
}

// ---- integer texts ----

// refInt reads the text as an optionally signed decimal integer.
func refInt(s string, minus bool) (v *big.Int, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-' && minus) {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	s = strings.TrimLeft(s, "0")
	if len(s) < 19 { // exact in 64 bits
		n := int64(0)
		for i := 0; i < len(s); i++ {
			n = n*10 + int64(s[i]-'0')
		}
		if neg {
			n = -n
		}
		return big.NewInt(n), true
	}
	v, _ = new(big.Int).SetString(s, 10)
	if neg {
		v.Neg(v)
	}
	return v, true
}

func checkInt(s string) string {
	v, ok := refInt(s, true)
	ok = ok && v.IsInt64()
	r := gost.String(s).ParseI64()
	if bool(r.IsOk()) != ok || bool(r.IsErr()) == ok {
		return fmt.Sprintf("ParseI64(%q): IsOk is %v", s, r.IsOk())
	}
	if ok && int64(r.Unwrap()) != v.Int64() {
		return fmt.Sprintf("ParseI64(%q) gives %d", s, r.Unwrap())
	}
	v, ok = refInt(s, false)
	ok = ok && v.IsUint64()
	u := gost.String(s).ParseU64()
	if bool(u.IsOk()) != ok || bool(u.IsErr()) == ok {
		return fmt.Sprintf("ParseU64(%q): IsOk is %v", s, u.IsOk())
	}
	if ok && uint64(u.Unwrap()) != v.Uint64() {
		return fmt.Sprintf("ParseU64(%q) gives %d", s, u.Unwrap())
	}
	return ""
}

// texts runs f on every text of up to n letters of the alphabet.
func texts(c *core.C, name, alphabet string, n int, f func(s string) string) {
	k := len(alphabet)
	total := 0
	for i, p := 0, 1; i <= n; i++ {
		total += p
		p *= k
	}
	c.Part(name, fmt.Sprintf("all %d texts of at most %d characters of %q", total, n, alphabet), func() {
		c.Par(k*k, func(w *core.W, first int) {
			buf := make([]byte, 0, n)
			cur := ""
			defer func() {
				if r := recover(); r != nil {
					c.Fail(name+"/panic", "text %q: unexpected panic: %v\n%s", cur, r, debug.Stack())
				}
			}()
			w.Begin(func() string {
				return fmt.Sprintf("texts starting %q", string(alphabet[first/k])+string(alphabet[first%k]))
			})
			one := func() bool {
				cur = string(buf)
				w.S++
				w.T++
				w.V++
				if m := f(cur); m != "" {
					c.Fail(name+"/"+cur, "%s", m)
					return false
				}
				return true
			}
			var rec func() bool
			rec = func() bool {
				if !one() {
					return false
				}
				if len(buf) == n {
					return true
				}
				for i := 0; i < k; i++ {
					buf = append(buf, alphabet[i])
					if !rec() {
						return false
					}
					buf = buf[:len(buf)-1]
				}
				return true
			}
			if first == 0 {
				buf = buf[:0]
				one()
			}
			if first%k == 0 {
				buf = append(buf[:0], alphabet[first/k])
				one()
			}
			buf = append(buf[:0], alphabet[first/k], alphabet[first%k])
			rec()
			if c.WantSample() {
				c.Sample("last text %q agrees with the reference reading", cur)
			}
		})
	})
}

func listOf(c *core.C, name string, all []string, f func(s string) string) {
	c.Part(name, fmt.Sprintf("%d texts", len(all)), func() {
		const chunk = 64
		c.Par((len(all)+chunk-1)/chunk, func(w *core.W, k int) {
			cur := ""
			defer func() {
				if r := recover(); r != nil {
					c.Fail(name+"/panic", "text %q: unexpected panic: %v\n%s", cur, r, debug.Stack())
				}
			}()
			for i := k * chunk; i < len(all) && i < (k+1)*chunk; i++ {
				cur = all[i]
				w.Begin(func() string { return fmt.Sprintf("text %q", cur) })
				w.S++
				w.T++
				w.V++
				if m := f(cur); m != "" {
					c.Fail(name+"/"+cur, "%s", m)
					return
				}
			}
			if c.WantSample() {
				c.Sample("text %q agrees with the reference reading", cur)
			}
		})
	})
}

func limitTexts() []string {
	var out []string
	var nums []*big.Int
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-3); d <= 3; d++ {
			nums = append(nums, new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	p := big.NewInt(1)
	for i := 0; i < 25; i++ {
		for d := int64(-1); d <= 1; d++ {
			nums = append(nums, new(big.Int).Add(p, big.NewInt(d)))
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	for _, v := range nums {
		s := v.String()
		var vars []string
		vars = append(vars, s)
		for i := range s { // every change of one digit
			for d := byte('0'); d <= '9'; d++ {
				b := []byte(s)
				b[i] = d
				vars = append(vars, string(b))
			}
			vars = append(vars, s[:i]+s[i+1:]) // one digit less
			vars = append(vars, s[:i]+"_"+s[i:], s[:i]+" "+s[i:], s[:i]+"-"+s[i:], s[:i]+"x"+s[i:])
		}
		for i := 0; i <= len(s); i++ { // one digit more
			vars = append(vars, s[:i]+"0"+s[i:], s[:i]+"9"+s[i:])
		}
		for _, t := range vars {
			for _, sg := range []string{"", "+", "-", "--", "+-", "-+", "++", " ", "−"} {
				for _, z := range []string{"", "0", "00000", strings.Repeat("0", 60)} {
					out = append(out, sg+z+t)
				}
			}
		}
	}
	for b := 0; b < 256; b++ { // every byte anywhere in a short number
		for _, t := range []string{"", "1", "12", "-12", "+0"} {
			for i := 0; i <= len(t); i++ {
				out = append(out, t[:i]+string([]byte{byte(b)})+t[i:])
			}
		}
	}
	out = append(out, "0x10", "0X1F", "0b1", "0o7", "010", "1e3", "1E3", "1.0", "1.", ".1", "١٢", "12", "1\n", "\n1", "NaN", "inf", "true", "0x", "- 1", "1,000", "1'000", "½")
	return out
}

// ---- floating-point texts ----

// refFloat reads decimal and exponent notation.
func refFloat(s string) (neg bool, digits string, exp int, ok bool) {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	i := 0
	point, n := -1, 0
	for ; i < len(s); i++ {
		if s[i] == '.' {
			if point >= 0 {
				return
			}
			point = n
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			break
		}
		digits += string(s[i])
		n++
	}
	if n == 0 {
		return
	}
	if point >= 0 {
		exp = point - n
	}
	if i < len(s) {
		if s[i] != 'e' && s[i] != 'E' {
			return
		}
		i++
		esign := 1
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			if s[i] == '-' {
				esign = -1
			}
			i++
		}
		if i == len(s) {
			return
		}
		e := 0
		for ; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return
			}
			if e < 1000000 {
				e = e*10 + int(s[i]-'0')
			}
		}
		exp += esign * e
	}
	return neg, digits, exp, true
}

var pow10 [900]*big.Int

func init() {
	pow10[0] = big.NewInt(1)
	for i := 1; i < len(pow10); i++ {
		pow10[i] = new(big.Int).Mul(pow10[i-1], big.NewInt(10))
	}
}

func ratOf(digits string, exp int) *big.Rat {
	m, _ := new(big.Int).SetString(digits, 10)
	r := new(big.Rat)
	if exp >= 0 {
		return r.SetInt(m.Mul(m, pow(exp)))
	}
	return r.SetFrac(m, pow(-exp))
}

func pow(n int) *big.Int {
	if n < len(pow10) {
		return pow10[n]
	}
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

var maxHalf = func() *big.Rat { // 2^1024 - 2^970: the least magnitude out of range
	x := new(big.Int).Lsh(big.NewInt(1), 1024)
	return new(big.Rat).SetInt(x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 970)))
}()

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// nearest tells whether f is the double nearest to r (ties to even).
func nearest(f float64, r *big.Rat) bool {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	f = math.Abs(f)
	even := math.Float64bits(f)%2 == 0
	mid := func(a, b *big.Rat) *big.Rat {
		m := new(big.Rat).Add(a, b)
		return m.Quo(m, big.NewRat(2, 1))
	}
	up := maxHalf
	if f != math.MaxFloat64 {
		up = mid(rat(f), rat(math.Nextafter(f, math.Inf(1))))
	}
	if d := r.Cmp(up); d > 0 || d == 0 && !even {
		return false
	}
	if f == 0 {
		return true
	}
	down := mid(rat(f), rat(math.Nextafter(f, 0)))
	d := r.Cmp(down)
	return d > 0 || d == 0 && even
}

func checkFloat(s string) string {
	neg, digits, exp, ok := refFloat(s)
	r := gost.String(s).ParseF64()
	if bool(r.IsOk()) == bool(r.IsErr()) {
		return fmt.Sprintf("ParseF64(%q): IsOk and IsErr agree", s)
	}
	if !ok {
		if r.IsOk() {
			return fmt.Sprintf("ParseF64(%q) gives %v for a text that is not a number", s, r.Unwrap())
		}
		return ""
	}
	lead := strings.TrimLeft(digits, "0")
	if lead == "" {
		if !r.IsOk() || float64(r.Unwrap()) != 0 {
			return fmt.Sprintf("ParseF64(%q) does not give zero", s)
		}
		return ""
	}
	mag := len(lead) + exp // value is 0.ddd * 10^mag
	if mag > 320 {
		return "" // out of range
	}
	if mag < -340 {
		if !r.IsOk() || float64(r.Unwrap()) != 0 {
			return fmt.Sprintf("ParseF64(%q) does not give zero", s)
		}
		return ""
	}
	// exact small integers: no rational arithmetic needed
	if exp == 0 && len(lead) <= 15 {
		n := 0.0
		for i := 0; i < len(lead); i++ {
			n = n*10 + float64(lead[i]-'0')
		}
		if neg {
			n = -n
		}
		if !r.IsOk() || float64(r.Unwrap()) != n {
			return fmt.Sprintf("ParseF64(%q) does not give %v", s, n)
		}
		return ""
	}
	q := ratOf(lead, exp)
	if q.Cmp(maxHalf) >= 0 {
		return "" // out of range
	}
	if !r.IsOk() {
		return fmt.Sprintf("ParseF64(%q) gives Err", s)
	}
	f := float64(r.Unwrap())
	if !nearest(f, q) || f != 0 && (f < 0) != neg {
		return fmt.Sprintf("ParseF64(%q) gives %v, which is not the nearest double", s, f)
	}
	return ""
}

// exactDecimal writes a rational with a power-of-two denominator in full.
func exactDecimal(r *big.Rat) string {
	den := r.Denom().BitLen() - 1
	return r.FloatString(den)
}

func floatTexts(thorough bool) []string {
	var out []string
	var fs []float64
	step := 97
	if thorough {
		step = 13
	}
	for e := uint64(0); e < 2047; e++ {
		if e > 3 && e < 2043 && int(e)%step != 0 && (e < 1020 || e > 1080) {
			continue
		}
		for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51, 0x5555555555555} {
			fs = append(fs, math.Float64frombits(e<<52|m))
		}
	}
	for _, f := range fs {
		var mid *big.Rat
		if f == math.MaxFloat64 {
			mid = maxHalf
		} else {
			mid = new(big.Rat).Add(rat(f), rat(math.Nextafter(f, math.Inf(1))))
			mid.Quo(mid, big.NewRat(2, 1))
		}
		m := exactDecimal(mid)
		x := exactDecimal(rat(f))
		out = append(out, m, x, "-"+m)
		if !strings.Contains(m, ".") {
			m += "."
		}
		out = append(out, m+"1", m+"0000000000000000000001", "+"+m+strings.Repeat("0", 40)+"1")
		// one unit below the midpoint in its last place
		b := []byte(strings.TrimRight(m, "."))
		for i := len(b) - 1; i >= 0; i-- {
			if b[i] == '.' {
				continue
			}
			if b[i] > '0' {
				b[i]--
				break
			}
			b[i] = '9'
		}
		out = append(out, string(b), string(b)+"e0", string(b)+"E+1", string(b)+"e-1")
		// every number of digits of the shortest forms
		for p := 0; p < 20; p++ {
			t := strconv.FormatFloat(f, 'e', p, 64)
			out = append(out, t, strings.ToUpper(t))
		}
	}
	for _, s := range []string{"1", "1.5", "-.5", "3e5", "00012.500"} {
		for i := 0; i <= len(s); i++ {
			for _, t := range []string{" ", "+", "-", "e", ".", "0", "9", ",", "\x00", "\n", "a", "d", "é", "__"} {
				out = append(out, s[:i]+t+s[i:])
			}
		}
	}
	for e := -400; e <= 400; e++ {
		out = append(out, fmt.Sprintf("1e%d", e), fmt.Sprintf("9.999999999999999999e%d", e), fmt.Sprintf("0.000123e%d", e), fmt.Sprintf("17976931348623157e%d", e), fmt.Sprintf("5e%d", e), fmt.Sprintf("2.4703282292062327e%d", e), fmt.Sprintf("0e%d", e))
	}
	return out
}

// ---- printing of floats ----

// positional splits a canonical positional decimal into sign, digits and
// the exponent of the last digit.
func positional(s string) (neg bool, digits string, exp int, ok bool) {
	t := s
	if strings.HasPrefix(t, "-") {
		neg = true
		t = t[1:]
	}
	whole, frac, has := strings.Cut(t, ".")
	if whole == "" || has && (frac == "" || strings.HasSuffix(frac, "0")) || len(whole) > 1 && whole[0] == '0' {
		return
	}
	for _, ch := range whole + frac {
		if ch < '0' || ch > '9' {
			return
		}
	}
	digits = strings.TrimLeft(whole+frac, "0")
	exp = -len(frac)
	for len(digits) > 0 && digits[len(digits)-1] == '0' {
		digits = digits[:len(digits)-1]
		exp++
	}
	return neg, digits, exp, true
}

// shortest decides by exact arithmetic whether fewer than n digits could
// name x > 0 (of the given width).
func shortest(x float64, bits int) int {
	var lo, hi *big.Rat
	var even bool
	r := rat(x)
	half := func(a, b *big.Rat) *big.Rat {
		m := new(big.Rat).Add(a, b)
		return m.Quo(m, big.NewRat(2, 1))
	}
	if bits == 32 {
		f := float32(x)
		even = math.Float32bits(f)%2 == 0
		lo = half(r, rat(float64(math.Nextafter32(f, 0))))
		n := math.Nextafter32(f, float32(math.Inf(1)))
		if math.IsInf(float64(n), 0) {
			hi = new(big.Rat).Add(r, new(big.Rat).Sub(r, lo))
		} else {
			hi = half(r, rat(float64(n)))
		}
	} else {
		even = math.Float64bits(x)%2 == 0
		lo = half(r, rat(math.Nextafter(x, 0)))
		if x == math.MaxFloat64 {
			hi = maxHalf
		} else {
			hi = half(r, rat(math.Nextafter(x, math.Inf(1))))
		}
	}
	in := func(q *big.Rat) bool {
		a, b := q.Cmp(lo), q.Cmp(hi)
		return a > 0 && b < 0 || even && (a == 0 || b == 0)
	}
	// decimal exponent of x
	e := int(math.Floor(math.Log10(x))) + 1
	for {
		if ratPow(e).Cmp(r) <= 0 {
			e++
		} else if ratPow(e-1).Cmp(r) > 0 {
			e--
		} else {
			break
		}
	}
	for n := 1; n < 20; n++ {
		unit := ratPow(e - n)
		q := new(big.Rat).Quo(r, unit)
		fl := new(big.Int).Quo(q.Num(), q.Denom())
		a := new(big.Rat).Mul(new(big.Rat).SetInt(fl), unit)
		b := new(big.Rat).Add(a, unit)
		if fl.Sign() > 0 && in(a) || in(b) {
			return n
		}
	}
	return 20
}

func ratPow(e int) *big.Rat {
	if e >= 0 {
		return new(big.Rat).SetInt(pow(e))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), pow(-e))
}

// floatText judges the printed form of x.
func floatText(s string, x float64, bits int) string {
	if s == strconv.FormatFloat(x, 'f', -1, bits) {
		return ""
	}
	neg, digits, exp, ok := positional(s)
	if !ok {
		return fmt.Sprintf("prints %q, which is not a canonical decimal", s)
	}
	back, err := strconv.ParseFloat(s, bits)
	if err != nil || back != x {
		return fmt.Sprintf("prints %q, which does not read back", s)
	}
	if x == 0 {
		if digits != "" || exp != 0 {
			return fmt.Sprintf("prints %q", s)
		}
		return ""
	}
	if neg != (x < 0) {
		return fmt.Sprintf("prints %q", s)
	}
	if n := shortest(math.Abs(x), bits); len(digits) != n {
		return fmt.Sprintf("prints %q with %d digits although %d suffice", s, len(digits), n)
	}
	return ""
}

func float32s(c *core.C) {
	low := 9 // bits of the mantissa which are not enumerated freely
	if c.Thorough {
		low = 0
	}
	pats := []uint32{0}
	if low > 0 {
		m := uint32(1)<<low - 1
		pats = []uint32{0, 1, m, m >> 1, 0x155 & m}
	}
	n := 1 << (32 - low)
	const chunk = 1 << 10
	c.Part("F32 printing", fmt.Sprintf("%d bit patterns", n*len(pats)), func() {
		c.Par(n/chunk, func(w *core.W, k int) {
			w.Begin(func() string { return fmt.Sprintf("F32 bit patterns from %#x", uint32(k*chunk)<<low) })
			for i := k * chunk; i < (k+1)*chunk; i++ {
				for _, p := range pats {
					f := math.Float32frombits(uint32(i)<<low | p)
					if f != f || math.IsInf(float64(f), 0) {
						continue
					}
					w.S++
					w.T++
					w.V++
					s := string(gost.F32(f).ToString())
					if m := floatText(s, float64(f), 32); m != "" {
						c.Fail("F32.ToString", "F32 %b: ToString %s", f, m)
						return
					}
				}
				if i%64 == 0 {
					f := gost.F32(math.Float32frombits(uint32(i) << low))
					if f == f && !math.IsInf(float64(f), 0) {
						if m := floatText(string(f.Display()), float64(f), 32); m != "" {
							c.Fail("F32.Display", "F32 %b: Display %s", f, m)
							return
						}
					}
				}
			}
			w.Flush()
		})
	})
}

func float64s(c *core.C) {
	es := 2047
	var ms []uint64
	for k := 0; k < 52; k++ {
		ms = append(ms, 1<<k, 1<<52-1-1<<k, 1<<52-1<<k, 1<<k-1)
	}
	for _, p := range []uint64{0x5555555555555, 0xaaaaaaaaaaaaa, 0x3333333333333, 0x999999999999a, 0x123456789abcd, 0xfedcba9876543} {
		for k := 0; k < 52; k += 4 {
			ms = append(ms, p>>k, p<<k&(1<<52-1))
		}
	}
	if c.Thorough {
		for j := 0; j < 52; j++ {
			for k := 0; k < j; k++ {
				ms = append(ms, 1<<j|1<<k)
			}
		}
	}
	c.Part("F64 printing and reading back", fmt.Sprintf("every sign and exponent x %d mantissas", len(ms)), func() {
		c.Par(es, func(w *core.W, e int) {
			w.Begin(func() string { return fmt.Sprintf("F64 exponent %d", e) })
			for i, m := range ms {
				for sg := uint64(0); sg < 2; sg++ {
					f := math.Float64frombits(sg<<63 | uint64(e)<<52 | m)
					one64(c, w, f, i%8 == 0)
					if c.Stopped() {
						return
					}
				}
			}
		})
	})
	c.Part("F64 decimal fractions and integers", "m * 10^e for 20000 m, -30 <= e <= 30", func() {
		c.Par(61, func(w *core.W, k int) {
			e := k - 30
			w.Begin(func() string { return fmt.Sprintf("m * 10^%d", e) })
			for m := 0; m < 20000; m++ {
				f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, e), 64)
				one64(c, w, f, m < 100)
				if c.Stopped() {
					return
				}
			}
		})
	})
	c.Part("the shortest-form reference", "exact decision of the shortest length at every exponent", func() {
		c.Par(2047, func(w *core.W, e int) {
			w.Begin(func() string { return fmt.Sprintf("exponent %d", e) })
			for _, m := range []uint64{0, 1, 1<<52 - 1, 0x5555555555555, 1 << 51} {
				x := math.Float64frombits(uint64(e)<<52 | m)
				if x == 0 {
					continue
				}
				w.S++
				_, d, _, ok := positional(string(gost.F64(x).ToString()))
				if !ok || len(d) != shortest(x, 64) {
					c.Fail("F64 shortest", "F64 %b: prints %s with %d digits although %d suffice", x, gost.F64(x).ToString(), len(d), shortest(x, 64))
				}
				w.V++
			}
			if e < 255 {
				for _, m := range []uint32{0, 1, 1<<23 - 1, 0x2aaaaa, 1 << 22} {
					x := math.Float32frombits(uint32(e)<<23 | m)
					if x == 0 {
						continue
					}
					w.S++
					_, d, _, ok := positional(string(gost.F32(x).ToString()))
					if !ok || len(d) != shortest(float64(x), 32) {
						c.Fail("F32 shortest", "F32 %b: prints %s with %d digits although %d suffice", x, gost.F32(x).ToString(), len(d), shortest(float64(x), 32))
					}
					w.V++
				}
			}
		})
	})
}

func one64(c *core.C, w *core.W, f float64, display bool) {
	w.S++
	w.T += 2
	w.V++
	t := gost.F64(f).ToString()
	if m := floatText(string(t), f, 64); m != "" {
		c.Fail("F64.ToString", "F64 %b: ToString %s", f, m)
		return
	}
	r := t.ParseF64()
	if !r.IsOk() || math.Float64bits(float64(r.Unwrap())) != math.Float64bits(f) && f != 0 {
		c.Fail("F64 round trip", "F64 %b prints %q, which ParseF64 does not read back", f, string(t))
		return
	}
	if display {
		if m := floatText(string(gost.F64(f).Display()), f, 64); m != "" {
			c.Fail("F64.Display", "F64 %b: Display %s", f, m)
		}
	}
}

func wides(c *core.C) {
	al := Alphabet[uint64](false)
	var ws []uint64
	for i, x := range al {
		if c.Thorough || i%6 == 0 || x < 12 || x > ^uint64(0)-12 {
			ws = append(ws, x)
		}
	}
	c.Part("I128 and U128 printing", fmt.Sprintf("%d high x %d low words", len(ws), len(ws)), func() {
		mod := new(big.Int).Lsh(big.NewInt(1), 128)
		c.Par(len(ws), func(w *core.W, i int) {
			hi := ws[i]
			w.Begin(func() string { return fmt.Sprintf("128-bit values with high word %#x", hi) })
			for _, lo := range ws {
				b := new(big.Int).SetUint64(hi)
				b.Lsh(b, 64).Or(b, new(big.Int).SetUint64(lo))
				w.S += 2
				w.T += 3
				w.V += 2
				u := wide.U(hi, lo)
				if t := b.String(); string(u.ToString()) != t || string(u.Display()) != t {
					c.Fail("U128 printing", "U128 %s: ToString gives %s, Display %s", t, u.ToString(), u.Display())
					return
				}
				if int64(hi) < 0 {
					b.Sub(b, mod)
				}
				x := wide.I(hi, lo)
				if t := b.String(); string(x.ToString()) != t || string(x.Display()) != t {
					c.Fail("I128 printing", "I128 %s: ToString gives %s, Display %s", t, x.ToString(), x.Display())
					return
				}
			}
		})
	})
}

func main() {
	core.Main("C06", func(c *core.C) {
		c.Assume("texts outside decimal and exponent notation (hexadecimal floats, inf, nan) and out-of-range magnitudes of ParseF64 are outside the property",
			"the reader used to confirm printed floats is the standard library's; its shortest length is itself decided by exact arithmetic at every exponent")
		ints[gost.ISize](c, "ISize")
		ints[gost.I8](c, "I8")
		ints[gost.I16](c, "I16")
		ints[gost.I32](c, "I32")
		ints[gost.I64](c, "I64")
		ints[gost.USize](c, "USize")
		ints[gost.U8](c, "U8")
		ints[gost.U16](c, "U16")
		ints[gost.U32](c, "U32")
		ints[gost.U64](c, "U64")
		n, m := 7, 7
		if c.Thorough {
			n, m = 8, 8
		}
		texts(c, "integer texts", "019+- a_.", n, checkInt)
		listOf(c, "integer texts at the limits", limitTexts(), checkInt)
		texts(c, "float texts", "0159.eE+- a", m, checkFloat)
		listOf(c, "float texts at the midpoints", floatTexts(c.Thorough), checkFloat)
		wides(c)
		float64s(c)
		grid32[gost.I32](c, "I32")
		grid32[gost.U32](c, "U32")
		float32s(c)
	})
}
