package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/types"
	"verif/mc/engine"
)

// decimalText is v / 10^digits without trailing zeros
func decimalText(v *big.Int, digits int) string {
	s := new(big.Int).Abs(v).String()
	for len(s) <= digits {
		s = "0" + s
	}
	w, f := s[:len(s)-digits], strings.TrimRight(s[len(s)-digits:], "0")
	if f != "" {
		w += "." + f
	}
	if v.Sign() < 0 {
		w = "-" + w
	}
	return w
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// readDecimal reads digits with at most max of them behind a point, in units of
// 10^-max; ok tells whether the text is of that form
func readDecimal(s string, max int, needWhole bool) (v *big.Int, ok bool) {
	w, f := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		w, f = s[:i], s[i+1:]
		if f == "" {
			return nil, false
		}
	}
	if !isDigits(w) || !isDigits(f) || len(f) > max || needWhole && w == "" {
		return nil, false
	}
	for len(f) < max {
		f += "0"
	}
	v, ok = new(big.Int).SetString("0"+w+f, 10)
	return v, ok
}

const asciiSpace = "\t\n\f\r "

// words over an alphabet: the nth of those of the given length
func word(alphabet []string, length, n int) string {
	var sb strings.Builder
	for i := 0; i < length; i++ {
		sb.WriteString(alphabet[n%len(alphabet)])
		n /= len(alphabet)
	}
	return sb.String()
}

func power(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

// allWords calls f with every word over the alphabet up to a length; the first
// letters are a choice
func allWords(c *engine.Ctx, alphabet []string, max int, f func(string)) {
	a, b := c.Pick(len(alphabet)+1), 0
	if a == 0 {
		f("")
		return
	}
	b = c.Pick(len(alphabet) + 1)
	if b == 0 {
		f(alphabet[a-1])
		return
	}
	pre := alphabet[a-1] + alphabet[b-1]
	for l := 0; l <= max-2; l++ {
		for n := power(len(alphabet), l) - 1; n >= 0; n-- {
			f(pre + word(alphabet, l, n))
		}
	}
}

func checkParseNdau(c *engine.Ctx, s string) {
	sig := fmt.Sprintf("ParseNdau(%q)", s)
	var g types.Ndau
	var err error
	c.NoPanic(sig, func() { g, err = types.ParseNdau(s) })
	t := strings.Trim(s, asciiSpace)
	if t == "" {
		return
	}
	neg := t[0] == '-'
	w, ok := readDecimal(strings.TrimPrefix(t, "-"), 8, false)
	if neg && ok {
		w.Neg(w)
		if err != nil {
			return // amounts are not negative; they need not be read
		}
	}
	switch {
	case !ok || !fitsI(w):
		c.Check(err != nil && g == 0, sig, "got %d napu, want an error", int64(g))
	default:
		c.Check(err == nil && int64(g) == w.Int64(), sig, "got %d napu, %v, want %v", int64(g), err, w)
	}
}

func checkNdauText(c *engine.Ctx, v int64) {
	sig := fmt.Sprintf("Ndau(%d)", v)
	c.NoPanic(sig, func() {
		n := types.Ndau(v)
		s := n.String()
		w := decimalText(bi(v), 8)
		c.Check(s == w, sig, "String gives %q, want %q", s, w)
		if v >= 0 {
			p, err := types.ParseNdau(s)
			c.Check(err == nil && p == n, sig, "its text %q reads as %d, %v", s, int64(p), err)
		}
	})
}

// the units of durations, in microseconds
var units = []struct {
	sym  string
	time bool
	us   int64
	max  int // digits
}{
	{"y", false, 31536000000000, 0}, {"m", false, 2592000000000, 2}, {"d", false, 86400000000, 2},
	{"h", true, 3600000000, 2}, {"m", true, 60000000, 2}, {"s", true, 1000000, 2}, {"us", true, 1, 6},
}

// readDuration is a reader of the documented form; micros may be written u or us
func readDuration(s string) (*big.Int, bool) {
	s = strings.ToLower(s)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "p")
	sum := new(big.Int)
	inTime := false
	next := 0
	for s != "" {
		if s[0] == 't' {
			if inTime {
				return nil, false
			}
			inTime, next, s = true, 3, s[1:]
			continue
		}
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == 0 || i == len(s) {
			return nil, false
		}
		n, _ := new(big.Int).SetString(s[:i], 10)
		sym := s[i : i+1]
		s = s[i+1:]
		if sym == "u" {
			sym = "us"
			s = strings.TrimPrefix(s, "s")
		}
		for next < len(units) && !(units[next].sym == sym && units[next].time == inTime) {
			next++
		}
		if next == len(units) || units[next].max > 0 && i > units[next].max {
			return nil, false
		}
		sum.Add(sum, n.Mul(n, bi(units[next].us)))
		next++
	}
	if neg {
		sum.Neg(sum)
	}
	return sum, true
}

// parseDuration reads a text as a text, and as the value of something which carries it
func parseDuration(c *engine.Ctx, s string) (types.Duration, error) {
	d, err := types.ParseDuration(s)
	e := types.Duration(77)
	uerr := e.UnmarshalText([]byte(s))
	c.Check((uerr == nil) == (err == nil) && (err != nil || e == d), "UnmarshalText", "UnmarshalText of %q gives %d, %v, ParseDuration %d, %v", s, int64(e), uerr, int64(d), err)
	return d, err
}

// parseTimestamp is the like for timestamps
func parseTimestamp(c *engine.Ctx, s string) (types.Timestamp, error) {
	d, err := types.ParseTimestamp(s)
	e := types.Timestamp(77)
	uerr := e.UnmarshalText([]byte(s))
	c.Check((uerr == nil) == (err == nil) && (err != nil || e == d), "UnmarshalText", "UnmarshalText of %q gives %d, %v, ParseTimestamp %d, %v", s, int64(e), uerr, int64(d), err)
	return d, err
}

func checkParseDuration(c *engine.Ctx, s string) {
	sig := fmt.Sprintf("ParseDuration(%q)", s)
	var g types.Duration
	var err error
	c.NoPanic(sig, func() { g, err = parseDuration(c, s) })
	w, ok := readDuration(s)
	if ok && !strings.ContainsAny(s, "0123456789") {
		// nothing at all: zero, or an error
		c.Check(g == 0, sig, "got %d, want 0", int64(g))
		return
	}
	if !ok || !fitsI(w) {
		c.Check(err != nil && g == 0, sig, "got %d, want an error", int64(g))
		return
	}
	c.Check(err == nil && int64(g) == w.Int64(), sig, "got %d, %v, want %v", int64(g), err, w)
}

func refDurationText(v *big.Int) string {
	if v.Sign() == 0 {
		return "t0s"
	}
	out := ""
	r := new(big.Int).Abs(v)
	q := new(big.Int)
	inTime := false
	for _, u := range units {
		if u.time && !inTime && r.Sign() > 0 {
			inTime = true
			out += "t"
		}
		q.QuoRem(r, bi(u.us), r)
		if q.Sign() > 0 {
			out += q.String() + u.sym
		}
	}
	if v.Sign() < 0 {
		out = "-" + out
	}
	return out
}

func checkDurationText(c *engine.Ctx, v int64) {
	sig := fmt.Sprintf("Duration(%d)", v)
	c.NoPanic(sig, func() {
		d := types.Duration(v)
		s, w := d.String(), refDurationText(bi(v))
		c.Check(s == w, sig, "String gives %q, want %q", s, w)
		p, err := types.ParseDuration(s)
		c.Check(err == nil && p == d, sig, "its text %q reads as %d, %v", s, int64(p), err)
		b, err := d.MarshalText()
		c.Check(err == nil && string(b) == w, sig, "MarshalText gives %q, %v", b, err)
		e := types.Duration(77)
		err = e.UnmarshalText(b)
		c.Check(err == nil && e == d, sig, "UnmarshalText gives %d, %v", int64(e), err)
	})
}

// civil gives the date of a day, counted from 2000-01-01
func civil(day int64) (y, m, d int64) {
	y = 2000 + day/146097*400
	day %= 146097
	for {
		n := int64(365)
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			n++
		}
		if day < n {
			break
		}
		day -= n
		y++
	}
	for m = 1; ; m++ {
		n := monthDays(y, m)
		if day < n {
			return y, m, day + 1
		}
		day -= n
	}
}

func monthDays(y, m int64) int64 {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

const dayUS = 86400000000

func refTimeText(t int64) string {
	y, m, d := civil(t / dayUS)
	r := t % dayUS
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%06dZ", y, m, d, r/3600000000, r/60000000%60, r/1000000%60, r%1000000)
}

func checkTimeText(c *engine.Ctx, t int64) {
	sig := fmt.Sprintf("Timestamp(%d)", t)
	c.NoPanic(sig, func() {
		ts := types.Timestamp(t)
		w := refTimeText(t)
		s := ts.String()
		c.Check(s == w, sig, "String gives %q, want %q", s, w)
		p, err := types.ParseTimestamp(w)
		c.Check(err == nil && p == ts, sig, "its text %q reads as %d, %v", w, int64(p), err)
		b, err := ts.MarshalText()
		c.Check(err == nil && string(b) == w, sig, "MarshalText gives %q, %v", b, err)
		u := types.Timestamp(77)
		err = u.UnmarshalText(b)
		c.Check(err == nil && u == ts, sig, "UnmarshalText gives %d, %v", int64(u), err)
		f, err := types.TimestampFrom(ts.AsTime())
		c.Check(err == nil && f == ts, sig, "AsTime and TimestampFrom give %d, %v", int64(f), err)
		f, err = types.TimestampFrom(ts.AsTime().In(time.FixedZone("x", 3*3600)))
		c.Check(err == nil && f == ts, sig, "TimestampFrom in another time zone gives %d, %v", int64(f), err)
		if t%1000000 == 0 {
			sh := w[:19] + "Z"
			p, err := types.ParseTimestamp(sh)
			c.Check(err == nil && p == ts, sig, "its text %q reads as %d, %v", sh, int64(p), err)
		}
	})
}

var year9999 = (func() int64 {
	d := int64(0)
	for y := 2000; y <= 9999; y++ {
		d += 365
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			d++
		}
	}
	return d * dayUS
})()

// zones are time zones east and west of Greenwich, with and without daylight saving time, whole and half hours
var zones = func() (l []*time.Location) {
	for _, n := range []string{"UTC", "Australia/Lord_Howe", "America/New_York", "Europe/Berlin", "Asia/Kathmandu"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		l = append(l, z)
	}
	return append(l, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600+1))
}()

func init() {
	// nothing may depend on where the system is
	time.Local = zones[1]
	register(&engine.Property{ID: "T01", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does"},
		Harnesses: func(tier string) []engine.Harness {
			es := edgesI(30, false)
			wide := edgesI(30, true)
			ts := edgesI(4, false)
			return []engine.Harness{
				{Name: "amounts", About: fmt.Sprintf("Add, Sub, Compare and Abs of every pair of %d amounts with %d", len(wide), len(es)), Body: func(c *engine.Ctx) {
					a := wide[c.Pick(len(wide))]
					for _, b := range es {
						for _, p := range [][2]int64{{a, b}, {b, a}} {
							x, y := p[0], p[1]
							sig := fmt.Sprintf("Ndau:%d,%d", x, y)
							c.NoPanic(sig, func() {
								g, err := types.Ndau(x).Add(types.Ndau(y))
								w := new(big.Int).Add(bi(x), bi(y))
								c.Check(fitsI(w) && err == nil && int64(g) == w.Int64() || !fitsI(w) && err == ndauerr.ErrOverflow && g == 0, sig, "Add gives %d, %v", int64(g), err)
								g, err = types.Ndau(x).Sub(types.Ndau(y))
								w = w.Sub(bi(x), bi(y))
								c.Check(fitsI(w) && err == nil && int64(g) == w.Int64() || !fitsI(w) && err == ndauerr.ErrOverflow && g == 0, sig, "Sub gives %d, %v", int64(g), err)
								c.Check(types.Ndau(x).Compare(types.Ndau(y)) == bi(x).Cmp(bi(y)), sig, "Compare is wrong")
							})
						}
					}
					g := types.Ndau(a).Abs()
					c.Check(a == -1<<63 || bi(int64(g)).Cmp(new(big.Int).Abs(bi(a))) == 0, fmt.Sprintf("Ndau:%d", a), "Abs gives %d", int64(g))
				}},
				{Name: "timestamps", About: fmt.Sprintf("Add and Sub of every one of %d durations to every one of as many timestamps, Since and Compare of every pair of them", len(wide)), Body: func(c *engine.Ctx) {
					a := wide[c.Pick(len(wide))]
					if a < 0 {
						c.Stop()
					}
					t := types.Timestamp(a)
					clamp := func(x *big.Int) int64 {
						if x.Sign() < 0 {
							return 0
						}
						if x.Cmp(maxI64) > 0 {
							return 1<<63 - 1
						}
						return x.Int64()
					}
					for _, d := range append(wide, ts...) {
						sig := fmt.Sprintf("Timestamp:%d,%d", a, d)
						w := clamp(new(big.Int).Add(bi(a), bi(d)))
						c.Check(int64(t.Add(types.Duration(d))) == w, sig, "Add gives %d, want %d", t.Add(types.Duration(d)), w)
						w = clamp(new(big.Int).Sub(bi(a), bi(d)))
						c.Check(int64(t.Sub(types.Duration(d))) == w, sig, "Sub gives %d, want %d", t.Sub(types.Duration(d)), w)
						if d >= 0 {
							o := types.Timestamp(d)
							c.Check(int64(t.Since(o)) == a-d, sig, "Since gives %d", t.Since(o))
							c.Check(t.Compare(o) == bi(a).Cmp(bi(d)), sig, "Compare is wrong")
							// and back
							if x := o.Add(t.Since(o)); x != t {
								c.Fail(sig, "adding the time since another timestamp to it gives %d", x)
							}
						}
					}
				}},
				{Name: "go-durations", About: "conversions from and to Go's durations, of every edge whole milliseconds exactly", Body: func(c *engine.Ctx) {
					d := wide[c.Pick(len(wide))]
					// either may cut off what is below a millisecond
					sig := fmt.Sprintf("DurationFrom(%d)", d)
					near := func(sig string, got, exact *big.Int, ms int64) {
						x := new(big.Int).Sub(exact, got)
						c.Check(x.CmpAbs(bi(ms)) < 0 && x.Sign()*exact.Sign() >= 0 && got.Sign()*exact.Sign() >= 0, sig, "got %v, want %v, cut off at a millisecond at most", got, exact)
					}
					g := types.DurationFrom(time.Duration(d))
					near(sig, new(big.Int).Mul(bi(int64(g)), bi(1000)), bi(d), 1000000)
					x := new(big.Int).Mul(bi(d), bi(1000))
					if fitsI(x) {
						b := types.Duration(d).TimeDuration()
						near(fmt.Sprintf("TimeDuration(%d)", d), bi(int64(b)), x, 1000000)
					}
				}},
			}
		}})
	register(&engine.Property{ID: "T02", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			n, l := int64(1<<19), 6
			if tier == "thorough" {
				n, l = 1<<24, 8
			}
			wide := edgesI(100, true)
			alpha := []string{"0", "1", "9", ".", "-", " ", "+", "e"}
			other := []string{"1", "05", ".", ",", "_", "'", "E", "x", "+", "%", "/", "\t", "n"}
			wholes := []string{"", "0", "00", "1", "000000000000000000001", "92233720367", "92233720368", "92233720369", "092233720368", "184467440736", "184467440737", "184467440738",
				"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "340282366920938463463374607431768211456", "276701161105"}
			fracs := []string{"", ".", ".0", ".5", ".54775806", ".54775807", ".54775808", ".09551615", ".09551616", ".99999999", ".00000001", ".999999999", ".000000010", ".00000000", ".64328448", ".9_9", ".+1", ".-1"}
			return []engine.Harness{
				{Name: "amounts", About: fmt.Sprintf("the text of every amount from -%d to %d napu, and of as many around the largest and smallest ones and ±1 ndau, read back", n, n), Body: func(c *engine.Ctx) {
					i := int64(c.Pick(256))
					base := []int64{0, 100000000, -100000000, 9223372036854775807 - n, -9223372036854775808 + n, 1000000000000}[c.Pick(6)]
					for x := i * n / 256; x < (i+1)*n/256; x++ {
						checkNdauText(c, base+x)
						checkNdauText(c, base-x)
					}
				}},
				{Name: "edges", About: fmt.Sprintf("the same for %d amounts around powers of 2 and 10, their multiples, sums and differences", len(wide)), Body: func(c *engine.Ctx) {
					checkNdauText(c, wide[c.Pick(len(wide))])
				}},
				{Name: "digits", About: "amounts with every pair of digits at every two places", Body: func(c *engine.Ctx) {
					a, b := c.Pick(19), c.Pick(19)
					for x := 0; x < 10; x++ {
						for y := 0; y < 10; y++ {
							v := new(big.Int).Mul(bi(int64(x)), new(big.Int).Exp(bi(10), bi(int64(a)), nil))
							v.Add(v, new(big.Int).Mul(bi(int64(y)), new(big.Int).Exp(bi(10), bi(int64(b)), nil)))
							if fitsI(v) {
								checkNdauText(c, v.Int64())
								checkNdauText(c, -v.Int64())
							}
						}
					}
				}},
				{Name: "texts", About: fmt.Sprintf("every text of up to %d of the characters %q", l, alpha), Body: func(c *engine.Ctx) {
					allWords(c, alpha, l, func(s string) { checkParseNdau(c, s) })
				}},
				{Name: "notations", About: fmt.Sprintf("every text of up to %d of %q, which other notations of numbers use", l-1, other), Body: func(c *engine.Ctx) {
					allWords(c, other, l-1, func(s string) { checkParseNdau(c, s) })
				}},
				{Name: "large", About: "numbers around the limits of the types, with fractions, in spaces and signs", Body: func(c *engine.Ctx) {
					w, f := wholes[c.Pick(len(wholes))], fracs[c.Pick(len(fracs))]
					for _, p := range []string{"", " ", "\t", "\n", "-", "+", "\u00a0", "$"} {
						for _, q := range []string{"", " ", "\t", "\n", "%", "0", "00000000", "e1", "\x00", "\xff"} {
							checkParseNdau(c, p+w+f+q)
						}
					}
				}},
				{Name: "bytes", About: "every byte at every place of a few numbers", Body: func(c *engine.Ctx) {
					b := c.Pick(256)
					for _, s := range []string{"", "1", "12.34", "0.00000001", " 5.5 "} {
						for i := 0; i <= len(s); i++ {
							checkParseNdau(c, s[:i]+string([]byte{byte(b)})+s[i:])
							if i < len(s) {
								checkParseNdau(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
							}
						}
					}
				}},
			}
		}})
	register(&engine.Property{ID: "T03", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			n, l := int64(1<<16), 5
			if th {
				n, l = 1<<21, 6
			}
			wide := edgesI(100, true)
			alpha := []string{"1", "90", "y", "m", "d", "t", "h", "s", "u", "-", "p", "M"}
			years := []string{"0", "1", "292470", "292471", "292472", "292473", "584942", "584943", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "000001", "5849424173551", "36893488147419103232"}
			return []engine.Harness{
				{Name: "around", About: fmt.Sprintf("the text of every duration up to %d microseconds to either side of 0, ±1 of every unit, their sums, and the largest and smallest ones, read back", n), Body: func(c *engine.Ctx) {
					i := int64(c.Pick(256))
					bases := []int64{0, 9223372036854775807 - n, -9223372036854775808 + n}
					sum := int64(0)
					for _, u := range units {
						bases = append(bases, u.us, -u.us)
						sum += u.us
						bases = append(bases, sum, -sum)
					}
					base := bases[c.Pick(len(bases))]
					for x := i * n / 256; x < (i+1)*n/256; x++ {
						checkDurationText(c, base+x)
						checkDurationText(c, base-x)
					}
				}},
				{Name: "limits", About: "the three durations nearest to either end and all edges", Body: func(c *engine.Ctx) {
					v := wide[c.Pick(len(wide))]
					checkDurationText(c, v)
					checkDurationText(c, -v)
				}},
				{Name: "parts", About: "every combination of 0, 1, the largest and the next number of every unit, with both signs", Body: func(c *engine.Ctx) {
					vals := [][]int64{{0, 1, 99, 292470}, {0, 1, 11, 12}, {0, 1, 29, 30}, {0, 1, 23}, {0, 1, 59}, {0, 1, 59}, {0, 1, 999999}}
					v := int64(0)
					for i, u := range units {
						v += vals[i][c.Pick(len(vals[i]))] * u.us
					}
					checkDurationText(c, v)
					checkDurationText(c, -v)
				}},
				{Name: "texts", About: fmt.Sprintf("every text of up to %d of %q", l, alpha), Body: func(c *engine.Ctx) {
					allWords(c, alpha, l, func(s string) { checkParseDuration(c, s) })
				}},
				{Name: "fields", About: "every subset of fields, each of 1, 2 and too many digits, in and out of order", Body: func(c *engine.Ctx) {
					neg := []string{"", "-", "p", "-p", "P", "p-", "--", "pp", "+", " "}[c.Pick(10)]
					digits := []string{"", "0", "7", "07", "99", "100", "999999", "1000000"}
					s := neg
					mask := c.Pick(128)
					dg := digits[1+c.Pick(7)]
					odd := c.Pick(8)
					tAt := c.Pick(3)
					inT := false
					for i, u := range units {
						if mask>>uint(i)&1 == 0 {
							continue
						}
						if u.time && !inT && tAt != 0 {
							s += "t"
							inT = true
						}
						if odd == i {
							s += dg + u.sym
						} else {
							s += "3" + u.sym
						}
					}
					if tAt == 2 && !inT {
						s += "T"
					}
					checkParseDuration(c, s)
					checkParseDuration(c, strings.ToUpper(s))
					checkParseDuration(c, s+" ")
					checkParseDuration(c, s+"1")
					checkParseDuration(c, s+"\n")
				}},
				{Name: "large", About: "numbers of years around the limits of the types, with other fields and signs", Body: func(c *engine.Ctx) {
					y := years[c.Pick(len(years))]
					rest := []string{"", "0m", "2m", "11m29d", "0m0dt0h", "1m7dt4h", "2m2dt4h0m54s775806us", "2m2dt4h0m54s775807us", "2m2dt4h0m54s775808us", "2m2dt4h0m54s775809us", "99m99dt99h99m99s999999u", "99m"}
					for _, r := range rest {
						for _, sg := range []string{"", "-", "p", "-p"} {
							checkParseDuration(c, sg+y+"y"+r)
						}
					}
				}},
				{Name: "end", About: "the largest and smallest duration field by field: each field at its digits there or 1 or 2 off, the ones after it absent, 0, at theirs or as large as two digits allow", Body: func(c *engine.Ctx) {
					neg := c.Bool()
					left := new(big.Int).Set(maxI64)
					if neg {
						left.Neg(minI64)
					}
					at := make([]int64, len(units))
					for i, u := range units {
						q, r := new(big.Int).QuoRem(left, bi(u.us), new(big.Int))
						at[i] = q.Int64()
						left = r
					}
					field := c.Pick(len(units))
					d := int64(c.Pick(5)) - 2
					s, inT := "", false
					put := func(i int, v int64) {
						if v < 0 {
							v = 0
						}
						if units[i].time && !inT {
							s += "t"
							inT = true
						}
						s += fmt.Sprint(v) + units[i].sym
					}
					for i := range units {
						switch {
						case i < field:
							put(i, at[i])
						case i == field:
							put(i, at[i]+d)
						default:
							switch c.Pick(4) {
							case 1:
								put(i, 0)
							case 2:
								put(i, at[i])
							case 3:
								put(i, 99)
							}
						}
					}
					if neg {
						s = "-" + s
					}
					checkParseDuration(c, s)
				}},
				{Name: "micro-signs", About: "the three signs of microseconds mean the same", Body: func(c *engine.Ctx) {
					n := c.Pick(1000)
					for _, s := range []string{"u", "us", "U", "US", "\u03bc", "\u03bcs", "\u00b5", "\u00b5s"} {
						d, err := parseDuration(c, fmt.Sprintf("t%d%s", n, s))
						c.Check(err == nil && int64(d) == int64(n), fmt.Sprintf("ParseDuration(t%d%s)", n, s), "got %d, %v", int64(d), err)
					}
				}},
				{Name: "notations", About: fmt.Sprintf("every text of up to %d of digits, units, and the signs of other notations: points, commas, weeks, spaces, plus", l-1), Body: func(c *engine.Ctx) {
					allWords(c, []string{"1", "05", ".", ",", "t", "s", "d", "m", "-", "+", "w", " ", ":"}, l-1, func(s string) { checkParseDuration(c, s) })
				}},
				{Name: "bytes", About: "every ASCII byte in place of every character of 5 texts, and inserted", Body: func(c *engine.Ctx) {
					b := string(rune(c.Pick(128)))
					for _, s := range []string{"-p1y2m3dt4h5m6s789us", "12y11m29dt23h59m59s999999u", "t0s", "1d", "t1m"} {
						for i := 0; i <= len(s); i++ {
							checkParseDuration(c, s[:i]+b+s[i:])
							checkParseDuration(c, s[:i]+b+s[minI(i+1, len(s)):])
						}
					}
				}},
			}
		}})
	register(&engine.Property{ID: "T04", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			days := int(year9999 / dayUS)
			step := 16
			if tier == "thorough" {
				step = 1
			}
			return []engine.Harness{
				{Name: "days", About: fmt.Sprintf("the first and last microsecond of every %d. day of the years 2000 to 9999, and of every day to 2420", step), Body: func(c *engine.Ctx) {
					d := c.Pick(days/step + 1)
					for _, x := range []int{d * step, d} {
						if x >= days || x > 153400 && x != d*step {
							continue
						}
						t := int64(x) * dayUS
						checkTimeText(c, t)
						checkTimeText(c, t+dayUS-1)
						checkTimeText(c, t+dayUS-1000000)
					}
				}},
				{Name: "seconds", About: "every second of a leap day, with the fractions 0, .000001, .5 and .999999", Body: func(c *engine.Ctx) {
					m := int64(c.Pick(1440))
					for s := int64(0); s < 60; s++ {
						t := 59*dayUS + (m*60+s)*1000000
						for _, f := range []int64{0, 1, 500000, 999999} {
							checkTimeText(c, t+f)
						}
					}
				}},
				{Name: "micros", About: "every microsecond of a second and of the last second of the year 9999", Body: func(c *engine.Ctx) {
					k := int64(c.Pick(1000))
					for i := int64(0); i < 1000; i += int64(step) {
						checkTimeText(c, k*1000+i)
						checkTimeText(c, year9999-1-k*1000-i)
					}
				}},
				{Name: "refused", About: "every month 0..13, day 0..32, hour, minute and second around its end, of years with and without a leap day", Body: func(c *engine.Ctx) {
					y := []int64{2000, 2001, 2004, 2100, 2400}[c.Pick(5)]
					m := int64(c.Pick(14))
					for d := int64(0); d <= 32; d++ {
						for _, h := range []int64{0, 23, 24, 25, 99} {
							for _, mi := range []int64{0, 59, 60, 99} {
								for _, s := range []int64{0, 59, 60, 61} {
									for _, f := range []string{"", ".000000", ".999999"} {
										txt := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%sZ", y, m, d, h, mi, s, f)
										ok := m >= 1 && m <= 12 && d >= 1 && d <= monthDays(y, m) && h < 24 && mi < 60 && s < 60
										t, err := parseTimestamp(c, txt)
										c.Check((err == nil) == ok && (ok || t == 0), "ParseTimestamp("+txt+")", "got %d, %v", int64(t), err)
										if ok {
											w := txt
											if f == "" {
												w = txt[:19] + ".000000Z"
											}
											c.Check(refTimeText(int64(t)) == w, "ParseTimestamp("+txt+")", "got %d, which is %s", int64(t), refTimeText(int64(t)))
										}
									}
								}
							}
						}
					}
				}},
				{Name: "before", About: "every day of the 30 years before the epoch and some earlier ones is refused", Body: func(c *engine.Ctx) {
					y := 1970 - 3 + c.Pick(33)
					if y < 1970 {
						y = []int{0, 1, 1600}[y-1967]
					}
					for m := int64(1); m <= 12; m++ {
						for d := int64(1); d <= monthDays(int64(y), m); d++ {
							for _, r := range []string{"T00:00:00Z", "T23:59:59.999999Z", "T12:00:00.5Z"} {
								txt := fmt.Sprintf("%04d-%02d-%02d%s", y, m, d, r)
								t, err := parseTimestamp(c, txt)
								c.Check(err != nil && t == 0, "ParseTimestamp("+txt+")", "got %d", int64(t))
							}
							_, err := types.TimestampFrom(time.Date(y, time.Month(m), int(d), 23, 59, 59, 999999999, time.UTC))
							c.Check(err != nil, fmt.Sprintf("TimestampFrom(%d-%d-%d)", y, m, d), "no error")
						}
					}
				}},
				{Name: "bytes", About: "every byte in place of every character, and inserted: refused, unless it is a digit or another fraction sign", Body: func(c *engine.Ctx) {
					b := byte(c.Pick(256))
					for _, s := range []string{"2019-02-28T23:59:59.123456Z", "2019-02-28T23:59:59Z"} {
						for i := 0; i <= len(s); i++ {
							if b >= '0' && b <= '9' {
								continue
							}
							for _, x := range []string{s[:i] + string([]byte{b}) + s[i:], s[:i] + string([]byte{b}) + s[minI(i+1, len(s)):]} {
								// Go's parser takes a sign behind the point for part of the number
								if x == s || strings.ReplaceAll(x, ",", ".") == s || strings.Contains(x, ".+") || strings.Contains(x, ".-") {
									continue
								}
								sig := fmt.Sprintf("ParseTimestamp(%q)", x)
								c.NoPanic(sig, func() {
									t, err := parseTimestamp(c, x)
									c.Check(err != nil && t == 0, sig, "got %d", int64(t))
								})
							}
						}
					}
				}},
				{Name: "offsets", About: "8 moments in 64 notations: with every kind of offset, name of a zone, number of fractional digits, separator and prefix: exactly, or an error", Body: func(c *engine.Ctx) {
					base := []string{"2019-02-28T23:59:59", "2000-01-02T00:00:00", "2000-01-01T00:00:00", "2024-02-29T12:30:00", "2100-03-01T01:00:00", "9999-12-31T23:59:59", "2262-04-12T00:00:00", "2019-10-27T02:30:00"}[c.Pick(8)]
					frac := []string{"", ".0", ".5", ".25", ".000", ".123", ".1234", ".12345", ".123456", ".1234567", ".999999999", ".", ",5"}[c.Pick(13)]
					at, err := time.Parse("2006-01-02T15:04:05", base)
					if err != nil {
						panic(err)
					}
					us := at.Unix()*1000000 - 946684800000000
					if len(frac) > 1 {
						n, m := int64(0), int64(100000)
						for _, d := range frac[1:] {
							n, m = n+int64(d-'0')*m, m/10
						}
						us += n
					}
					check := func(txt string, want int64) {
						sig := fmt.Sprintf("ParseTimestamp(%q)", txt)
						c.NoPanic(sig, func() {
							t, err := parseTimestamp(c, txt)
							c.Check(err != nil && t == 0 || err == nil && int64(t) == want && want >= 0, sig, "got %d, %v, want %d or an error", int64(t), err, want)
						})
					}
					txt := base + frac
					check(txt+"Z", us)
					check(txt+"z", us)
					check(txt, us)
					for h := int64(0); h <= 14; h++ {
						for _, m := range []int64{0, 30, 45} {
							off := (h*60 + m) * 60000000
							for _, f := range []string{"%s%02d:%02d", "%s%02d%02d", "Z%s%02d:%02d", " %s%02d:%02d"} {
								check(txt+fmt.Sprintf(f, "+", h, m), us-off)
								check(txt+fmt.Sprintf(f, "-", h, m), us+off)
							}
							if m == 0 {
								check(txt+fmt.Sprintf("+%02d", h), us-off)
								check(txt+fmt.Sprintf("-%02d", h), us+off)
							}
						}
					}
					for _, z := range []string{" UTC", " GMT", "UTC", " Z", "Z "} {
						check(txt+z, us)
					}
					check(" "+txt+"Z", us)
					check("+"+txt+"Z", us)
					check(strings.Replace(txt, "T", " ", 1)+"Z", us)
					check(strings.Replace(txt, "T", "t", 1)+"Z", us)
					check(strings.Replace(txt, "T", "", 1)+"Z", us)
					check(strings.NewReplacer("-", "", ":", "").Replace(txt)+"Z", us)
				}},
				{Name: "zones", Serial: true, About: "with the system in each of 7 time zones: moments around the change of the year, of a leap day and of daylight saving time, in UTC and in all of these zones", Body: func(c *engine.Ctx) {
					was := time.Local
					defer func() { time.Local = was }()
					time.Local = zones[c.Pick(len(zones))]
					y := c.Pick(60)
					z := zones[c.Pick(len(zones))]
					for _, md := range [][2]time.Month{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {3, 10}, {3, 31}, {4, 6}, {10, 5}, {10, 26}, {11, 2}, {12, 31}} {
						for _, us := range []int64{0, 1, 3600000000, 2 * 3600000000, 7200000001, 86399999999} {
							at := time.Date(2000+y*7, md[0], int(md[1]), 0, 0, 0, 0, time.UTC)
							t := at.Unix()*1000000 - 946684800000000 + us
							checkTimeText(c, t)
							at = at.Add(time.Duration(us) * 1000).In(z)
							f, err := types.TimestampFrom(at)
							sig := fmt.Sprintf("TimestampFrom(%v)", at)
							c.Check(err == nil && int64(f) == t, sig, "got %d, %v, want %d", int64(f), err, t)
							ut := f.AsTime()
							yy, mm, dd := civil(t / dayUS)
							c.Check(int64(ut.Year()) == yy && int64(ut.Month()) == mm && int64(ut.Day()) == dd && ut.Equal(at), fmt.Sprintf("AsTime(%d)", t), "got %v, with the system in %v", ut, time.Local)
						}
					}
				}},
				{Name: "beyond", About: "moments around the latest timestamp, and up to the last ones Go's times and calendar have, in three zones: exactly, or an error", Body: func(c *engine.Ctx) {
					epoch := int64(946684800)
					secs := []int64{9223372036854, 9223372036855, 18446744073709, 1 << 55, 1<<55 - 1, 1<<60 + 12345, 1<<62 - 1, 3 << 61, 1<<63 - 1 - 62135596800 - epoch}
					base := secs[c.Pick(len(secs))]
					k := int64(c.Pick(41)) - 20
					for _, ns := range []int64{0, 1, 999, 1000, 775806999, 775807000, 775807999, 775808000, 999999999} {
						for _, z := range []*time.Location{time.UTC, time.FixedZone("e", 14*3600), time.FixedZone("w", -12*3600)} {
							sec := base + k
							if base == secs[len(secs)-1] && k > 0 {
								continue
							}
							x := time.Unix(epoch+sec, ns).In(z)
							sig := fmt.Sprintf("TimestampFrom(%d s, %d ns after the epoch)", sec, ns)
							var g types.Timestamp
							var err error
							c.NoPanic(sig, func() { g, err = types.TimestampFrom(x) })
							w := new(big.Int).Mul(bi(sec), bi(1000000))
							w.Add(w, bi(ns/1000))
							if fitsI(w) {
								c.Check(err == nil && int64(g) == w.Int64(), sig, "got %d, %v, want %v", int64(g), err, w)
							} else {
								c.Check(err != nil && g == 0, sig, "got %d, want an error", int64(g))
							}
						}
					}
				}},
				{Name: "far", About: "the year of every timestamp of the whole range in 65536 steps, and its conversion there and back", Body: func(c *engine.Ctx) {
					k := int64(c.Pick(256))
					for i := int64(0); i < 256; i++ {
						for _, e := range []int64{0, 1, 999999, 1000000, 1<<47 - 1, 1<<47 - 775808, 1<<47 - 775809} {
							t := (k*256+i)<<47 + e
							sig := fmt.Sprintf("AsTime(%d)", t)
							x := types.Timestamp(t).AsTime()
							y, m, d := civil(t / dayUS)
							c.Check(int64(x.Year()) == y && int64(x.Month()) == m && int64(x.Day()) == d && int64(x.Nanosecond()) == t%1000000*1000, sig, "got %v, want %d-%d-%d", x, y, m, d)
							f, err := types.TimestampFrom(x)
							c.Check(err == nil && int64(f) == t, sig, "TimestampFrom(AsTime) gives %d, %v", int64(f), err)
						}
					}
				}},
			}
		}})
	register(&engine.Property{ID: "T05", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			var es []int64
			for _, v := range edgesI(3, false) {
				if v >= 0 {
					es = append(es, v)
				}
			}
			quick := someI(es, 8)
			if th {
				quick = someI(es, 2)
			}
			depth := 4
			waits := []types.Duration{0, 1, 31, 31536000000000, 86399999999}
			moves := []int64{0, 1, 7, 100000000, 3000000000000000, -1, -2}
			if th {
				depth = 5
				waits = append(waits, 2592000000000)
			}
			return []engine.Harness{
				{Name: "update", About: fmt.Sprintf("ages, waits, balances and transfers of %d numbers each, transfers of both signs", len(quick)), Body: func(c *engine.Ctx) {
					a, s := quick[c.Pick(len(quick))], quick[c.Pick(len(quick))]
					for _, p := range quick {
						for _, q := range quick {
							for _, tr := range []int64{q, -q} {
								sig := fmt.Sprintf("UpdateWeightedAverageAge(%d,%d,%d,%d)", a, s, tr, p)
								d := types.Duration(a)
								var err error
								c.NoPanic(sig, func() { err = d.UpdateWeightedAverageAge(types.Duration(s), types.Ndau(tr), types.Ndau(p)) })
								w := new(big.Int).Add(bi(a), bi(s))
								ok := fitsI(w)
								if tr >= 0 {
									nb := new(big.Int).Add(bi(p), bi(tr))
									ok = ok && fitsI(nb)
									if nb.Sign() > 0 {
										w.Quo(w.Mul(w, bi(p)), nb)
									}
								}
								if ok {
									c.Check(err == nil && int64(d) == w.Int64(), sig, "got %d, %v, want %v", int64(d), err, w)
								} else if err == nil {
									c.Fail(sig, "got %d, want an overflow error", int64(d))
								} else {
									c.Check(int64(d) == a, sig, "an error, but the age is changed to %d", int64(d))
								}
							}
						}
					}
				}},
				{Name: "histories", About: fmt.Sprintf("every history of %d steps, each one of %d waits and one of %d transfers, against the exact average of the ages", depth, len(waits), len(moves)), Body: func(c *engine.Ctx) {
					bal := int64(5)
					if c.Bool() {
						bal = 123456789012345
					}
					d := types.Duration(1000000)
					exact := big.NewRat(1000000, 1)
					for i := 0; i < depth; i++ {
						w, m := waits[c.Pick(len(waits))], moves[c.Pick(len(moves))]
						if m < 0 && bal+m < 1 {
							c.Stop()
						}
						sig := fmt.Sprintf("history:%v", w)
						err := d.UpdateWeightedAverageAge(w, types.Ndau(m), types.Ndau(bal))
						c.Check(err == nil, sig, "step %d: %v", i, err)
						exact.Add(exact, big.NewRat(int64(w), 1))
						if m >= 0 {
							exact.Mul(exact, big.NewRat(bal, bal+m))
						}
						bal += m
						c.Logf("wait %d, transfer %d: balance %d, age %d", int64(w), m, bal, int64(d))
						diff := new(big.Rat).Sub(exact, big.NewRat(int64(d), 1))
						c.Check(diff.Sign() >= 0 && diff.Cmp(big.NewRat(int64(i+1), 1)) < 0, sig, "step %d: the age is %d, the exact one %s", i, int64(d), exact.FloatString(3))
					}
				}},
			}
		}})
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
