package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
	"verif/mc/engine"
)

const (
	oneHundredPercent = 1000000000000 // the denominator of rates
	yearUS            = 31536000000000
)

func checkRateText(c *engine.Ctx, v int64) {
	sig := fmt.Sprintf("Rate(%d)", v)
	c.NoPanic(sig, func() {
		s := eai.Rate(v).String()
		w := decimalText(bi(v), 10) + "%"
		c.Check(s == w, sig, "String gives %q, want %q", s, w)
		p, err := eai.ParseRate(s)
		c.Check(err == nil && int64(p) == v, sig, "its text %q reads as %d, %v", s, int64(p), err)
	})
}

func checkParseRate(c *engine.Ctx, s string) {
	sig := fmt.Sprintf("ParseRate(%q)", s)
	var g eai.Rate
	var err error
	c.NoPanic(sig, func() { g, err = eai.ParseRate(s) })
	w, ok := readRate(s)
	if ok {
		c.Check(err == nil && int64(g) == w, sig, "got %d, %v, want %d", int64(g), err, w)
	} else {
		c.Check(err != nil && g == 0, sig, "got %d, want an error", int64(g))
	}
}

func readRate(s string) (int64, bool) {
	t := strings.Trim(s, asciiSpace)
	if !strings.HasSuffix(t, "%") {
		return 0, false
	}
	w, ok := readDecimal(strings.TrimSuffix(t, "%"), 10, true)
	if !ok || !fitsI(w) {
		return 0, false
	}
	return w.Int64(), true
}

func checkRow(c *engine.Ctx, from, rate int64) {
	sig := fmt.Sprintf("RTRow{%d,%d}", from, rate)
	c.NoPanic(sig, func() {
		r := eai.RTRow{From: types.Duration(from), Rate: eai.Rate(rate)}
		b, err := r.MarshalText()
		w := refDurationText(bi(from)) + ":" + decimalText(bi(rate), 10) + "%"
		c.Check(err == nil && string(b) == w, sig, "MarshalText gives %q, %v, want %q", b, err, w)
		o := eai.RTRow{From: 5, Rate: 6}
		err = o.UnmarshalText(b)
		c.Check(err == nil && o == r, sig, "UnmarshalText of %q gives %v, %v", b, o, err)
	})
}

// rows of a piecewise constant function, equal neighbours joined
type piece struct {
	d, r int64
}

func join(ps []piece) []piece {
	var out []piece
	for _, p := range ps {
		if p.d == 0 {
			continue
		}
		if n := len(out); n > 0 && out[n-1].r == p.r {
			out[n-1].d += p.d
		} else {
			out = append(out, p)
		}
	}
	return out
}

func refRateAt(t eai.RateTable, x int64) int64 {
	r := int64(0)
	for _, row := range t {
		if int64(row.From) <= x {
			r = int64(row.Rate)
		}
	}
	return r
}

// tables over small positions: a choice of which positions have a row, with one of some rate patterns
func pickTable(c *engine.Ctx, positions int, scale, rate int64) eai.RateTable {
	mask := c.Pick(1 << uint(positions))
	kind := 0
	if mask != 0 {
		kind = c.Pick(4)
	}
	var t eai.RateTable
	n := int64(0)
	for i := 0; i < positions; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		n++
		r := n
		switch kind {
		case 1:
			r = 10 - n
		case 2:
			r = n % 2
		case 3:
			r = (n + 1) / 2
		}
		t = append(t, eai.RTRow{From: types.Duration(int64(i) * scale), Rate: eai.Rate(r * rate)})
	}
	return t
}

// account is what EAI depends on
type account struct {
	block, last, waa       int64
	locked                 bool
	notice, bonus, unlocks int64
	notified               bool
}

// GetNoticePeriod etc. make an account a Lock
func (a account) GetNoticePeriod() types.Duration { return types.Duration(a.notice) }
func (a account) GetBonusRate() eai.Rate          { return eai.Rate(a.bonus) }
func (a account) GetUnlocksOn() *types.Timestamp {
	if !a.notified {
		return nil
	}
	t := types.Timestamp(a.unlocks)
	return &t
}

func (a account) lock() eai.Lock {
	if !a.locked {
		return nil
	}
	return a
}

func (a account) String() string {
	s := fmt.Sprintf("block=%d,last=%d,waa=%d", a.block, a.last, a.waa)
	if a.locked {
		s += fmt.Sprintf(",notice=%d,bonus=%d", a.notice, a.bonus)
	}
	if a.notified {
		s += fmt.Sprintf(",unlocks=%d", a.unlocks)
	}
	return s
}

// rateDuring is the rate right after the moment t: that of the account's age then,
// as if it were older by the notice period while locked, standing still while notified
func (a account) rateDuring(t eai.RateTable, at int64) int64 {
	age := a.waa - (a.block - at)
	switch {
	case !a.locked || a.notified && at >= a.unlocks:
		return refRateAt(t, age)
	case a.notified && at >= a.unlocks-a.notice:
		return refRateAt(t, a.waa-(a.block-(a.unlocks-a.notice))+a.notice) + a.bonus
	}
	return refRateAt(t, age+a.notice) + a.bonus
}

// exponent is the sum of rate times duration from last to block, while the
// account has an age, in units of 10^-12 microseconds; and the number of
// different rates on the way
func (a account) exponent(t eai.RateTable) (*big.Int, int) {
	cuts := map[int64]bool{a.last: true, a.block: true}
	cut := func(x int64) {
		if x > a.last && x < a.block {
			cuts[x] = true
		}
	}
	cut(a.block - a.waa)
	if a.notified {
		cut(a.unlocks)
		cut(a.unlocks - a.notice)
	}
	for _, r := range t {
		cut(a.block - a.waa + int64(r.From))
		cut(a.block - a.waa + int64(r.From) - a.notice)
	}
	var xs []int64
	for x := range cuts {
		xs = append(xs, x)
	}
	sortInts(xs)
	sum := new(big.Int)
	n := 0
	for i := 0; i+1 < len(xs); i++ {
		if a.waa-(a.block-xs[i]) < 0 {
			continue
		}
		n++
		e := new(big.Int).Mul(bi(a.rateDuring(t, xs[i])), bi(xs[i+1]-xs[i]))
		sum.Add(sum, e)
		// an exponent beyond 1 is taken in steps
		if e.Quo(e, new(big.Int).Mul(bi(oneHundredPercent), bi(yearUS))); e.IsInt64() && e.Int64() < 100 {
			n += int(e.Int64())
		}
	}
	return sum, n
}

func sortInts(x []int64) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

var expCache = newCache()

// growth is e^x - 1 for the exponent, to 200 bits
func growth(x *big.Int) *big.Float {
	k := x.String()
	if f := expCache.get(k); f != nil {
		return f
	}
	f := expBig(x, new(big.Int).Mul(bi(oneHundredPercent), bi(yearUS)))
	f.Sub(f, new(big.Float).SetPrec(256).SetInt64(1))
	expCache.put(k, f)
	return f
}

// checkEAI compares Calculate with the definition
func checkEAI(c *engine.Ctx, a account, t eai.RateTable, bal int64, fix bool) int64 {
	sig := fmt.Sprintf("Calculate(%d,%v,%v,%v)", bal, a, t, fix)
	var g types.Ndau
	var err error
	c.NoPanic(sig, func() {
		g, err = eai.Calculate(types.Ndau(bal), types.Timestamp(a.block), types.Timestamp(a.last), types.Duration(a.waa), a.lock(), t, fix)
	})
	x, n := a.exponent(t)
	if x.Cmp(new(big.Int).Mul(bi(50*oneHundredPercent), bi(yearUS))) > 0 {
		c.Check(err != nil && g == 0, sig, "got %d, %v, want an overflow error", int64(g), err)
		return 0
	}
	f := new(big.Float).SetPrec(256).Mul(growth(x), new(big.Float).SetPrec(256).SetInt64(bal))
	w, _ := f.Float64()
	// each period's factor is right to a few units of the rate denominator
	tol := 1.01 + float64(bal)*float64(n+1)*6e-12*(1+w/(float64(bal)+1))
	if w > 9.2233720368e18 {
		c.Check(err != nil || g >= 0 && w-tol <= 9.2233720368547758e18, sig, "got %d, want an overflow error", int64(g))
		return 0
	}
	if err != nil {
		// the factor by which balances grow is a number of the rate denominator too
		k, _ := growth(x).Float64()
		c.Check((k+1)*oneHundredPercent > 1.8446744073e19, sig, "error %v, want %.3f", err, w)
		return 0
	}
	d, _ := new(big.Float).SetPrec(256).Sub(f, new(big.Float).SetInt64(int64(g))).Float64()
	c.Check(d <= tol && d >= -tol && g >= 0, sig, "got %d, want %.3f (±%.3g)", int64(g), w, tol)
	return int64(g)
}

const unitUS = 30 * 86400000000 // months

func pickAccount(c *engine.Ctx, n int, withLock bool) account {
	a := account{}
	last := c.Pick(n)
	span := c.Pick(n)
	a.last = int64(last+3*n) * unitUS
	a.block = a.last + int64(span)*unitUS
	a.waa = int64(c.Pick(2*n)) * unitUS
	if !withLock {
		return a
	}
	kind := c.Pick(2)
	a.locked = true
	a.notice = int64(c.Pick(n)) * unitUS
	a.bonus = int64(c.Pick(2)) * 3 * oneHundredPercent / 100
	if kind == 1 {
		// notified at or before the block
		a.notified = true
		notify := a.block - int64(c.Pick(2*n))*unitUS
		a.unlocks = notify + a.notice
	}
	return a
}

func init() {
	register(&engine.Property{ID: "E01", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			n, l := int64(1<<17), 6
			if tier == "thorough" {
				n, l = 1<<23, 8
			}
			wide := edgesI(100, true)
			few := edgesI(3, false)
			alpha := []string{"0", "1", "9", ".", "%", " ", "-"}
			other := []string{"1", "0", "05", ".", ",", "%", "+", "e", "_", "x", "/", " "}
			wholes := []string{"0", "00", "1", "100", "000000000000000000001", "18446744", "18446745", "184467440", "922337203", "922337204", "1844674407", "1844674408", "92233720368547758", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}
			fracs := []string{"", ".0", ".5", ".6854775806", ".6854775807", ".6854775808", ".9999999999", ".0000000001", ".99999999999", ".3709551615", ".3709551616", ".", ".+1"}
			return []engine.Harness{
				{Name: "rates", About: fmt.Sprintf("the text of every rate up to %d, around 1 %% and 100 %% and below the largest one, read back", n), Body: func(c *engine.Ctx) {
					i := int64(c.Pick(256))
					base := []int64{0, 10000000000, 1000000000000, 9223372036854775807 - n}[c.Pick(4)]
					for x := i * n / 256; x < (i+1)*n/256; x++ {
						checkRateText(c, base+x)
						if base-x >= 0 {
							checkRateText(c, base-x)
						}
					}
				}},
				{Name: "edges", About: fmt.Sprintf("%d rates around powers of 2 and 10, their multiples, sums and differences, alone and in rows of rate tables", len(wide)), Body: func(c *engine.Ctx) {
					v := wide[c.Pick(len(wide))]
					if v >= 0 {
						checkRateText(c, v)
					}
					for _, w := range few {
						if w >= 0 {
							checkRow(c, v, w)
						}
						if v >= 0 {
							checkRow(c, w, v)
						}
					}
				}},
				{Name: "percents", About: "RateFromPercent of every number up to 2^16 and of all edges up to the largest rate", Body: func(c *engine.Ctx) {
					k := c.Pick(256)
					one := func(p uint64) {
						w := new(big.Int).Mul(bu(p), bi(10000000000))
						if fitsI(w) {
							g := eai.RateFromPercent(p)
							c.Check(int64(g) == w.Int64(), fmt.Sprintf("RateFromPercent(%d)", p), "got %d, want %v", int64(g), w)
						}
					}
					for i := 0; i < 256; i++ {
						one(uint64(k*256 + i))
					}
					for i, v := range wide {
						if i%256 == k && v >= 0 {
							one(uint64(v))
						}
					}
				}},
				{Name: "texts", About: fmt.Sprintf("every text of up to %d of the characters %q", l, alpha), Body: func(c *engine.Ctx) {
					allWords(c, alpha, l, func(s string) { checkParseRate(c, s) })
				}},
				{Name: "notations", About: fmt.Sprintf("every text of up to %d of %q, which other notations of numbers use", l-1, other), Body: func(c *engine.Ctx) {
					allWords(c, other, l-1, func(s string) { checkParseRate(c, s) })
				}},
				{Name: "bytes", About: "every byte at every place of a few rates", Body: func(c *engine.Ctx) {
					b := c.Pick(256)
					for _, s := range []string{"", "1", "%", "12.34%", "0.00000000001 %", " 5.5%"} {
						for i := 0; i <= len(s); i++ {
							checkParseRate(c, s[:i]+string([]byte{byte(b)})+s[i:])
							if i < len(s) {
								checkParseRate(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
							}
						}
					}
				}},
				{Name: "large", About: "numbers around the limits of the types, with fractions, in spaces and signs", Body: func(c *engine.Ctx) {
					w, f := wholes[c.Pick(len(wholes))], fracs[c.Pick(len(fracs))]
					for _, p := range []string{"", " ", "\t", "\n", "-", "+", "\u00a0"} {
						for _, q := range []string{"%", " %", "% ", "%\n", "", "%%", "0%", "0000000000%", "e1%"} {
							checkParseRate(c, p+w+f+q)
						}
					}
				}},
				{Name: "row-texts", About: "rows of 15 durations and 15 rates, right and wrong, with 0..3 colons and spaces", Body: func(c *engine.Ctx) {
					ds := []string{"", "t0s", "1y", "-1y", "3m", "1y2m3dt4h5m6s7us", "292472y", "1", "y", " 1d", "1d ", "p5d", "t", "1s", "\xff"}
					rs := []string{"", "1%", "0%", "1.5%", " 2 %", " 2% ", "922337203.6854775807%", "922337204%", "1", "%", "-1%", "0.00000000001%", "1%%", "\xff%", "07%"}
					d, r := ds[c.Pick(len(ds))], rs[c.Pick(len(rs))]
					for _, sep := range []string{":", "::", "", ": ", " :", "-", ":\xff"} {
						s := d + sep + r
						sig := fmt.Sprintf("RTRow(%q)", s)
						var row eai.RTRow
						var err error
						c.NoPanic(sig, func() { err = row.UnmarshalText([]byte(s)) })
						parts := strings.Split(s, ":")
						ok := len(parts) == 2
						var wd *big.Int
						var wr int64
						if ok {
							wd, ok = readDuration(parts[0])
							if ok && !strings.ContainsAny(parts[0], "0123456789") {
								continue
							}
						}
						if ok {
							ok = fitsI(wd)
						}
						if ok {
							wr, ok = readRate(parts[1])
						}
						if ok {
							c.Check(err == nil && int64(row.From) == wd.Int64() && int64(row.Rate) == wr, sig, "got %v, %v", row, err)
						} else {
							c.Check(err != nil, sig, "got %v, want an error", row)
						}
					}
				}},
			}
		}})
	register(&engine.Property{ID: "E02", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			n := 6
			if tier == "thorough" {
				n = 8
			}
			// checks every window
			slices := func(c *engine.Ctx, t eai.RateTable, scale int64, pos []int64) {
				name := fmt.Sprint(t)
				if len(t) > 12 {
					name = fmt.Sprintf("%d rows", len(t))
				}
				for _, x := range pos {
					g := t.RateAt(types.Duration(x))
					c.Check(int64(g) == refRateAt(t, x), fmt.Sprintf("RateAt(%s,%d)", name, x), "got %d, want %d", int64(g), refRateAt(t, x))
				}
				for _, from := range pos {
					for _, to := range pos {
						for _, off := range pos {
							for _, fr := range pos {
								sig := fmt.Sprintf("SliceF(%s,%d,%d,%d,%d)", name, from, to, off, fr)
								var rs, r0 eai.RateSlice
								c.NoPanic(sig, func() {
									rs = t.SliceF(types.Duration(from), types.Duration(to), types.Duration(off), types.Duration(fr))
									if fr > 0 {
										// which way the freeze is measured does not matter
										r0 = t.SliceF(types.Duration(from), types.Duration(to), types.Duration(off), types.Duration(-fr))
									} else {
										r0 = t.Slice(types.Duration(from), types.Duration(to), types.Duration(off))
									}
								})
								var want []piece
								if to > from {
									stop := to + off - fr
									if stop < from+off {
										want = []piece{{to - from, refRateAt(t, stop)}}
									} else {
										x := from + off
										for _, row := range t {
											if f := int64(row.From); f > from+off && f <= stop && f < to+off {
												want = append(want, piece{f - x, refRateAt(t, x)})
												x = f
											}
										}
										want = append(want, piece{to + off - x, refRateAt(t, x)})
									}
									want = join(want)
								}
								got := join(pieces(c, sig, rs))
								c.Check(fmt.Sprint(got) == fmt.Sprint(want), sig, "got %v, want %v", got, want)
								{
									got = join(pieces(c, sig, r0))
									c.Check(fmt.Sprint(got) == fmt.Sprint(want), "Slice"+sig[6:], "got %v, want %v", got, want)
								}
							}
						}
					}
				}
			}
			var pos []int64
			for i := 0; i <= n+1; i++ {
				pos = append(pos, int64(i))
			}
			return []engine.Harness{
				{Name: "small", About: fmt.Sprintf("every table with rows at some of the moments 0..%d and 4 patterns of rates, with every window, offset and freeze of either sign from 0 to %d; RateAt of every moment", n-1, n+1), Body: func(c *engine.Ctx) {
					t := pickTable(c, n, 1, 1)
					c.Logf("%v", t)
					slices(c, t, 1, pos)
				}},
				{Name: "same-moments", About: fmt.Sprintf("every table of up to %d rows in order of the moments 0..3, several at the same moment included, where the last one counts, with 4 patterns of rates and every window, offset and freeze from 0 to 5", n-2), Body: func(c *engine.Ctx) {
					var t eai.RateTable
					rows, at := c.Pick(n-1), 0
					kind := c.Pick(4)
					for i := 1; i <= rows; i++ {
						at += c.Pick(4 - at)
						r := int64([]int{i, 10 - i, i % 2, (i + 1) / 2}[kind])
						t = append(t, eai.RTRow{From: types.Duration(at), Rate: eai.Rate(r)})
					}
					c.Logf("%v", t)
					slices(c, t, 1, []int64{0, 1, 2, 3, 4, 5})
				}},
				{Name: "long-tables", About: "tables of every number of rows to 40 and around every power of two to 1024, two apart, with 4 patterns of rates: every moment; windows, offsets and freezes from moments at the ends and in the middle", Body: func(c *engine.Ctx) {
					var lens []int
					for i := 0; i <= 40; i++ {
						lens = append(lens, i)
					}
					for p := 64; p <= 1024; p *= 2 {
						lens = append(lens, p-1, p, p+1)
					}
					rows, kind := lens[c.Pick(len(lens))], c.Pick(4)
					var t eai.RateTable
					for i := 1; i <= rows; i++ {
						r := []int{i, 2000 - i, i % 2, (i + 1) / 2}[kind]
						t = append(t, eai.RTRow{From: types.Duration(2 * i), Rate: eai.Rate(r)})
					}
					for x := int64(0); x <= 2*int64(rows)+3; x++ {
						g := t.RateAt(types.Duration(x))
						c.Check(int64(g) == refRateAt(t, x), fmt.Sprintf("RateAt(%d rows,%d)", rows, x), "got %d, want %d", int64(g), refRateAt(t, x))
					}
					last := int64(2 * rows)
					slices(c, t, 1, []int64{0, 2, last/2 + 1, last - 1, last})
				}},
				{Name: "default-tables", About: "the two default tables at every boundary, one microsecond around it and between, with all such windows, offsets and freezes", Body: func(c *engine.Ctx) {
					t := []eai.RateTable{eai.DefaultUnlockedEAI, eai.DefaultLockBonusEAI}[c.Pick(2)]
					k := c.Pick(len(t))
					ps := []int64{0, 5 * yearUS, int64(t[0].From), int64(t[len(t)-1].From)}
					for i := k; i < k+2 && i < len(t); i++ {
						ps = append(ps, int64(t[i].From)-1, int64(t[i].From), int64(t[i].From)+1, int64(t[i].From)*2/3)
					}
					c.Logf("windows, offsets and freezes of %v", ps)
					slices(c, t, 1, ps)
				}},
				{Name: "defaults", About: "what the default tables say: 2 to 10 % after 30 to 270 days, bonuses of 1 to 5 % for locks of 90 days to 3 years", Body: func(c *engine.Ctx) {
					d := int64(c.Pick(4 * 365))
					w := d / 30
					if w > 9 {
						w = 9
					}
					if w > 0 {
						w++
					}
					for _, x := range []int64{d * dayUS, (d+1)*dayUS - 1} {
						g := eai.DefaultUnlockedEAI.RateAt(types.Duration(x))
						c.Check(int64(g) == w*oneHundredPercent/100, fmt.Sprintf("DefaultUnlockedEAI(%d)", x), "got %v, want %d %%", g, w)
						b := int64(0)
						for i, day := range []int64{90, 180, 365, 730, 1095} {
							if d >= day {
								b = int64(i) + 1
							}
						}
						g = eai.DefaultLockBonusEAI.RateAt(types.Duration(x))
						c.Check(int64(g) == b*oneHundredPercent/100, fmt.Sprintf("DefaultLockBonusEAI(%d)", x), "got %v, want %d %%", g, b)
					}
				}},
			}
		}})
	register(&engine.Property{ID: "E03", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does", "notice was given at or before the block, and unlocks are one notice period later"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			n, tn := 5, 5
			if th {
				n, tn = 8, 7
			}
			table := eai.RateTable{}
			for i := int64(1); i <= 5; i++ {
				table = append(table, eai.RTRow{From: types.Duration(i * 2 * unitUS), Rate: eai.Rate((i + 1) * oneHundredPercent / 100)})
			}
			bals := []int64{0, 1, 99999999, 123456789012345, 3000000000000000}
			return []engine.Harness{
				{Name: "unlocked", About: fmt.Sprintf("every table with rows at some of %d months and 4 patterns of rates, every age, last calculation and block at months", tn), Body: func(c *engine.Ctx) {
					t := pickTable(c, tn, unitUS, oneHundredPercent/100)
					a := pickAccount(c, n, false)
					for _, b := range bals {
						checkEAI(c, a, t, b, true)
						checkEAI(c, a, t, b, false)
					}
				}},
				{Name: "locked", About: "a table with 5 steps; every age, last calculation, block, notice period, bonus and notice given or not at months, unlocking before, during and after the period", Body: func(c *engine.Ctx) {
					a := pickAccount(c, n+2, true)
					for _, b := range bals[2:] {
						checkEAI(c, a, table, b, true)
						if !a.notified || a.last <= a.unlocks {
							checkEAI(c, a, table, b, false)
						}
					}
				}},
				{Name: "locked-tables", About: "every table with rows at some of 5 months, with locks", Body: func(c *engine.Ctx) {
					t := pickTable(c, 5, unitUS, oneHundredPercent/100)
					a := pickAccount(c, minI(n-1, 5), true)
					checkEAI(c, a, t, 123456789012345, true)
				}},
				{Name: "moments", About: "boundaries missed and met by one microsecond: of rates, of the age, of notices and unlocks", Body: func(c *engine.Ctx) {
					t := table[:3]
					a := account{last: 40 * unitUS}
					base := []int64{0, 1, 2 * unitUS, 4 * unitUS}
					jit := func() int64 { return base[c.Pick(len(base))] + int64(c.Pick(3)) - 1 }
					a.block = a.last + jit()
					if a.block < a.last {
						c.Stop()
					}
					a.waa = jit()
					if a.waa < 0 {
						c.Stop()
					}
					switch c.Pick(3) {
					case 1:
						a.locked, a.bonus = true, oneHundredPercent/50
						a.notice = jit()
					case 2:
						a.locked, a.bonus, a.notified = true, oneHundredPercent/50, true
						a.notice = jit()
						notify := a.last + jit() - 2*unitUS
						if notify > a.block {
							c.Stop()
						}
						a.unlocks = notify + a.notice
					}
					if a.notice < 0 {
						c.Stop()
					}
					checkEAI(c, a, t, 3000000000000000, true)
				}},
				{Name: "short", About: "periods of every length up to 2000 microseconds, seconds, minutes, hours and days at one rate", Body: func(c *engine.Ctx) {
					u := []int64{1, 1000, 1000000, 60000000, 3600000000, dayUS}[c.Pick(6)]
					k := int64(c.Pick(20))
					t := eai.RateTable{{From: 0, Rate: 15 * oneHundredPercent / 100}}
					for i := int64(0); i < 100; i++ {
						a := account{last: yearUS, block: yearUS + (k*100+i)*u, waa: 10 * yearUS}
						checkEAI(c, a, t, 3000000000000000, true)
						checkEAI(c, a, t, 100000000, true)
					}
				}},
				{Name: "long", About: "1 to 45 years at up to 100 % a year, in as many steps, for balances of every size", Body: func(c *engine.Ctx) {
					y := int64(c.Pick(45)) + 1
					var t eai.RateTable
					for i := int64(0); i < y; i++ {
						t = append(t, eai.RTRow{From: types.Duration(i * yearUS), Rate: eai.Rate((100 - i%2) * oneHundredPercent / 100)})
					}
					a := account{last: yearUS, block: yearUS + y*yearUS, waa: y * yearUS}
					for b := int64(1); b > 0 && b <= 1000000000000000000; b *= 10 {
						checkEAI(c, a, t, b, true)
					}
					checkEAI(c, a, t, 9223372036854775807, true)
				}},
				{Name: "slow", About: "accounts which were not credited for 0..63 years (thorough: each of them, else every third) at each of 10 rates, and of 4 bonuses or none while locked and notified, in a table of one row: exponents below, of and above 1, and a microsecond to either side of whole ones", Body: func(c *engine.Ctx) {
					r := []int64{1, 5, 10, 15, 20, 25, 50, 100, 200, 1000}[c.Pick(10)] * oneHundredPercent / 100
					t := eai.RateTable{{From: 0, Rate: eai.Rate(r)}}
					a := account{last: yearUS}
					ys := 3
					if th {
						ys = 1
					}
					y := int64(c.Pick(63/ys+1) * ys)
					if l := c.Pick(6); l > 0 {
						a.locked, a.notice = true, 2*yearUS
						a.bonus = []int64{0, 1, 5, 100}[c.Pick(4)] * oneHundredPercent / 100
						if l > 1 {
							// unlocked before the last calculation, after 1 year, in the middle, at the end
							a.notified = true
							a.unlocks = a.last + []int64{-1, yearUS, y * yearUS / 2, y * yearUS, (y + 1) * yearUS}[l-2]
						}
					}
					for d := int64(-1); d <= 1; d++ {
						a.block = a.last + y*yearUS + d
						a.waa = a.block
						if a.block < a.last || a.notified && a.block < a.unlocks-a.notice {
							continue
						}
						for _, b := range bals {
							checkEAI(c, a, t, b, true)
						}
						checkEAI(c, a, t, 9223372036854775807, true)
						checkEAI(c, a, t, 922337203685, true)
					}
				}},
				{Name: "large-rates", About: "rates and bonuses around powers of 2 and 10 up to the largest, for periods of 0 to the longest: right, or an error", Body: func(c *engine.Ctx) {
					var rs []int64
					for _, v := range edgesI(0, false) {
						if v >= 0 {
							rs = append(rs, v)
						}
					}
					r := rs[c.Pick(len(rs))]
					k := c.Pick(3)
					t := eai.RateTable{{From: 0, Rate: eai.Rate(r)}}
					for _, d := range []int64{0, 1, 2, 1000, 1000000, dayUS, unitUS, yearUS, 17 * yearUS, 290000 * yearUS} {
						a := account{last: yearUS, block: yearUS + d, waa: d}
						for _, b := range []int64{0, 1, oneHundredPercent, 9223372036854775807} {
							if k > 0 && b > 9223372036854775807-r {
								continue // the sum is no rate
							}
							if k > 0 {
								a.locked, a.bonus, a.notice = true, b, yearUS
							}
							if k > 1 {
								a.notified = true
								a.unlocks = a.last + d/2
							}
							checkEAI(c, a, t, 1, true)
							checkEAI(c, a, t, 3000000000000000, true)
						}
					}
				}},
				{Name: "rates", About: "every rate of 0..100 % in steps of 1/4 %, for 0..12 months, and balances of every size up to the largest", Body: func(c *engine.Ctx) {
					r := int64(c.Pick(401)) * oneHundredPercent / 400
					m := int64(c.Pick(13))
					t := eai.RateTable{{From: 0, Rate: eai.Rate(r)}}
					a := account{last: yearUS, block: yearUS + m*unitUS, waa: 10 * yearUS}
					for b := int64(1); b > 0 && b <= 1000000000000000000; b *= 10 {
						checkEAI(c, a, t, b, true)
					}
					checkEAI(c, a, t, 9223372036854775807, true)
				}},
			}
		}})
	register(&engine.Property{ID: "E04", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does", "notice was given at or before the block, and unlocks are one notice period later"},
		Harnesses: func(tier string) []engine.Harness {
			depth := 7
			if tier == "thorough" {
				depth = 8
			}
			table := eai.RateTable{}
			for i := int64(1); i <= 5; i++ {
				table = append(table, eai.RTRow{From: types.Duration(i * 2 * unitUS), Rate: eai.Rate((i + 1) * oneHundredPercent / 100)})
			}
			n := 5
			if tier == "thorough" {
				n = 7
			}
			return []engine.Harness{
				{Name: "rate-now", About: "CalculateEAIRate at every moment of every account: the rate the next period is calculated with", Body: func(c *engine.Ctx) {
					a := pickAccount(c, n, true)
					if c.Bool() {
						a.locked, a.notified, a.notice, a.bonus = false, false, 0, 0
					}
					for _, dt := range []int64{-1, 0, 1} {
						b := a
						b.block, b.waa = a.block+dt, a.waa+dt
						c.Logf("%v", b)
						if b.waa < 0 || b.notified && b.block < b.unlocks-b.notice {
							continue
						}
						sig := fmt.Sprintf("CalculateEAIRate(%v)", b)
						var g eai.Rate
						c.NoPanic(sig, func() { g = eai.CalculateEAIRate(types.Duration(b.waa), b.lock(), table, types.Timestamp(b.block)) })
						w := b.rateDuring(table, b.block)
						c.Check(int64(g) == w, sig, "got %v, want %v", g, eai.Rate(w))
						// and what a second's EAI on a large balance comes to
						if b.block >= b.last {
							nx := b
							nx.last = b.block
							nx.block, nx.waa = b.block+1, b.waa+1
							x, _ := nx.exponent(table)
							c.Check(x.Cmp(bi(w)) == 0, sig, "the model is inconsistent")
							nx.block, nx.waa = b.block+1000000, b.waa+1000000
							checkEAI(c, nx, table, 3000000000000000, true)
						}
					}
				}},
				{Name: "histories", About: fmt.Sprintf("every history of %d events: half months and months passing, EAI credited, coins deposited, the account locked, notified or unlocking; the balance compared with the exact one and with an account which is credited once in the end", depth), Body: func(c *engine.Ctx) {
					const start = 100 * unitUS
					now := int64(start)
					a := account{last: now, waa: 3 * unitUS}
					bal := int64(123456789012345)
					exact := new(big.Float).SetPrec(256).SetInt64(bal)
					once := a // never credited on the way
					rare := true
					tol := float64(0)
					credit := func() {
						a.block = now
						x, k := a.exponent(table)
						g := checkEAI(c, a, table, bal, true)
						bal += g
						f := growth(x)
						exact.Add(exact, new(big.Float).SetPrec(256).Mul(f, exact))
						tol += 2 + float64(bal)*float64(k+1)*6e-12
						a.last = now
					}
					for i := 0; i < depth; i++ {
						switch c.Pick(7) {
						case 0:
							now += unitUS / 2
							a.waa += unitUS / 2
						case 1:
							now += 2 * unitUS
							a.waa += 2 * unitUS
						case 2:
							credit()
							c.Logf("credited: %d", bal)
						case 3:
							if a.locked && !(a.notified && now >= a.unlocks) {
								c.Stop() // nothing is deposited while locked
							}
							credit()
							d := types.Duration(a.waa)
							if err := d.UpdateWeightedAverageAge(0, types.Ndau(bal/2), types.Ndau(bal)); err != nil {
								c.Fail("deposit", "%v", err)
							}
							a.waa = int64(d)
							exact.Add(exact, new(big.Float).SetInt64(bal/2))
							bal += bal / 2
							rare = false
							c.Logf("deposited: %d, age %d", bal, a.waa)
						case 4:
							if a.locked {
								c.Stop()
							}
							credit()
							a.locked, a.notice, a.bonus = true, 3*unitUS, oneHundredPercent/100
							rare = false
							c.Logf("locked")
						case 5:
							if !a.locked || a.notified {
								c.Stop()
							}
							a.notified, a.unlocks = true, now+a.notice
							c.Logf("notified")
						case 6:
							now += 4 * unitUS
							a.waa += 4 * unitUS
						}
					}
					credit()
					d, _ := new(big.Float).SetPrec(256).Sub(exact, new(big.Float).SetInt64(bal)).Float64()
					c.Check(d <= tol && d >= -tol, "balance", "the balance is %d, which is %g from the exact one (±%g)", bal, -d, tol)
					if rare {
						once.block, once.waa = now, a.waa
						g := checkEAI(c, once, table, 123456789012345, true)
						df := float64(123456789012345 + g - bal)
						c.Check(df <= tol && df >= -tol, "credited-once", "credited once the balance is %d, and %d as it went", 123456789012345+g, bal)
					}
					c.Outcome(fmt.Sprint(bal))
				}},
				{Name: "split", About: "every account and period, credited at each of the months within it: the same EAI as credited once", Body: func(c *engine.Ctx) {
					a := pickAccount(c, n, true)
					if c.Bool() {
						a.locked, a.notified, a.notice, a.bonus = false, false, 0, 0
					}
					const b0 = 3000000000000000
					whole := checkEAI(c, a, table, b0, true)
					bal := int64(b0)
					p := a
					steps := 0
					for t := a.last + unitUS; t <= a.block; t += unitUS {
						q := p
						q.block, q.waa = t, a.waa-(a.block-t)
						// a notice of later is not known yet
						if q.notified && q.unlocks-q.notice > t {
							q.notified, q.unlocks = false, 0
						}
						if q.waa < 0 {
							q.waa = 0
							p.last = t
							continue
						}
						bal += checkEAI(c, q, table, bal, true)
						p.last = t
						steps++
					}
					tol := float64(b0) * float64(steps+4) * 2 * 6e-12
					df := float64(b0 + whole - bal)
					c.Check(df <= tol && df >= -tol, fmt.Sprintf("split(%v)", a), "%d in one, %d in parts", whole, bal-b0)
				}},
			}
		}})
}

func pieces(c *engine.Ctx, sig string, rs eai.RateSlice) []piece {
	var out []piece
	for _, r := range rs {
		if r.Duration < 0 {
			c.Fail(sig, "a negative duration: %v", rs)
		}
		out = append(out, piece{int64(r.Duration), int64(r.Rate)})
	}
	return out
}
