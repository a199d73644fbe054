package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync"

	"github.com/ndau/ndaumath/pkg/constants"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"verif/mc/engine"
)

const (
	napu      = 100000000
	blockNapu = 1000 * napu
	dollar    = 100000000000
	finalCent = 50045083
)

// powers of 2^(14/d) in nanocents, to 200 bits
type curve struct {
	once sync.Once
	d    int64
	p    []*big.Float
}

var curves = map[bool]*curve{true: {d: 9999}, false: {d: 10000}}

func (k *curve) at(block int) *big.Float {
	k.once.Do(func() {
		const prec = 320
		// 2^(14/d), by Newton's method on x^d = 2^14
		x := new(big.Float).SetPrec(prec).SetFloat64(math.Pow(2, 14/float64(k.d)))
		target := new(big.Float).SetPrec(prec).SetInt64(1 << 14)
		pow := func(b *big.Float, n int64) *big.Float {
			r := new(big.Float).SetPrec(prec).SetInt64(1)
			q := new(big.Float).SetPrec(prec).Set(b)
			for ; n > 0; n >>= 1 {
				if n&1 == 1 {
					r.Mul(r, q)
				}
				q.Mul(q, q)
			}
			return r
		}
		for i := 0; i < 8; i++ {
			f := pow(x, k.d-1)
			num := new(big.Float).SetPrec(prec).Mul(f, x)
			num.Sub(num, target)
			num.Quo(num, f)
			num.Quo(num, new(big.Float).SetPrec(prec).SetInt64(k.d))
			x.Sub(x, num)
		}
		v := new(big.Float).SetPrec(prec).SetInt64(dollar)
		for i := 0; i <= 10000; i++ {
			k.p = append(k.p, new(big.Float).SetPrec(prec).Set(v))
			v.Mul(v, x)
		}
	})
	return k.p[block]
}

// cubicCents is the documented polynomial, times 10^13
func cubic(x int64) *big.Int {
	// y = -41633 - 8.286618*x + 0.00167424*x^2 - 2.654015e-8*x^3
	X := bi(x)
	r := new(big.Int).Mul(bi(-41633), bi(1e14))
	t := new(big.Int).Mul(X, bi(828661800000000))
	r.Sub(r, t)
	t = new(big.Int).Mul(new(big.Int).Mul(X, X), bi(167424000000))
	r.Add(r, t)
	t = new(big.Int).Mul(new(big.Int).Mul(new(big.Int).Mul(X, X), X), bi(2654015))
	r.Sub(r, t)
	return r
}

// methodPrice is the price in nanocents as the documented integer method gives it:
// the price of the last power of 2 sale blocks less one, rounded, times the rounded
// ratio of neighbouring blocks for each of those that follow; then the polynomial's
// terms, each in whole dollars
func methodPrice(block int64, use9999 bool) int64 {
	round := func(f *big.Float) *big.Int {
		i, _ := new(big.Float).SetPrec(400).Add(f, big.NewFloat(0.5)).Int(nil)
		return i
	}
	switch {
	case block <= 10000:
		n := 0
		for n < 13 && int64(2)<<n <= block {
			n++
		}
		k := curves[use9999]
		v := round(k.at(1<<n - 1))
		if !use9999 {
			v, _ = k.at(1<<n - 1).Int(nil) // the earlier prices, which are history, were rounded down
		}
		if block == 0 {
			return dollar
		}
		e := bi(1e15)
		ratio := new(big.Float).SetPrec(320).Quo(k.at(1), k.at(0))
		r := round(ratio.Mul(ratio, new(big.Float).SetInt(e)))
		for i := int64(1)<<n - 1; i < block; i++ {
			v.Quo(v.Mul(v, r), e)
		}
		return v.Int64()
	case block < 30000:
		term := func(f int64, div ...int64) *big.Int {
			v := bi(f)
			for _, d := range div {
				v.Quo(v, bi(d))
			}
			return v
		}
		x := bi(block)
		s := bi(-41633)
		s.Sub(s, term(block*8286618, 1000000))
		s.Add(s, term(block*block*167424, 100000000))
		// the cube in two rounds of 10^7
		t := new(big.Int).Mul(new(big.Int).Mul(x, x), x)
		t.Quo(t, bi(10000000))
		t.Quo(t.Mul(t, bi(2654015)), bi(10000000))
		s.Sub(s, t)
		return s.Mul(s, bi(dollar)).Int64()
	}
	return finalCent * (dollar / 100)
}

func exactPrice(c *engine.Ctx, name string, f func(types.Ndau) (pricecurve.Nanocent, error), n int64) int64 {
	sig := fmt.Sprintf("%s(%d)", name, n)
	var g pricecurve.Nanocent
	var err error
	c.NoPanic(sig, func() { g, err = f(types.Ndau(n)) })
	c.Check(err == nil, sig, "error %v", err)
	return int64(g)
}

// checkPrice compares the price of a block with the documented curves
func checkPrice(c *engine.Ctx, sig string, block int64, use9999 bool, g int64) {
	switch {
	case block <= 10000:
		w := curves[use9999].at(int(block))
		d := new(big.Float).Sub(w, new(big.Float).SetInt64(g))
		d.Quo(d, w)
		r, _ := d.Float64()
		c.Check(math.Abs(r) <= 4e-9, sig, "got %d, want %.2f", g, w)
	case block < 30000:
		d := new(big.Int).Mul(bi(g), bi(1000))
		d.Sub(d, cubic(block))
		lim := new(big.Int).Mul(bi(3), bi(1e14))
		c.Check(d.CmpAbs(lim) <= 0, sig, "got %d, want %v/1000", g, cubic(block))
	default:
		c.Check(g == finalCent*(dollar/100), sig, "got %d, want the final price", g)
	}
}

func refApprox(n int64) float64 {
	b := float64(n/napu) / 1000
	switch {
	case b < 10000:
		return math.Pow(2, b*14/9999)
	case b < 30000:
		return -41633 - 8.286618*b + 0.00167424*b*b - 2.654015e-8*b*b*b
	}
	return 500450.83
}

func near(a, b, rel float64) bool { return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b)) }

// readDollars is the documented form: minus, dollar sign, digits, 2 to 11 decimals,
// with commas and underscores anywhere
func readDollars(s string) (*big.Int, bool) {
	t := strings.TrimSpace(s)
	t = strings.NewReplacer(",", "", "_", "").Replace(t)
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	t = strings.TrimPrefix(t, "$")
	if i := strings.IndexByte(t, '.'); i >= 0 && len(t)-i-1 < 2 {
		return nil, false
	}
	v, ok := readDecimal(t, 11, true)
	if ok && neg {
		v.Neg(v)
	}
	return v, ok
}

func checkDollars(c *engine.Ctx, s string) {
	sig := fmt.Sprintf("ParseDollars(%q)", s)
	var g pricecurve.Nanocent
	var err error
	c.NoPanic(sig, func() { g, err = pricecurve.ParseDollars(s) })
	w, ok := readDollars(s)
	if ok && fitsI(w) {
		c.Check(err == nil && int64(g) == w.Int64(), sig, "got %d, %v, want %v", int64(g), err, w)
	} else {
		c.Check(err != nil && g == 0, sig, "got %d, want an error", int64(g))
	}
}

// refCost is the price of n napu after sold: each part of a sale block at the
// price of its first ndau
func refCost(n, sold int64) float64 {
	t := float64(0)
	for n > 0 {
		part := blockNapu - sold%blockNapu
		if part > n {
			part = n
		}
		t += refApprox(sold) * float64(part) / napu
		n -= part
		sold += part
	}
	return t
}

func checkCost(c *engine.Ctx, n, sold int64) float64 {
	sig := fmt.Sprintf("ApproxTotalPriceFor(%d,%d)", n, sold)
	var g float64
	c.NoPanic(sig, func() { g = pricecurve.ApproxTotalPriceFor(types.Ndau(n), types.Ndau(sold)) })
	w := refCost(n, sold)
	c.Check(near(g, w, 1e-9), sig, "got %v, want %v", g, w)
	return g
}

func init() {
	if constants.QuantaPerUnit != napu {
		panic("the number of napu in an ndau")
	}
	register(&engine.Property{ID: "P01", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			fs := []struct {
				name string
				f    func(types.Ndau) (pricecurve.Nanocent, error)
				k    bool
			}{{"PriceAtUnit", pricecurve.PriceAtUnit, true}, {"PriceAtUnit9999", pricecurve.PriceAtUnit9999, true}, {"PriceAtUnit10000", pricecurve.PriceAtUnit10000, false}}
			hs := []engine.Harness{
				{Name: "blocks", About: "the price of the first and last napu of every sale block 0..30010, compared with the documented curve and the next block's price, by three functions", Body: func(c *engine.Ctx) {
					f := fs[c.Pick(3)]
					b := int64(c.Pick(30011))
					g := exactPrice(c, f.name, f.f, b*blockNapu)
					sig := fmt.Sprintf("%s(block %d)", f.name, b)
					checkPrice(c, sig, b, f.k, g)
					last := exactPrice(c, f.name, f.f, b*blockNapu+blockNapu-1)
					c.Check(last == g, sig, "the last napu costs %d, the first %d", last, g)
					next := exactPrice(c, f.name, f.f, (b+1)*blockNapu)
					if b < 30000 {
						c.Check(next > g, sig, "%d, and then %d", g, next)
					} else {
						c.Check(next == g, sig, "%d, and then %d", g, next)
					}
				}},
				{Name: "method", About: "the price of every sale block 0..30010, by three functions, to the nanocent as the documented integer method gives it from powers of 2 computed to 320 bits", Body: func(c *engine.Ctx) {
					f := fs[c.Pick(3)]
					b := int64(c.Pick(30011))
					g := exactPrice(c, f.name, f.f, b*blockNapu)
					w := methodPrice(b, f.k)
					c.Check(g == w, fmt.Sprintf("%s(block %d) by the method", f.name, b), "got %d, want %d", g, w)
				}},
				{Name: "within", About: "the price of 30 amounts (thorough: 60) within every 16th (4th) sale block and around the phases' ends", Body: func(c *engine.Ctx) {
					step, parts := 16, int64(30)
					if th {
						step, parts = 4, 60
					}
					f := fs[c.Pick(3)]
					k := c.Pick(30010/step + 100)
					b := int64(k * step)
					if k >= 30010/step {
						k -= 30010 / step
						b = []int64{0, 8190, 9950, 10000, 29990}[k%5] + int64(k/5)
					}
					g := exactPrice(c, f.name, f.f, b*blockNapu)
					for i := int64(1); i < parts; i++ {
						n := b*blockNapu + i*blockNapu/parts + []int64{-1, 0, 1}[i%3]
						h := exactPrice(c, f.name, f.f, n)
						c.Check(h == g, fmt.Sprintf("%s(%d)", f.name, n), "got %d, want %d", h, g)
					}
				}},
				{Name: "beyond", About: "every edge amount after the last sale block", Body: func(c *engine.Ctx) {
					f := fs[c.Pick(3)]
					for _, n := range edgesI(3, true) {
						if n >= 30000*blockNapu {
							checkPrice(c, fmt.Sprintf("%s(%d)", f.name, n), n/blockNapu, f.k, exactPrice(c, f.name, f.f, n))
						} else if n >= 0 {
							checkPrice(c, fmt.Sprintf("%s(%d)", f.name, n), n/blockNapu, f.k, exactPrice(c, f.name, f.f, n))
						}
					}
				}},
			}
			return hs
		}})
	register(&engine.Property{ID: "P02", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			step := int64(10)
			if tier == "thorough" {
				step = 1
			}
			// the greatest multiple of 1000 sold at less than this
			var once sync.Once
			var table []float64
			best := func(p float64) int {
				once.Do(func() {
					for b := int64(0); b <= 30000; b++ {
						table = append(table, pricecurve.ApproxPriceAtUnit(types.Ndau(b*blockNapu)))
					}
				})
				lo := 0
				for b := 29999; b > 0; b-- {
					if table[b] < p {
						lo = b
						break
					}
				}
				return lo * 1000
			}
			inverse := func(c *engine.Ctx, p float64) {
				sig := fmt.Sprintf("ApproxUnitAtPrice(%v)", p)
				var g int
				c.NoPanic(sig, func() { g = pricecurve.ApproxUnitAtPrice(p) })
				w := best(p)
				c.Check(g == w, sig, "got %d, want %d", g, w)
			}
			return []engine.Harness{
				{Name: "prices", About: fmt.Sprintf("ApproxPriceAtUnit of every %d ndau sold up to 30,010,000, and with fractions of an ndau more, compared with the documented curve", step), Body: func(c *engine.Ctx) {
					k := int64(c.Pick(30010))
					for i := int64(0); i < 1000; i += step {
						n := (k*1000 + i) * napu
						g := pricecurve.ApproxPriceAtUnit(types.Ndau(n))
						c.Check(near(g, refApprox(n), 1e-9), fmt.Sprintf("ApproxPriceAtUnit(%d)", n), "got %v, want %v", g, refApprox(n))
						h := pricecurve.ApproxPriceAtUnit(types.Ndau(n + napu - 1))
						c.Check(h >= g && near(h, refApprox(n+napu), 2e-3), fmt.Sprintf("ApproxPriceAtUnit(%d)", n+napu-1), "got %v, and %v at the ndau's start", h, g)
					}
				}},
				{Name: "agree", About: "the floating point price at every sale block's start compared with the integer one: within 0.0001 % in phase 1, 0.02 % later", Body: func(c *engine.Ctx) {
					b := int64(c.Pick(30001))
					g := pricecurve.ApproxPriceAtUnit(types.Ndau(b * blockNapu))
					w := float64(exactPrice(c, "PriceAtUnit", pricecurve.PriceAtUnit, b*blockNapu)) / dollar
					tol := 1e-6
					if b >= 10000 {
						tol = 2e-4
					}
					if b == 10000 {
						tol = 1e-3 // the phases meet here
					}
					c.Check(near(g, w, tol), fmt.Sprintf("ApproxPriceAtUnit(%d)", b*blockNapu), "got %v, the integer price is %v", g, w)
				}},
				{Name: "inverse", About: "ApproxUnitAtPrice of every sale block's price, the nearest floating point numbers around it and between it and the next", Body: func(c *engine.Ctx) {
					b := int64(c.Pick(30000))
					p := pricecurve.ApproxPriceAtUnit(types.Ndau(b * blockNapu))
					q := pricecurve.ApproxPriceAtUnit(types.Ndau((b + 1) * blockNapu))
					inverse(c, p)
					inverse(c, math.Nextafter(p, 0))
					inverse(c, math.Nextafter(p, 1e9))
					inverse(c, (p+q)/2)
					inverse(c, p+(q-p)/1000)
				}},
				{Name: "extremes", About: "prices below 1, of 0 and above the last", Body: func(c *engine.Ctx) {
					inverse(c, []float64{0, 1e-300, 0.5, 0.999, 1, 1.0001, 500450.82, 500450.83, 500450, 499000}[c.Pick(10)])
				}},
			}
		}})
	register(&engine.Property{ID: "P03", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			n := int64(48)
			if tier == "thorough" {
				n = 360
			}
			return []engine.Harness{
				{Name: "parts", About: fmt.Sprintf("every amount and number sold before of 0..3 sale blocks in steps of 1/%d block, a napu more or less, at 40 places on the curve", n), Body: func(c *engine.Ctx) {
					base := []int64{0, 1, 500, 9990, 9996, 9997, 9998, 9999, 10000, 10001, 20000, 29990, 29996, 29997, 29998, 29999, 30000, 30001, 40000}[c.Pick(19)]
					s := int64(c.Pick(int(2 * n)))
					a := int64(c.Pick(int(3*n + 1)))
					for ds := int64(-1); ds <= 1; ds++ {
						for da := int64(-1); da <= 1; da++ {
							sold := base*blockNapu + s*blockNapu/n + ds
							amount := a*blockNapu/n + da
							if sold < 0 || amount < 0 {
								continue
							}
							checkCost(c, amount, sold)
						}
					}
				}},
				{Name: "fractions", About: "amounts of 1 napu to 10 ndau, after every small number sold, including across the end of a block", Body: func(c *engine.Ctx) {
					small := []int64{0, 1, 2, 50000000, 99999999, 100000000, 100000001, 150000000, 999999999, 1000000000, 1000000001}
					base := int64(c.Pick(4)) * 5000 * blockNapu
					s := small[c.Pick(len(small))]
					for _, a := range small {
						checkCost(c, a, base+s)
						if base > s {
							checkCost(c, a, base-s)
						}
					}
				}},
				{Name: "split", About: "buying in two parts, the first to a block's end: the same in one and in two; more costs more", Body: func(c *engine.Ctx) {
					s := int64(c.Pick(40))*777*blockNapu + int64(c.Pick(10))*blockNapu/10
					k := int64(c.Pick(30)) * 3
					first := blockNapu - s%blockNapu + k*blockNapu
					prev := -1.0
					for _, a := range []int64{1, napu, blockNapu / 2, blockNapu, 5 * blockNapu / 3, 20 * blockNapu} {
						whole := checkCost(c, first+a, s)
						x := checkCost(c, first, s)
						y := checkCost(c, a, s+first)
						c.Check(near(whole, x+y, 1e-9), fmt.Sprintf("split(%d,%d,%d)", s, first, a), "%v in one, %v in two", whole, x+y)
						c.Check(whole >= prev, fmt.Sprintf("more(%d,%d)", s, first+a), "%v for more, %v for less", whole, prev)
						prev = whole
					}
				}},
				{Name: "large", About: "up to 40,000 sale blocks at once", Body: func(c *engine.Ctx) {
					s := int64(c.Pick(9)) * 5000 * blockNapu
					for _, a := range []int64{999, 1000, 9999, 10000, 10001, 29999, 30000, 40000} {
						checkCost(c, a*blockNapu, s)
						checkCost(c, a*blockNapu+blockNapu/3, s+blockNapu/7)
					}
				}},
			}
		}})
	register(&engine.Property{ID: "P04", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			l := 7
			if tier == "thorough" {
				l = 8
			}
			alpha := []string{"0", "1", "9", ".", "$", "-", ",", "_", " "}
			other := []string{"1", "05", ".", ",", "$", "+", "e", "%", "'", "k", "(", ")"}
			wholes := []string{"", "0", "00", "1", "92233719", "92233720", "92233721", "092233720", "184467440", "184467441", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "000000000000000000000000001", "184467440737", "276701161105643274"}
			fracs := []string{"", ".0", ".00", ".5", ".50", ".36854775806", ".36854775807", ".36854775808", ".36854775809", ".99999999999", ".999999999999", ".00000000001", ".09551616", ".", ".+1", ".1_1", ".,11", ".-11"}
			return []engine.Harness{
				{Name: "texts", About: fmt.Sprintf("every text of up to %d of the characters %q", l, alpha), Body: func(c *engine.Ctx) {
					allWords(c, alpha, l, func(s string) { checkDollars(c, s) })
				}},
				{Name: "notations", About: fmt.Sprintf("every text of up to %d of %q, which other notations of numbers use", l-2, other), Body: func(c *engine.Ctx) {
					allWords(c, other, l-2, func(s string) { checkDollars(c, s) })
				}},
				{Name: "large", About: "numbers around the limits of the types, with fractions, signs and separators", Body: func(c *engine.Ctx) {
					w, f := wholes[c.Pick(len(wholes))], fracs[c.Pick(len(fracs))]
					for _, p := range []string{"", "-", "$", "-$", "$-", "--", "$$", "+", " ", "\t-", "\u00a0$", "_", ",-", "-,$_"} {
						for _, q := range []string{"", " ", "\n", "0", "000", "00000000000", "\u00a0", "_", ",", "%", "-", "e1", "\x00", "\xff"} {
							checkDollars(c, p+w+f+q)
						}
					}
				}},
				{Name: "decimals", About: "every number of 1 to 12 decimals with one digit other than 0", Body: func(c *engine.Ctx) {
					w := wholes[c.Pick(6)]
					for n := 0; n <= 13; n++ {
						for i := 0; i < n; i++ {
							for d := 0; d < 10; d++ {
								f := []byte(strings.Repeat("0", n))
								f[i] = byte('0' + d)
								for _, p := range []string{"", "-", "$", "-$"} {
									checkDollars(c, p+w+"."+string(f))
								}
							}
						}
					}
				}},
				{Name: "bytes", About: "every byte at every place of a few amounts", Body: func(c *engine.Ctx) {
					b := c.Pick(256)
					for _, s := range []string{"", "1", "12.34", "-$0.00000000001", " $5.50 "} {
						for i := 0; i <= len(s); i++ {
							checkDollars(c, s[:i]+string([]byte{byte(b)})+s[i:])
							if i < len(s) {
								checkDollars(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
							}
						}
					}
				}},
			}
		}})
}
