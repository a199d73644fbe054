package main

import (
	"fmt"
	"math/big"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"verif/mc/engine"
)

// want is the exact result, nil if the divisor is zero
func checkOne(c *engine.Ctx, name func() string, got *big.Int, err error, want *big.Int, fits bool) {
	c.Step()
	switch {
	case want == nil:
		if err != ndauerr.ErrDivideByZero || got.Sign() != 0 {
			c.Fail(name(), "got %v, %v, want a divide by zero error", got, err)
		}
	case fits:
		if err != nil || got.Cmp(want) != 0 {
			c.Fail(name(), "got %v, %v, want %v", got, err, want)
		}
	default:
		if err == nil || err == ndauerr.ErrDivideByZero || got.Sign() != 0 {
			c.Fail(name(), "got %v, %v, want an overflow error, for the result is %v", got, err, want)
		}
	}
}

// signedPair checks all two operand functions
func signedPair(c *engine.Ctx, a, b int64) {
	A, B := bi(a), bi(b)
	r := new(big.Int)
	one := func(op string, got int64, err error, want *big.Int) {
		checkOne(c, func() string { return fmt.Sprintf("signed.%s(%d,%d)", op, a, b) }, bi(got), err, want, want != nil && fitsI(want))
	}
	g, err := signed.Add(a, b)
	one("Add", g, err, r.Add(A, B))
	g, err = signed.Sub(a, b)
	one("Sub", g, err, r.Sub(A, B))
	g, err = signed.Mul(a, b)
	one("Mul", g, err, r.Mul(A, B))
	var q, m *big.Int
	if b != 0 {
		q, m = new(big.Int).QuoRem(A, B, new(big.Int))
	}
	g, err = signed.Div(a, b)
	one("Div", g, err, q)
	g, err = signed.Mod(a, b)
	one("Mod", g, err, m)
	g, h, err := signed.DivMod(a, b)
	one("DivMod", g, err, q)
	if q != nil && !fitsI(q) {
		m = q
	}
	one("DivMod", h, err, m)
}

func signedTriple(c *engine.Ctx, a, n, d int64, an *big.Int) {
	g, err := signed.MulDiv(a, n, d)
	var want *big.Int
	if d != 0 {
		want = new(big.Int).Quo(an, bi(d))
	}
	checkOne(c, func() string { return fmt.Sprintf("signed.MulDiv(%d,%d,%d)", a, n, d) }, bi(g), err, want, want != nil && fitsI(want))
}

func unsignedPair(c *engine.Ctx, a, b uint64) {
	A, B := bu(a), bu(b)
	r := new(big.Int)
	one := func(op string, got uint64, err error, want *big.Int) {
		checkOne(c, func() string { return fmt.Sprintf("unsigned.%s(%d,%d)", op, a, b) }, bu(got), err, want, want != nil && fitsU(want))
	}
	g, err := unsigned.Add(a, b)
	one("Add", g, err, r.Add(A, B))
	g, err = unsigned.Sub(a, b)
	one("Sub", g, err, r.Sub(A, B))
	g, err = unsigned.Mul(a, b)
	one("Mul", g, err, r.Mul(A, B))
	var q, m *big.Int
	if b != 0 {
		q, m = new(big.Int).QuoRem(A, B, new(big.Int))
	}
	g, err = unsigned.Div(a, b)
	one("Div", g, err, q)
	g, err = unsigned.Mod(a, b)
	one("Mod", g, err, m)
	g, h, err := unsigned.DivMod(a, b)
	one("DivMod", g, err, q)
	one("DivMod", h, err, m)
}

func unsignedTriple(c *engine.Ctx, a, n, d uint64, an *big.Int) {
	g, err := unsigned.MulDiv(a, n, d)
	var want *big.Int
	if d != 0 {
		want = new(big.Int).Quo(an, bu(d))
	}
	checkOne(c, func() string { return fmt.Sprintf("unsigned.MulDiv(%d,%d,%d)", a, n, d) }, bu(g), err, want, want != nil && fitsU(want))
}

// expReach is the bound on the distance from the exact value: every term of
// the series is cut off at a tenth of a unit
const expReach = 3

// checkExp compares with the exact value; it returns the result, -1 for an error
func checkExp(c *engine.Ctx, pkg string, n, d, got *big.Int, err error, mayFail bool) {
	c.Step()
	name := fmt.Sprintf("%s.ExpFrac(%v,%v)", pkg, n, d)
	if err != nil {
		if !mayFail {
			c.Fail(name, "error %v", err)
		}
		return
	}
	w := expBig(n, d)
	w.Mul(w, new(big.Float).SetPrec(256).SetInt(d))
	diff := new(big.Float).Sub(w, new(big.Float).SetPrec(256).SetInt(got))
	f, _ := diff.Float64()
	if f > expReach || f < -expReach {
		c.Fail(name, "got %v, which is %g from the exact %s", got, -f, w.Text('f', 3))
	}
}

func signedExp(c *engine.Ctx, n, d int64, mayFail bool) (g int64) {
	c.NoPanic(fmt.Sprintf("signed.ExpFrac(%v,%v)", n, d), func() {
		var err error
		g, err = signed.ExpFrac(n, d)
		checkExp(c, "signed", bi(n), bi(d), bi(g), err, mayFail)
	})
	return g
}

func unsignedExp(c *engine.Ctx, n, d uint64, mayFail bool) (g uint64) {
	c.NoPanic(fmt.Sprintf("unsigned.ExpFrac(%v,%v)", n, d), func() {
		var err error
		g, err = unsigned.ExpFrac(n, d)
		checkExp(c, "unsigned", bu(n), bu(d), bu(g), err, mayFail)
	})
	return g
}

// expSafe is the largest denominator which has to be accepted: "the practical
// limit for denominator is maxint32 / 10", and eai uses 10^12
const expSafe = 100000000000000000

// fractions of d
func numerators(d *big.Int, parts int64) []*big.Int {
	var out []*big.Int
	last := bi(-1)
	for i := int64(0); i <= parts; i++ {
		x := new(big.Int).Quo(new(big.Int).Mul(d, bi(i)), bi(parts))
		for j := int64(-1); j <= 1; j++ {
			y := new(big.Int).Add(x, bi(j))
			if y.Cmp(last) > 0 && y.Sign() >= 0 && y.Cmp(d) <= 0 {
				out = append(out, y)
				last = y
			}
		}
	}
	return out
}

func init() {
	register(&engine.Property{ID: "A01", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does (General Decimal Arithmetic, decimal128 by default)"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			small, tri, n, sm, wide := edgesI(20, false), someI(edgesI(2, false), 3), int64(700), int64(60), edgesI(20, th)
			if th {
				n, sm, tri = 2500, 130, someI(edgesI(12, false), 1)
			}
			return []engine.Harness{
				{Name: "small-pairs", About: fmt.Sprintf("Add, Sub, Mul, Div, Mod and DivMod of every pair of numbers from %d to %d", -n, n), Body: func(c *engine.Ctx) {
					a := int64(c.Pick(int(2*n+1))) - n
					c.NoPanic(fmt.Sprintf("signed:%d", a), func() {
						for b := -n; b <= n; b++ {
							signedPair(c, a, b)
						}
					})
					c.Logf("%d with every second operand", a)
				}},
				{Name: "edge-pairs", About: fmt.Sprintf("the same of every pair of %d numbers (around the powers of 2 and 10, their multiples, sums and differences, roots and parts of the largest ones) with %d", len(wide), len(small)), Body: func(c *engine.Ctx) {
					a := wide[c.Pick(len(wide))]
					c.NoPanic(fmt.Sprintf("signed:%d", a), func() {
						for _, b := range small {
							signedPair(c, a, b)
							signedPair(c, b, a)
						}
					})
					c.Logf("%d with every second operand", a)
				}},
				{Name: "small-triples", About: fmt.Sprintf("MulDiv of all numbers from %d to %d", -sm, sm), Body: func(c *engine.Ctx) {
					a := int64(c.Pick(int(2*sm+1))) - sm
					c.NoPanic(fmt.Sprintf("signed.MulDiv:%d", a), func() {
						for b := -sm; b <= sm; b++ {
							ab := bi(a * b)
							for d := -sm; d <= sm; d++ {
								signedTriple(c, a, b, d, ab)
							}
						}
					})
				}},
				{Name: "edge-triples", About: fmt.Sprintf("MulDiv of every three of %d numbers of these kinds", len(tri)), Body: func(c *engine.Ctx) {
					a, b := tri[c.Pick(len(tri))], tri[c.Pick(len(tri))]
					ab := new(big.Int).Mul(bi(a), bi(b))
					c.NoPanic(fmt.Sprintf("signed.MulDiv:%d,%d", a, b), func() {
						for _, d := range tri {
							signedTriple(c, a, b, d, ab)
						}
					})
				}},
			}
		}})
	register(&engine.Property{ID: "A02", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does (General Decimal Arithmetic, decimal128 by default)"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			small, tri, n, sm, wide := edgesU(40, false), edgesU(6, false), uint64(1200), uint64(120), edgesU(40, true)
			if th {
				n, sm, tri = 4000, 260, edgesU(40, false)
			}
			return []engine.Harness{
				{Name: "small-pairs", About: fmt.Sprintf("Add, Sub, Mul, Div, Mod and DivMod of every pair of numbers up to %d", n), Body: func(c *engine.Ctx) {
					a := uint64(c.Pick(int(n + 1)))
					c.NoPanic(fmt.Sprintf("unsigned:%d", a), func() {
						for b := uint64(0); b <= n; b++ {
							unsignedPair(c, a, b)
						}
					})
				}},
				{Name: "edge-pairs", About: fmt.Sprintf("the same of every pair of %d numbers (around the powers of 2 and 10, their multiples, sums and differences, roots and parts of the largest ones) with %d", len(wide), len(small)), Body: func(c *engine.Ctx) {
					a := wide[c.Pick(len(wide))]
					c.NoPanic(fmt.Sprintf("unsigned:%d", a), func() {
						for _, b := range small {
							unsignedPair(c, a, b)
							unsignedPair(c, b, a)
						}
					})
				}},
				{Name: "small-triples", About: fmt.Sprintf("MulDiv of all numbers up to %d", sm), Body: func(c *engine.Ctx) {
					a := uint64(c.Pick(int(sm + 1)))
					c.NoPanic(fmt.Sprintf("unsigned.MulDiv:%d", a), func() {
						for b := uint64(0); b <= sm; b++ {
							ab := bu(a * b)
							for d := uint64(0); d <= sm; d++ {
								unsignedTriple(c, a, b, d, ab)
							}
						}
					})
				}},
				{Name: "edge-triples", About: fmt.Sprintf("MulDiv of every three of %d numbers of these kinds", len(tri)), Body: func(c *engine.Ctx) {
					a, b := tri[c.Pick(len(tri))], tri[c.Pick(len(tri))]
					ab := new(big.Int).Mul(bu(a), bu(b))
					c.NoPanic(fmt.Sprintf("unsigned.MulDiv:%d,%d", a, b), func() {
						for _, d := range tri {
							unsignedTriple(c, a, b, d, ab)
						}
					})
				}},
			}
		}})
	register(&engine.Property{ID: "A03", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Assume: []string{"the decimal library behaves as the stand-in for it in shim/decimal does"},
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			n, parts := int64(400), int64(60)
			if th {
				n, parts = 1500, 1000
			}
			var dens []*big.Int
			for _, x := range edges(maxU64, 0, false) {
				if x.Cmp(bi(n)) > 0 {
					dens = append(dens, x)
				}
			}
			// where an intermediate result may pass the limit
			var lim []*big.Int
			qs := int64(160)
			if th {
				qs = 1000
			}
			have := map[string]bool{}
			put := func(x *big.Int) {
				if x.Cmp(bi(n)) > 0 && !have[x.String()] && fitsU(x) {
					have[x.String()] = true
					lim = append(lim, x)
				}
			}
			for _, x := range edges(maxU64, 0, true) {
				put(x)
			}
			for q := int64(1); q <= qs; q++ {
				for _, m := range []*big.Int{maxI64, maxU64} {
					x := new(big.Int).Quo(m, bi(q))
					for j := int64(-1); j <= 1; j++ {
						put(new(big.Int).Add(x, bi(j)))
					}
				}
			}
			return []engine.Harness{
				{Name: "small", About: fmt.Sprintf("every fraction with a denominator up to %d, in order of the numerator", n), Body: func(c *engine.Ctx) {
					d := int64(c.Pick(int(n))) + 1
					ls, lu := int64(0), uint64(0)
					for i := int64(0); i <= d; i++ {
						s := signedExp(c, i, d, false)
						u := unsignedExp(c, uint64(i), uint64(d), false)
						c.Check(s >= ls && u >= lu, fmt.Sprintf("ExpFrac(%d,%d):decreasing", i, d), "got %d and %d after %d and %d for the next smaller numerator", s, u, ls, lu)
						ls, lu = s, u
					}
					c.Check(signedZero(d) && unsignedZero(uint64(d)), fmt.Sprintf("ExpFrac(0,%d)", d), "e^0 is not 1")
				}},
				{Name: "edges", About: fmt.Sprintf("%d denominators around powers of 2 and 10 and other large numbers, numerators in %d steps and at their neighbours, in order", len(dens), parts), Body: func(c *engine.Ctx) {
					d := dens[c.Pick(len(dens))]
					may := d.Cmp(bi(expSafe)) > 0
					ls, lu := int64(0), uint64(0)
					for _, i := range numerators(d, parts) {
						if d.IsInt64() {
							s := signedExp(c, i.Int64(), d.Int64(), may)
							c.Check(s >= ls || s == 0 && may, fmt.Sprintf("signed.ExpFrac(%d,%d):decreasing", i, d), "got %d after %d for a smaller numerator", s, ls)
							ls = s
						}
						u := unsignedExp(c, i.Uint64(), d.Uint64(), may)
						c.Check(u >= lu || u == 0 && may, fmt.Sprintf("unsigned.ExpFrac(%d,%d):decreasing", i, d), "got %d after %d for a smaller numerator", u, lu)
						lu = u
					}
				}},
				{Name: "limits", About: fmt.Sprintf("%d more denominators, of two bits and the fractions 1/q of the largest numbers, q to %d: numerators in %d steps and at their neighbours", len(lim), qs, parts/10), Body: func(c *engine.Ctx) {
					d := lim[c.Pick(len(lim))]
					may := d.Cmp(bi(expSafe)) > 0
					for _, i := range numerators(d, parts/10) {
						if d.IsInt64() {
							signedExp(c, i.Int64(), d.Int64(), may)
						}
						unsignedExp(c, i.Uint64(), d.Uint64(), may)
					}
				}},
				{Name: "refused", About: "numerators above the denominator and negative numbers are errors, at every edge", Body: func(c *engine.Ctx) {
					es := edgesI(5, false)
					d := es[c.Pick(len(es))]
					for _, n := range es {
						if d == 0 || 0 <= n && n <= d {
							continue
						}
						n := n
						c.NoPanic(fmt.Sprintf("signed.ExpFrac(%d,%d)", n, d), func() {
							g, err := signed.ExpFrac(n, d)
							c.Check(err != nil && g == 0, fmt.Sprintf("signed.ExpFrac(%d,%d)", n, d), "got %d, no error", g)
						})
					}
					eu := edgesU(5, false)
					ud := uint64(d)
					for _, n := range eu {
						if ud == 0 || n <= ud {
							continue
						}
						n := n
						c.NoPanic(fmt.Sprintf("unsigned.ExpFrac(%d,%d)", n, ud), func() {
							g, err := unsigned.ExpFrac(n, ud)
							c.Check(err != nil && g == 0, fmt.Sprintf("unsigned.ExpFrac(%d,%d)", n, ud), "got %d, no error", g)
						})
					}
				}},
			}
		}})
	register(&engine.Property{ID: "A04", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			lim := uint64(1 << 22)
			if tier == "thorough" {
				lim = 1 << 28
			}
			// lnBounds[i] is the largest number whose logarithm is below i
			var lnBounds []uint64
			for i := int64(0); i < 45; i++ {
				f := expBig(bi(i), bi(1))
				x, _ := f.Int(nil)
				if i == 0 {
					x = bi(0)
				}
				lnBounds = append(lnBounds, x.Uint64())
			}
			ref := func(x uint64) int {
				for i := 44; i >= 0; i-- {
					if x > lnBounds[i] {
						return i
					}
				}
				return -1
			}
			one := func(c *engine.Ctx, x uint64) {
				g := -99
				c.NoPanic(fmt.Sprintf("LnInt(%d)", x), func() { g = unsigned.LnInt(x) })
				c.Check(g == ref(x), fmt.Sprintf("LnInt(%d)", x), "got %d, want %d", g, ref(x))
			}
			return []engine.Harness{
				{Name: "small", About: fmt.Sprintf("every number up to %d", lim), Body: func(c *engine.Ctx) {
					b := uint64(c.Pick(1024))
					for x := b * (lim / 1024); x < (b+1)*(lim/1024); x++ {
						if x > 0 {
							one(c, x)
						}
					}
				}},
				{Name: "bounds", About: "2000 numbers on either side of every power of e, and the edges", Body: func(c *engine.Ctx) {
					i := c.Pick(45)
					for d := uint64(0); d < 2000; d++ {
						one(c, lnBounds[i]+1+d)
						if lnBounds[i] > d {
							one(c, lnBounds[i]-d)
						}
					}
					if i == 0 {
						for _, x := range edgesU(20, true) {
							if x > 0 {
								one(c, x)
							}
						}
					}
				}},
			}
		}})
}

func signedZero(d int64) bool {
	g, err := signed.ExpFrac(0, d)
	return err == nil && g == d
}

func unsignedZero(d uint64) bool {
	g, err := unsigned.ExpFrac(0, d)
	return err == nil && g == d
}
