package main

import (
	"math/big"
	"sort"
	"sync"
)

var (
	maxI64 = new(big.Int).SetInt64(1<<63 - 1)
	minI64 = new(big.Int).SetInt64(-1 << 63)
	maxU64 = new(big.Int).SetUint64(1<<64 - 1)
)

func bi(x int64) *big.Int  { return big.NewInt(x) }
func bu(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// edges are the numbers around powers of 2 and 10, roots of the largest
// numbers and the smallest numbers, up to max
func edges(max *big.Int, small int, wide bool) []*big.Int {
	m := map[string]*big.Int{}
	put := func(x *big.Int) {
		if x.Sign() >= 0 && x.Cmp(max) <= 0 {
			m[x.String()] = x
		}
	}
	near := func(x *big.Int, d int64) {
		for i := -d; i <= d; i++ {
			put(new(big.Int).Add(x, bi(i)))
		}
	}
	for i := 0; i <= small; i++ {
		put(bi(int64(i)))
	}
	for k := uint(0); k <= 64; k++ {
		near(new(big.Int).Lsh(bi(1), k), 2)
		if wide {
			for l := uint(0); l < k; l++ {
				put(new(big.Int).Add(new(big.Int).Lsh(bi(1), k), new(big.Int).Lsh(bi(1), l)))
				put(new(big.Int).Sub(new(big.Int).Lsh(bi(1), k), new(big.Int).Lsh(bi(1), l)))
			}
		}
	}
	p := bi(1)
	for k := 0; k <= 19; k++ {
		near(p, 1)
		for _, f := range []int64{2, 3, 5, 7, 9} {
			near(new(big.Int).Mul(p, bi(f)), 0)
		}
		p = new(big.Int).Mul(p, bi(10))
	}
	for _, x := range []*big.Int{maxI64, maxU64} {
		near(x, 3)
		near(new(big.Int).Sqrt(x), 1)
		near(new(big.Int).Quo(x, bi(3)), 1)
		near(new(big.Int).Quo(x, bi(10)), 1)
		near(new(big.Int).Quo(x, bi(7)), 0)
		near(new(big.Int).Quo(x, bi(1e12)), 1)
	}
	out := make([]*big.Int, 0, len(m))
	for _, x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

func edgesI(small int, wide bool) []int64 {
	var out []int64
	for _, x := range edges(maxI64, small, wide) {
		v := x.Int64()
		out = append(out, v)
		if v != 0 {
			out = append(out, -v)
		}
	}
	out = append(out, -1<<63)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func edgesU(small int, wide bool) []uint64 {
	var out []uint64
	for _, x := range edges(maxU64, small, wide) {
		out = append(out, x.Uint64())
	}
	return out
}

func fitsI(x *big.Int) bool { return x.Cmp(minI64) >= 0 && x.Cmp(maxI64) <= 0 }
func fitsU(x *big.Int) bool { return x.Sign() >= 0 && x.Cmp(maxU64) <= 0 }

// expBig is e^(n/d) to about 200 bits, from its series
func expBig(n, d *big.Int) *big.Float {
	const prec = 256
	x := new(big.Float).SetPrec(prec).Quo(new(big.Float).SetPrec(prec).SetInt(n), new(big.Float).SetPrec(prec).SetInt(d))
	// e^x = (e^(x/2^16))^(2^16)
	y := new(big.Float).SetPrec(prec).SetMantExp(x, -16)
	sum := new(big.Float).SetPrec(prec).SetInt64(1)
	term := new(big.Float).SetPrec(prec).SetInt64(1)
	for i := int64(1); i < 40; i++ {
		term.Mul(term, y)
		term.Quo(term, new(big.Float).SetPrec(prec).SetInt64(i))
		sum.Add(sum, term)
	}
	for i := 0; i < 16; i++ {
		sum.Mul(sum, sum)
	}
	return sum
}

// someI is every nth of them, and the first and last ones
func someI(x []int64, n int) []int64 {
	var out []int64
	for i, v := range x {
		if i < 4 || i >= len(x)-4 || i%n == 0 {
			out = append(out, v)
		}
	}
	return out
}

type cache struct {
	mu sync.RWMutex
	m  map[string]*big.Float
}

func newCache() *cache { return &cache{m: map[string]*big.Float{}} }

func (c *cache) get(k string) *big.Float {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.m[k]
}

func (c *cache) put(k string, f *big.Float) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.m) < 1<<20 {
		c.m[k] = f
	}
}
