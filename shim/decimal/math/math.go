// Package math stands in for github.com/ericlagergren/decimal/math
package math

import (
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Exp sets z = e^x, correct to z's precision
func Exp(z, x *decimal.Big) *decimal.Big {
	const scaleDigits = 80
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(scaleDigits), nil)
	r := x.Rat()
	neg := r.Sign() < 0
	r = new(big.Rat).Abs(r)
	// reduce by halving until < 1/16, then square back
	k := 0
	for r.Cmp(big.NewRat(1, 16)) > 0 {
		r.Quo(r, big.NewRat(2, 1))
		k++
	}
	f := new(big.Int).Mul(r.Num(), one)
	f.Quo(f, r.Denom())
	sum := new(big.Int).Set(one)
	term := new(big.Int).Set(one)
	for i := int64(1); term.Sign() != 0; i++ {
		term.Mul(term, f)
		term.Quo(term, one)
		term.Quo(term, big.NewInt(i))
		sum.Add(sum, term)
	}
	for ; k > 0; k-- {
		sum.Mul(sum, sum)
		sum.Quo(sum, one)
	}
	if neg {
		sum.Quo(new(big.Int).Mul(one, one), sum)
	}
	z.SetBigMantScale(sum, scaleDigits)
	return z.Set(z)
}
