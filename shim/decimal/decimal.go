// Package decimal is a small stand-in for github.com/ericlagergren/decimal,
// whose source is not available offline.  It implements, over math/big, the
// part of that library's API which ndaumath (and ndaumath's tests) uses, with
// the semantics of General Decimal Arithmetic under decimal128: 34 digits of
// precision, round half even.  It is written for clarity, not speed.
package decimal

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Condition is a set of exceptional conditions
type Condition uint32

// The conditions the stand-in can signal
const (
	Inexact Condition = 1 << iota
	Rounded
	DivisionByZero
	DivisionImpossible
	InvalidOperation
)

func (c Condition) Error() string  { return c.String() }
func (c Condition) String() string { return fmt.Sprintf("condition(%d)", uint32(c)) }

// Context is the subset of the library's context which matters here
type Context struct {
	Precision  int
	Conditions Condition
}

// Context128 is decimal128
var Context128 = Context{Precision: 34}

// Context64 is decimal64 and Context32 decimal32
var (
	Context64 = Context{Precision: 16}
	Context32 = Context{Precision: 7}
)

// UnlimitedPrecision is for exact results; MaxPrecision is the largest of the others
const (
	UnlimitedPrecision = -1
	MaxPrecision       = 999999999
)

const defaultPrecision = 16

// Big is coef * 10^exp, or a NaN
type Big struct {
	Context Context
	coef    big.Int
	exp     int
	nan     bool
}

// WithContext makes a zero with the given context
func WithContext(c Context) *Big { return &Big{Context: c} }

// New makes value * 10^-scale
func New(value int64, scale int) *Big { return new(Big).SetMantScale(value, scale) }

func (x *Big) prec() int {
	if x.Context.Precision == 0 {
		return defaultPrecision
	}
	return x.Context.Precision
}

// SetMantScale sets x to value * 10^-scale
func (x *Big) SetMantScale(value int64, scale int) *Big {
	x.nan = false
	x.coef.SetInt64(value)
	x.exp = -scale
	return x
}

// SetUint64 sets x
func (x *Big) SetUint64(v uint64) *Big {
	x.nan = false
	x.coef.SetUint64(v)
	x.exp = 0
	return x
}

// SetBigMantScale sets x
func (x *Big) SetBigMantScale(v *big.Int, scale int) *Big {
	x.nan = false
	x.coef.Set(v)
	x.exp = -scale
	return x
}

// SetString parses a plain decimal number
func (x *Big) SetString(s string) (*Big, bool) {
	t := s
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimLeft(t, "+-")
	scale := 0
	if i := strings.IndexByte(t, '.'); i >= 0 {
		scale = len(t) - i - 1
		t = t[:i] + t[i+1:]
	}
	var v big.Int
	if _, ok := v.SetString(t, 10); !ok {
		x.setNaN(InvalidOperation)
		return nil, false
	}
	if neg {
		v.Neg(&v)
	}
	x.SetBigMantScale(&v, scale)
	return x.round(), true
}

// Copy sets x to y
func (x *Big) Copy(y *Big) *Big { return x.Set(y) }

// Set sets x to y
func (x *Big) Set(y *Big) *Big {
	if x != y {
		x.coef.Set(&y.coef)
		x.exp, x.nan = y.exp, y.nan
	}
	return x.round()
}

func (x *Big) setNaN(c Condition) *Big {
	x.nan = true
	x.coef.SetInt64(0)
	x.exp = 0
	x.Context.Conditions |= c
	return x
}

func pow10(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

func digits(v *big.Int) int {
	if v.Sign() == 0 {
		return 1
	}
	return len(new(big.Int).Abs(v).String())
}

// divHalfEven is a/b rounded half to even (b > 0)
func divHalfEven(a, b *big.Int) (*big.Int, bool) {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() == 0 {
		return q, true
	}
	r2 := new(big.Int).Abs(r)
	r2.Lsh(r2, 1)
	c := r2.Cmp(b)
	if c > 0 || c == 0 && q.Bit(0) == 1 {
		if a.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		} else {
			q.Add(q, big.NewInt(1))
		}
	}
	return q, false
}

func (x *Big) round() *Big {
	if x.prec() < 0 {
		return x
	}
	if x.nan {
		return x
	}
	for d := digits(&x.coef) - x.prec(); d > 0; d = digits(&x.coef) - x.prec() {
		q, exact := divHalfEven(&x.coef, pow10(d))
		x.coef.Set(q)
		x.exp += d
		x.Context.Conditions |= Rounded
		if !exact {
			x.Context.Conditions |= Inexact
		}
	}
	return x
}

// align gives both coefficients at the smaller exponent
func align(a, b *Big) (*big.Int, *big.Int, int) {
	e := a.exp
	if b.exp < e {
		e = b.exp
	}
	return new(big.Int).Mul(&a.coef, pow10(a.exp-e)), new(big.Int).Mul(&b.coef, pow10(b.exp-e)), e
}

// Add sets z = x + y
func (z *Big) Add(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	a, b, e := align(x, y)
	z.nan = false
	z.coef.Add(a, b)
	z.exp = e
	return z.round()
}

// Sub sets z = x - y
func (z *Big) Sub(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	a, b, e := align(x, y)
	z.nan = false
	z.coef.Sub(a, b)
	z.exp = e
	return z.round()
}

// Mul sets z = x * y
func (z *Big) Mul(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	v := new(big.Int).Mul(&x.coef, &y.coef)
	e := x.exp + y.exp
	z.nan = false
	z.coef.Set(v)
	z.exp = e
	return z.round()
}

// Quo sets z = x / y
func (z *Big) Quo(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	if y.coef.Sign() == 0 {
		return z.setNaN(DivisionByZero)
	}
	p := z.prec()
	if p < 0 {
		p = 200
	}
	// scale so that the integer quotient has more than p digits
	shift := p + 3 + digits(&y.coef) - digits(&x.coef)
	if shift < 0 {
		shift = 0
	}
	n := new(big.Int).Mul(&x.coef, pow10(shift))
	d := new(big.Int).Set(&y.coef)
	if d.Sign() < 0 {
		n.Neg(n)
		d.Neg(d)
	}
	e := x.exp - y.exp - shift
	q, r := new(big.Int).QuoRem(n, d, new(big.Int))
	if r.Sign() != 0 { // sticky digit
		q.Mul(q, big.NewInt(10))
		if n.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		} else {
			q.Add(q, big.NewInt(1))
		}
		e--
	}
	z.nan = false
	z.coef.Set(q)
	z.exp = e
	return z.round()
}

func (z *Big) quorem(x, y *Big) (q, r *big.Int, e int, c Condition) {
	if y.coef.Sign() == 0 {
		return nil, nil, 0, DivisionByZero
	}
	a, b, e := align(x, y)
	q, r = new(big.Int).QuoRem(a, b, new(big.Int))
	if z.prec() >= 0 && digits(q) > z.prec() {
		return nil, nil, 0, DivisionImpossible
	}
	return q, r, e, 0
}

// QuoInt sets z to the integer part of x / y
func (z *Big) QuoInt(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	q, _, _, c := z.quorem(x, y)
	if c != 0 {
		return z.setNaN(c)
	}
	z.nan = false
	z.coef.Set(q)
	z.exp = 0
	return z
}

// Rem sets z to the remainder of x / y (sign of x)
func (z *Big) Rem(x, y *Big) *Big {
	if x.nan || y.nan {
		return z.setNaN(0)
	}
	_, r, e, c := z.quorem(x, y)
	if c != 0 {
		return z.setNaN(c)
	}
	z.nan = false
	z.coef.Set(r)
	z.exp = e
	return z.round()
}

// QuoRem sets z to the quotient and r to the remainder
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if x.nan || y.nan {
		return z.setNaN(0), r.setNaN(0)
	}
	q, rem, e, c := z.quorem(x, y)
	if c != 0 {
		return z.setNaN(c), r.setNaN(c)
	}
	z.nan, r.nan = false, false
	z.coef.Set(q)
	z.exp = 0
	r.coef.Set(rem)
	r.exp = e
	r.round()
	return z, r
}

// integer returns the truncated integer value
func (x *Big) integer() *big.Int {
	if x.exp >= 0 {
		return new(big.Int).Mul(&x.coef, pow10(x.exp))
	}
	return new(big.Int).Quo(&x.coef, pow10(-x.exp))
}

// Int64 returns x truncated, and whether it fits
func (x *Big) Int64() (int64, bool) {
	if x.nan {
		return 0, false
	}
	v := x.integer()
	return v.Int64(), v.IsInt64()
}

// Uint64 returns x truncated, and whether it fits
func (x *Big) Uint64() (uint64, bool) {
	if x.nan {
		return 0, false
	}
	v := x.integer()
	return v.Uint64(), v.IsUint64()
}

// RoundToInt rounds half to even to an integer
func (x *Big) RoundToInt() *Big {
	if x.nan || x.exp >= 0 {
		return x
	}
	q, _ := divHalfEven(&x.coef, pow10(-x.exp))
	x.coef.Set(q)
	x.exp = 0
	return x
}

// Cmp compares
func (x *Big) Cmp(y *Big) int {
	if x.nan || y.nan {
		return 0
	}
	a, b, _ := align(x, y)
	return a.Cmp(b)
}

// Sign returns the sign
func (x *Big) Sign() int { return x.coef.Sign() }

// Float64 converts
func (x *Big) Float64() (float64, bool) {
	if x.nan {
		return math.NaN(), false
	}
	f, ok := x.Rat().Float64()
	return f, ok
}

// Rat is the exact value
func (x *Big) Rat() *big.Rat {
	if x.exp >= 0 {
		return new(big.Rat).SetInt(x.integer())
	}
	return new(big.Rat).SetFrac(&x.coef, pow10(-x.exp))
}

// ErrNaN reports that the value is not a number
var ErrNaN = errors.New("decimal: not a number")

func (x *Big) String() string {
	if x.nan {
		return "NaN"
	}
	if x.exp >= 0 {
		return x.integer().String()
	}
	return x.Rat().FloatString(-x.exp)
}

// Format makes %s, %v, %d etc. print the value
func (x *Big) Format(s fmt.State, c rune) { fmt.Fprint(s, x.String()) }

// WithPrecision makes a zero with the given precision
func WithPrecision(p int) *Big { return &Big{Context: Context{Precision: p}} }

// IsNaN tells whether x is a NaN
func (x *Big) IsNaN(int) bool { return x.nan }

// IsFinite tells whether x is a number
func (x *Big) IsFinite() bool { return !x.nan }

// IsInf is never true here
func (x *Big) IsInf(int) bool { return false }

// Signbit tells whether x is negative
func (x *Big) Signbit() bool { return x.coef.Sign() < 0 }

// IsInt tells whether x is an integer
func (x *Big) IsInt() bool {
	if x.nan {
		return false
	}
	return x.Rat().IsInt()
}

// Neg sets z to -x
func (z *Big) Neg(x *Big) *Big {
	z.Set(x)
	z.coef.Neg(&z.coef)
	return z
}

// Abs sets z to |x|
func (z *Big) Abs(x *Big) *Big {
	z.Set(x)
	z.coef.Abs(&z.coef)
	return z
}

// CmpAbs compares |x| and |y|
func (x *Big) CmpAbs(y *Big) int {
	return WithPrecision(UnlimitedPrecision).Abs(x).Cmp(WithPrecision(UnlimitedPrecision).Abs(y))
}

// Int sets z, or a new one, to the integer part of x
func (x *Big) Int(z *big.Int) *big.Int {
	if z == nil {
		z = new(big.Int)
	}
	if v := x.integer(); v != nil {
		z.Set(v)
	}
	return z
}

// IsUint64 and IsInt64 tell whether x can be had as such
func (x *Big) IsInt64() bool { _, ok := x.Int64(); return ok && x.IsInt() }

// IsUint64 tells whether x is a uint64
func (x *Big) IsUint64() bool { _, ok := x.Uint64(); return ok && x.IsInt() }
