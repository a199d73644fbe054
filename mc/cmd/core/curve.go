package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sync"
)

// ---- secp256k1 with big integers, from its definition (SEC 2) ----

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	curveP = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	curveN = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	curveG = point{
		hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
	}
)

// point is affine; nil coordinates are the point at infinity
type point struct{ x, y *big.Int }

func modP(v *big.Int) *big.Int { return v.Mod(v, curveP) }

func addPoints(a, b point) point {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return point{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		l.Mul(l, d.ModInverse(modP(d), curveP))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		l.Mul(l, d.ModInverse(modP(d), curveP))
	}
	modP(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x)
	modP(x)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y)
	modP(y)
	return point{x, y}
}

// jac is a point in Jacobian coordinates (z nil: infinity)
type jac struct{ x, y, z *big.Int }

// addAffine adds an affine point (neither infinity nor equal to ±j: falls back if so)
func (j jac) addAffine(b point) jac {
	if j.z == nil {
		return jac{b.x, b.y, big.NewInt(1)}
	}
	zz := modP(new(big.Int).Mul(j.z, j.z))
	u2 := modP(new(big.Int).Mul(b.x, zz))
	s2 := modP(new(big.Int).Mul(modP(new(big.Int).Mul(b.y, j.z)), zz))
	h := modP(new(big.Int).Sub(u2, j.x))
	r := modP(new(big.Int).Sub(s2, j.y))
	if h.Sign() == 0 {
		p := addPoints(j.affine(), b)
		if p.x == nil {
			return jac{}
		}
		return jac{p.x, p.y, big.NewInt(1)}
	}
	hh := modP(new(big.Int).Mul(h, h))
	hhh := modP(new(big.Int).Mul(hh, h))
	v := modP(new(big.Int).Mul(j.x, hh))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, hhh).Sub(x, v).Sub(x, v)
	modP(x)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r).Sub(y, new(big.Int).Mul(j.y, hhh))
	modP(y)
	return jac{x, y, modP(new(big.Int).Mul(j.z, h))}
}

func (j jac) affine() point {
	if j.z == nil || j.z.Sign() == 0 {
		return point{}
	}
	zi := new(big.Int).ModInverse(j.z, curveP)
	zz := modP(new(big.Int).Mul(zi, zi))
	return point{
		modP(new(big.Int).Mul(j.x, zz)),
		modP(new(big.Int).Mul(modP(new(big.Int).Mul(j.y, zz)), zi)),
	}
}

// doubles of a point: p, 2p, 4p, ...
func doubles(p point) []point {
	t := make([]point, 256)
	for i := range t {
		t[i] = p
		p = addPoints(p, p)
	}
	return t
}

var gDoubles []point
var gOnce sync.Once

func mulTable(t []point, k *big.Int) point {
	k = new(big.Int).Mod(k, curveN)
	var j jac
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			j = j.addAffine(t[i])
		}
	}
	return j.affine()
}

func mulG(k *big.Int) point {
	gOnce.Do(func() { gDoubles = doubles(curveG) })
	return mulTable(gDoubles, k)
}

func compress(p point) []byte {
	out := make([]byte, 33)
	out[0] = 2 + byte(p.y.Bit(0))
	p.x.FillBytes(out[1:])
	return out
}

// decompress returns false if the bytes are not a point
func decompress(b []byte) (point, bool) {
	if len(b) != 33 || b[0] != 2 && b[0] != 3 {
		return point{}, false
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(curveP) >= 0 {
		return point{}, false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), curveP)
	modP(y2.Add(y2, big.NewInt(7)))
	y := new(big.Int).ModSqrt(y2, curveP)
	if y == nil {
		return point{}, false
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y.Sub(curveP, y)
	}
	return point{x, y}, true
}

var refPubCache sync.Map

// refPub is the compressed public key of a private one
func refPub(priv []byte) []byte {
	if v, ok := refPubCache.Load(string(priv)); ok {
		return append([]byte{}, v.([]byte)...)
	}
	b := compress(mulG(new(big.Int).SetBytes(priv)))
	refPubCache.Store(string(priv), b)
	return append([]byte{}, b...)
}

// refVerify is ECDSA verification from its definition, with the same
// truncation of the hash as everyone's
func refVerify(pub []byte, hash []byte, r, s *big.Int) bool {
	p, ok := decompress(pub)
	if !ok || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(curveN) >= 0 || s.Cmp(curveN) >= 0 {
		return false
	}
	if len(hash) > 32 {
		hash = hash[:32]
	}
	e := new(big.Int).SetBytes(hash)
	w := new(big.Int).ModInverse(s, curveN)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, curveN)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, curveN)
	x := addPoints(mulG(u1), mulTable(doubles(p), u2))
	if x.x == nil {
		return false
	}
	return new(big.Int).Mod(x.x, curveN).Cmp(r) == 0
}

// ---- BIP-32 from its text, with ndau's seed constant and fingerprint ----

type node struct {
	key   []byte // 32 bytes if private, 33 if public
	chain []byte
	depth int
	fp    [3]byte
	num   uint32
	priv  bool
}

func (n node) pub() []byte {
	if n.priv {
		return refPub(n.key)
	}
	return n.key
}

func hmac512(key []byte, data ...[]byte) ([]byte, []byte) {
	h := hmac.New(sha512.New, key)
	for _, d := range data {
		h.Write(d)
	}
	s := h.Sum(nil)
	return s[:32], s[32:]
}

func refMaster(seed []byte) (node, bool) {
	if len(seed) < 16 || len(seed) > 64 {
		return node{}, false
	}
	l, r := hmac512([]byte("ndau seed"), seed)
	v := new(big.Int).SetBytes(l)
	if v.Sign() == 0 || v.Cmp(curveN) >= 0 {
		return node{}, false
	}
	return node{key: l, chain: r, priv: true}, true
}

// refFP is the first 3 bytes of sha256(sha256(public key))
func refFP(pub []byte) (fp [3]byte) {
	a := sha256.Sum256(pub)
	b := sha256.Sum256(a[:])
	copy(fp[:], b[:3])
	return
}

// refIl is the child's tweak and chain code
func refIl(n node, i uint32) ([]byte, []byte) {
	var ix [4]byte
	binary.BigEndian.PutUint32(ix[:], i)
	if i >= 1<<31 {
		return hmac512(n.chain, []byte{0}, n.key, ix[:])
	}
	return hmac512(n.chain, n.pub(), ix[:])
}

// refChild: false where there is no such child
func refChild(n node, i uint32) (node, bool) {
	if n.depth >= 255 || i >= 1<<31 && !n.priv {
		return node{}, false
	}
	l, chain := refIl(n, i)
	t := new(big.Int).SetBytes(l)
	if t.Cmp(curveN) >= 0 {
		return node{}, false
	}
	c := node{chain: chain, depth: n.depth + 1, fp: refFP(n.pub()), num: i, priv: n.priv}
	if n.priv {
		t.Add(t, new(big.Int).SetBytes(n.key))
		t.Mod(t, curveN)
		if t.Sign() == 0 {
			return node{}, false
		}
		c.key = t.FillBytes(make([]byte, 32))
		return c, true
	}
	p, ok := decompress(n.key)
	if !ok {
		return node{}, false
	}
	q := addPoints(mulG(t), p)
	if q.x == nil {
		return node{}, false
	}
	c.key = compress(q)
	return c, true
}

func (n node) neuter() node {
	n.key, n.priv = n.pub(), false
	return n
}

func (n node) extra() []byte {
	var b bytes.Buffer
	b.WriteByte(byte(n.depth))
	b.Write(n.fp[:])
	binary.Write(&b, binary.BigEndian, n.num)
	b.Write(n.chain)
	return b.Bytes()
}

// text is the documented text form
func (n node) text() string {
	return keyPrefix(n.priv) + refText(refKeyBytes(2, n.key, n.extra()))
}

// oldText is the previous serialization
func (n node) oldText(version []byte) string {
	var b bytes.Buffer
	b.Write(version)
	b.WriteByte(byte(n.depth))
	b.Write(n.fp[:])
	binary.Write(&b, binary.BigEndian, n.num)
	b.Write(n.chain)
	if n.priv {
		b.WriteByte(0)
	}
	b.Write(n.key)
	return oldSum(b.Bytes())
}

func oldSum(p []byte) string {
	x := sha256.Sum256(p)
	y := sha256.Sum256(x[:])
	return refB32(append(append([]byte{}, p...), y[:4]...))
}
