package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ndau/ndaumath/pkg/bitset256"
	"verif/mc/engine"
)

// set is the reference model of a bitset: 256 booleans
type set [256]bool

func (s *set) list() []byte {
	var out []byte
	for i := 0; i < 256; i++ {
		if s[i] {
			out = append(out, byte(i))
		}
	}
	return out
}

// number is the set read as a number: bit i has weight 2^i
func (s *set) number() *big.Int {
	n := new(big.Int)
	for i := 0; i < 256; i++ {
		if s[i] {
			n.SetBit(n, i, 1)
		}
	}
	return n
}

func mkset(ix ...byte) *set {
	s := &set{}
	for _, i := range ix {
		s[i] = true
	}
	return s
}

// sameSet compares every observation of one bitset with the model
func sameSet(c *engine.Ctx, what string, b *bitset256.Bitset256, m *set) {
	n := 0
	for i := 0; i < 256; i++ {
		if m[i] {
			n++
		}
		if b.Get(byte(i)) != m[i] {
			c.Fail(what, "%s: Get(%d)=%v, the model (members %v) says %v", what, i, b.Get(byte(i)), m.list(), m[i])
		}
	}
	c.Check(b.Count() == n, what, "%s: Count()=%d, members %v", what, b.Count(), m.list())
	got := b.Indices()
	c.Check(bytes.Equal(got, m.list()), what, "%s: Indices()=%v, members %v", what, got, m.list())
}

// sameBinary compares every two operand observation with the model
func sameBinary(c *engine.Ctx, what string, a, b *bitset256.Bitset256, ma, mb *set) {
	eq, sub := true, true
	mi, mu := &set{}, &set{}
	for i := 0; i < 256; i++ {
		if ma[i] != mb[i] {
			eq = false
		}
		if ma[i] && !mb[i] {
			sub = false
		}
		mi[i] = ma[i] && mb[i]
		mu[i] = ma[i] || mb[i]
	}
	c.Check(a.Equals(b) == eq, what, "%s: Equals=%v for %v, %v", what, !eq, ma.list(), mb.list())
	c.Check(a.IsSubsetOf(b) == sub, what, "%s: IsSubsetOf=%v for %v, %v", what, !sub, ma.list(), mb.list())
	less := ma.number().Cmp(mb.number()) < 0
	c.Check(a.Less(b) == less, what, "%s: Less=%v for %v, %v", what, !less, ma.list(), mb.list())
	in := a.Intersect(b)
	un := a.Union(b)
	sameSet(c, what+"/intersect", in, mi)
	sameSet(c, what+"/union", un, mu)
	// the results are new: changing them changes no operand, and the operands are as before
	in.Toggle(0).Toggle(100).Toggle(255)
	un.Toggle(1).Toggle(64).Toggle(191)
	sameSet(c, what+"/left operand", a, ma)
	sameSet(c, what+"/right operand", b, mb)
}

var edgeBits = []byte{0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 127, 128, 190, 191, 192, 193, 254, 255}

// patterns are sets of every density and at every word position
func bitPatterns() []*set {
	var out []*set
	add := func(f func(i int) bool) {
		s := &set{}
		for i := range s {
			s[i] = f(i)
		}
		out = append(out, s)
	}
	add(func(i int) bool { return false })
	add(func(i int) bool { return true })
	for w := 0; w < 4; w++ {
		w := w
		add(func(i int) bool { return i/64 == w })
		add(func(i int) bool { return i/64 != w })
		add(func(i int) bool { return i/64 == w && i%2 == 0 })
		add(func(i int) bool { return i/64 <= w })
		add(func(i int) bool { return i == w*64 })
		add(func(i int) bool { return i == w*64+63 })
		add(func(i int) bool { return i != w*64+63 })
		add(func(i int) bool { return i != w*64 })
		add(func(i int) bool { return i == w*64+31 || i == w*64+32 })
	}
	for _, m := range []int{2, 3, 5, 7, 8, 16, 32, 64} {
		m := m
		add(func(i int) bool { return i%m == 0 })
		add(func(i int) bool { return i%m == m-1 })
	}
	// the four words take every order of magnitude relative to one another
	for k := 0; k < 81; k++ {
		k := k
		add(func(i int) bool {
			d := []int{k % 3, k / 3 % 3, k / 9 % 3, k / 27 % 3}[i/64]
			return d > 0 && i%64 == 20*d
		})
	}
	return out
}

func build(m *set) *bitset256.Bitset256 { return bitset256.New(m.list()...) }

// bitOps: histories over two live bitsets
func bitOpsBody(depth int, ix []byte) func(c *engine.Ctx) {
	return func(c *engine.Ctx) {
		v := []*bitset256.Bitset256{bitset256.New(), bitset256.New(3, 3, 200)}
		m := []*set{mkset(), mkset(3, 200)}
		for d := 0; d < depth; d++ {
			op := c.Pick(8)
			w := 0
			i := byte(0)
			if op < 3 {
				w = c.Pick(2)
				i = ix[c.Pick(len(ix))]
			} else {
				w = c.Pick(2)
			}
			o := 1 - w
			switch op {
			case 0:
				r := v[w].Set(i)
				m[w][i] = true
				c.Check(r == v[w], "set returns receiver", "Set did not return its receiver")
				c.Logf("v%d.Set(%d)", w, i)
			case 1:
				r := v[w].Clear(i)
				m[w][i] = false
				c.Check(r == v[w], "clear returns receiver", "Clear did not return its receiver")
				c.Logf("v%d.Clear(%d)", w, i)
			case 2:
				r := v[w].Toggle(i)
				m[w][i] = !m[w][i]
				c.Check(r == v[w], "toggle returns receiver", "Toggle did not return its receiver")
				c.Logf("v%d.Toggle(%d)", w, i)
			case 3:
				v[w] = v[o].Clone()
				t := *m[o]
				m[w] = &t
				c.Logf("v%d = v%d.Clone()", w, o)
			case 4:
				v[w] = v[w].Union(v[o])
				t := *m[w]
				for k := range t {
					t[k] = t[k] || m[o][k]
				}
				m[w] = &t
				c.Logf("v%d = v%d.Union(v%d)", w, w, o)
			case 5:
				v[w] = v[w].Intersect(v[o])
				t := *m[w]
				for k := range t {
					t[k] = t[k] && m[o][k]
				}
				m[w] = &t
				c.Logf("v%d = v%d.Intersect(v%d)", w, w, o)
			case 6:
				b, err := bitset256.FromBytes(v[o].AsBytes())
				c.Check(err == nil, "bytes", "FromBytes(AsBytes()) failed: %v", err)
				v[w] = b
				t := *m[o]
				m[w] = &t
				c.Logf("v%d = FromBytes(v%d.AsBytes())", w, o)
			case 7:
				b, err := bitset256.FromHex(v[w].AsHex())
				c.Check(err == nil, "hex", "FromHex(AsHex()) failed: %v", err)
				v[w] = b
				c.Logf("v%d = FromHex(v%d.AsHex())", w, w)
			}
			key := fmt.Sprint(m[0].list(), "|", m[1].list())
			sameSet(c, "v0", v[0], m[0])
			sameSet(c, "v1", v[1], m[1])
			if c.State(key) {
				sameBinary(c, "v0,v1", v[0], v[1], m[0], m[1])
				sameBinary(c, "v1,v0", v[1], v[0], m[1], m[0])
				sameBinary(c, "v0,v0", v[0], v[0], m[0], m[0])
			}
		}
	}
}

// layout checks the serialized forms of one set
func checkForms(c *engine.Ctx, m *set) {
	b := build(m)
	by := b.AsBytes()
	c.Check(len(by) == 32, "length", "AsBytes gives %d bytes", len(by))
	hx := b.AsHex()
	c.Check(hx == fmt.Sprintf("%x", by), "hex", "AsHex()=%s, AsBytes()=%x", hx, by)
	c.Check(b.String() == hx, "string", "String()=%s AsHex()=%s", b.String(), hx)
	if b.Get(0) != (by[31]&1 == 1) {
		c.Fail("layout", "bit 0 is not the lowest bit of the last byte: %x", by)
	}
	keep := append([]byte{}, by...)
	r, err := bitset256.FromBytes(by)
	c.Check(err == nil && r != nil, "frombytes", "FromBytes(%x): %v", by, err)
	for i := range by {
		by[i] ^= 0xff // neither the source nor the result share this memory
	}
	sameSet(c, "frombytes", r, m)
	sameSet(c, "asbytes source", b, m)
	c.Check(bytes.Equal(b.AsBytes(), keep), "stable", "AsBytes changed from %x to %x", keep, b.AsBytes())
	c.Check(bytes.Equal(r.AsBytes(), keep), "stable", "AsBytes of the result is %x, not %x", r.AsBytes(), keep)
	h, err := bitset256.FromHex(hx)
	c.Check(err == nil && h != nil, "fromhex", "FromHex(%s): %v", hx, err)
	sameSet(c, "fromhex", h, m)
	c.Check(r.Equals(b) && h.Equals(b), "equal", "the decoded set is not Equal")
}

func init() {
	register(&engine.Property{ID: "B01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		depth, ix := 3, edgeBits[:0:0]
		ix = append(ix, 0, 63, 64, 200, 255)
		if tier == "thorough" {
			depth = 4
		}
		pats := bitPatterns()
		return []engine.Harness{
			{Name: "singles", About: "every index 0..255, set/clear/toggle, from empty, full and every other background pattern", Body: func(c *engine.Ctx) {
				i := byte(c.Pick(256))
				bg := pats[c.Pick(len(pats))]
				op := c.Pick(3)
				b, m := build(bg), *bg
				c.Logf("background %v op %d index %d", bg.list(), op, i)
				switch op {
				case 0:
					b.Set(i)
					m[i] = true
				case 1:
					b.Clear(i)
					m[i] = false
				case 2:
					b.Toggle(i)
					m[i] = !m[i]
				}
				sameSet(c, "single", b, &m)
				c.State(fmt.Sprint(m.list()))
			}},
			{Name: "pairs", About: "every ordered pair of indices, as one set built in one call and as two operands", Body: func(c *engine.Ctx) {
				i, j := byte(c.Pick(256)), byte(c.Pick(256))
				c.Logf("%d %d", i, j)
				sameSet(c, "new", bitset256.New(i, j), mkset(i, j))
				sameSet(c, "new3", bitset256.New(i, j, i), mkset(i, j))
				sameBinary(c, "pair", bitset256.New(i), bitset256.New(j), mkset(i), mkset(j))
				c.State(fmt.Sprint(i, j))
			}},
			{Name: "patterns", About: "every ordered pair of patterns (all densities, every word position, words of all relative magnitudes)", Body: func(c *engine.Ctx) {
				i, j := c.Pick(len(pats)), c.Pick(len(pats))
				c.Logf("%v ? %v", pats[i].list(), pats[j].list())
				sameBinary(c, "pattern", build(pats[i]), build(pats[j]), pats[i], pats[j])
				c.State(fmt.Sprint(i, j))
			}},
			{Name: "transitive", About: "ordering is a strict total order: every triple of a set of patterns", Body: func(c *engine.Ctx) {
				n := len(pats)
				if tier != "thorough" && n > 60 {
					n = 60
				}
				x, y, z := build(pats[c.Pick(n)]), build(pats[c.Pick(n)]), build(pats[c.Pick(n)])
				k := 0
				for _, b := range []bool{x.Less(y), y.Less(x), x.Equals(y)} {
					if b {
						k++
					}
				}
				c.Check(k == 1, "trichotomy", "%v %v: %d of less, greater, equal", x, y, k)
				c.Check(!(x.Less(y) && y.Less(z)) || x.Less(z), "transitivity", "%v %v %v", x, y, z)
			}},
			{Name: "histories", About: fmt.Sprintf("every history of %d operations on two live bitsets", depth), Body: bitOpsBody(depth, ix)},
		}
	}})
	register(&engine.Property{ID: "B02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		pats := bitPatterns()
		return []engine.Harness{
			{Name: "every-byte", About: "every value of every byte of the serialized form, over three backgrounds", Body: func(c *engine.Ctx) {
				pos, bg := c.Pick(32), []byte{0, 0xff, 0x5a}[c.Pick(3)]
				val := byte(c.Pick(256))
				in := bytes.Repeat([]byte{bg}, 32)
				in[pos] = val
				in = spare(in)
				c.Logf("FromBytes(%x)", in)
				b, err := bitset256.FromBytes(in)
				c.Check(intact(in), "input", "FromBytes wrote behind its argument")
				c.Check(err == nil && b != nil, "frombytes", "FromBytes(%x): %v", in, err)
				c.Check(bytes.Equal(b.AsBytes(), in), "roundtrip", "FromBytes(%x).AsBytes()=%x", in, b.AsBytes())
				ones := 0
				for _, x := range in {
					for ; x != 0; x &= x - 1 {
						ones++
					}
				}
				c.Check(b.Count() == ones, "count", "FromBytes(%x).Count()=%d, %d bits are set", in, b.Count(), ones)
				m := mkset(b.Indices()...)
				checkForms(c, m)
				for _, i := range []byte{0, 1, 2, 3, 4, 5, 6, 7} {
					c.Check(b.Get(i) == (in[31]>>i&1 == 1), "layout", "bits 0 to 7 are not the last byte: FromBytes(%x).Get(%d)=%v", in, i, b.Get(i))
				}
				c.State(string(in))
			}},
			{Name: "sets", About: "every pair of indices and every pattern survives every form", Body: func(c *engine.Ctx) {
				var m *set
				if k := c.Pick(256 + 1); k < 256 {
					m = mkset(byte(k), byte(c.Pick(256)))
				} else {
					m = pats[c.Pick(len(pats))]
				}
				c.Logf("%v", m.list())
				checkForms(c, m)
				// one index is one bit of the form, the same in every set
				want := make([]byte, 32)
				for _, i := range m.list() {
					for k, x := range bitset256.New(i).AsBytes() {
						want[k] |= x
					}
				}
				c.Check(bytes.Equal(build(m).AsBytes(), want), "layout", "the form of %v is not the union of its members' forms", m.list())
				c.State(string(want))
			}},
			{Name: "malformed", About: "every length but 32, and every byte which is no hex digit at every position, is refused", Body: func(c *engine.Ctx) {
				switch c.Pick(4) {
				case 0:
					n := c.Pick(130)
					in := bytes.Repeat([]byte{1}, n)
					c.NoPanic("panic", func() {
						b, err := bitset256.FromBytes(in)
						c.Check((err == nil) == (n == 32), "length", "FromBytes of %d bytes: err=%v", n, err)
						c.Check((b == nil) == (err != nil), "length", "FromBytes of %d bytes: result %v with err %v", n, b, err)
					})
					c.State(fmt.Sprint("b", n))
				case 1:
					n := c.Pick(140)
					in := string(bytes.Repeat([]byte{'1'}, n))
					c.NoPanic("panic", func() {
						b, err := bitset256.FromHex(in)
						c.Check((err == nil) == (n == 64), "hexlength", "FromHex of %d characters: err=%v", n, err)
						c.Check((b == nil) == (err != nil), "hexlength", "FromHex of %d characters: result %v with err %v", n, b, err)
					})
					c.State(fmt.Sprint("h", n))
				case 2:
					pos, ch := c.Pick(64), byte(c.Pick(256))
					in := bytes.Repeat([]byte{'a'}, 64)
					in[pos] = ch
					isHex := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'
					c.NoPanic("panic", func() {
						b, err := bitset256.FromHex(string(in))
						c.Check((err == nil) == isHex, "hexdigit", "FromHex(%q): err=%v", in, err)
						c.Check((b == nil) == (err != nil), "hexdigit", "FromHex(%q): result with error", in)
						if err == nil {
							c.Check(b.AsHex() == string(bytes.ToLower(in)), "hexvalue", "FromHex(%q).AsHex()=%s", in, b.AsHex())
						}
					})
					c.State(string(in))
				case 3:
					_, err := bitset256.FromBytes(nil)
					c.Check(err != nil, "nil", "FromBytes(nil) succeeded")
				}
			}},
		}
	}})
}
