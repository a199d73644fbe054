package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/mc/engine"
)

// real makes the real key of a node
func (n node) real() *key.ExtendedKey {
	// all parts in one buffer, each with the next one behind it
	buf := spare(append(append(append([]byte{}, n.key...), n.chain...), n.fp[:]...))
	l := len(n.key)
	return key.NewExtendedKey(buf[:l], buf[l:l+32], buf[l+32:], uint8(n.depth), n.num, n.priv)
}

func fpNum(fp [3]byte) uint32 { return uint32(fp[0])<<16 | uint32(fp[1])<<8 | uint32(fp[2]) }

// sameNode compares everything that can be seen of a key
func sameNode(c *engine.Ctx, sig string, k *key.ExtendedKey, n node) {
	c.Check(k != nil, sig, "no key")
	c.Check(k.IsPrivate() == n.priv, sig, "IsPrivate()=%v", k.IsPrivate())
	c.Check(bytes.Equal(k.Bytes(), n.key), sig, "the key is %x, want %x", k.Bytes(), n.key)
	c.Check(int(k.Depth()) == n.depth, sig, "Depth()=%d, want %d", k.Depth(), n.depth)
	c.Check(k.ParentFingerprint() == fpNum(n.fp), sig, "ParentFingerprint()=%06x, want %x", k.ParentFingerprint(), n.fp)
	sk, err := k.AsSignatureKey()
	c.Check(err == nil, sig, "AsSignatureKey: %v", err)
	c.Check(bytes.Equal(sk.KeyBytes(), n.key) && bytes.Equal(sk.ExtraBytes(), n.extra()), sig, "as a signature key it is %x %x, want %x %x", sk.KeyBytes(), sk.ExtraBytes(), n.key, n.extra())
}

// samePub compares the public key as well (which memoizes it)
func samePub(c *engine.Ctx, sig string, k *key.ExtendedKey, n node) {
	c.Check(bytes.Equal(k.PubKeyBytes(), n.pub()), sig, "PubKeyBytes()=%x, want %x", k.PubKeyBytes(), n.pub())
}

func seedOf(i int) []byte {
	return testData(16+i%49, i)
}

func mustMaster(i int) node {
	for ; ; i += 1000 {
		if n, ok := refMaster(seedOf(i)); ok {
			return n
		}
	}
}

// checkChild compares one derivation with the reference, and returns both
func checkChild(c *engine.Ctx, k *key.ExtendedKey, n node, i uint32) (*key.ExtendedKey, node, bool) {
	want, ok := refChild(n, i)
	var ck *key.ExtendedKey
	c.NoPanic("panic", func() {
		var err error
		ck, err = k.Child(i)
		sameNode(c, "parent", k, n)
		if !ok {
			c.Check(err != nil && ck == nil, "refuse", "Child(%d) of a key of depth %d, private=%v, gave a key", i, n.depth, n.priv)
			return
		}
		c.Check(err == nil, "child", "Child(%d): %v", i, err)
		sameNode(c, "child", ck, want)
	})
	if ok && i >= 1<<31 {
		hk, err := k.HardenedChild(i - 1<<31)
		c.Check(err == nil, "hardened", "HardenedChild(%d): %v", i-1<<31, err)
		sameNode(c, "hardened", hk, want)
	}
	return ck, want, ok
}

// indices: the boundary ones, then one and two bits, then a run from 0
func indexSet(run int) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	add := func(v uint32) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, v := range []uint32{0, 1, 2, 44, 100, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x7ffffffe, 0x8000002c, 0x01020304} {
		add(v)
	}
	for i := 0; i < 32; i++ {
		for j := 0; j <= i; j++ {
			add(1<<uint(i) | 1<<uint(j))
		}
		add(^uint32(0) << uint(i))
		add(^uint32(0) >> uint(i))
	}
	for i := 0; i < run; i++ {
		add(uint32(i))
		add(uint32(i) + 1<<31)
	}
	return out
}

// scalars at the edges of what a private key may be, as 32 bytes
func edgeScalars() [][]byte {
	var out [][]byte
	add := func(v *big.Int) {
		if v.Sign() > 0 && v.Cmp(curveN) < 0 {
			out = append(out, v.FillBytes(make([]byte, 32)))
		}
	}
	for i := int64(1); i <= 20; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(curveN, big.NewInt(i)))
	}
	for i := uint(0); i < 256; i++ {
		add(new(big.Int).Lsh(big.NewInt(1), i))
		add(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(1)))
	}
	for i := uint(0); i < 32; i++ {
		add(new(big.Int).Lsh(big.NewInt(0xff), 8*i))
		add(new(big.Int).Lsh(big.NewInt(0xa5), 8*i))
	}
	h := new(big.Int).Rsh(curveN, 1)
	for i := int64(-3); i <= 3; i++ {
		add(new(big.Int).Add(h, big.NewInt(i)))
	}
	return out
}

// nodeWith is a private node with these 32 key bytes
func nodeWith(k []byte, fill int) node {
	return node{key: k, chain: testData(32, fill), priv: true}
}

// smallChildren finds, for a node, child numbers whose private key begins with
// a zero byte (want 1) or two (want 2)
func smallChildren(n node, zeros, count int, from uint32) []uint32 {
	var out []uint32
	for i := from; len(out) < count && i < from+1<<21; i++ {
		l, _ := refIl(n, i)
		t := new(big.Int).SetBytes(l)
		t.Add(t, new(big.Int).SetBytes(n.key))
		t.Mod(t, curveN)
		if t.BitLen() <= 256-8*zeros {
			out = append(out, i)
		}
	}
	return out
}

func init() {
	register(&engine.Property{ID: "K01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		thorough := tier == "thorough"
		alpha := []uint32{0, 1, 2, 44, 255, 256, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0x80000001, 0x8000002c, 0x80010000, 0xffffffff}
		depth, masters, run := 3, 2, 1000
		if thorough {
			depth, masters, run = 4, 3, 30000
		}
		ixs := indexSet(run)
		scal := edgeScalars()
		var small []uint32
		var small2 []uint32
		base := mustMaster(7)
		return []engine.Harness{
			{Name: "masters", About: "seeds of every length 0..80 with 60 fills: the master key of a seed of 16..64 bytes, an error for the others", Body: func(c *engine.Ctx) {
				n, f := c.Pick(81), c.Pick(60)
				seed := testData(n, f)
				keep := append([]byte{}, seed...)
				seed = spare(seed)
				want, ok := refMaster(seed)
				c.Logf("seed %x", seed)
				c.NoPanic("panic", func() {
					k, err := key.NewMaster(seed)
					c.Check((err == nil) == ok, "master", "NewMaster(%x): %v", seed, err)
					c.Check(bytes.Equal(seed, keep) && intact(seed), "master", "NewMaster changed its seed")
					if ok {
						sameNode(c, "master", k, want)
						samePub(c, "master", k, want)
					} else {
						c.Check(k == nil, "master", "NewMaster(%x) gave a key with an error", seed)
					}
				})
				c.State(string(seed))
			}},
			{Name: "tree", About: fmt.Sprintf("from %d masters, every derivation path of up to %d steps over %d child numbers", masters, depth, len(alpha)), Body: func(c *engine.Ctx) {
				n := mustMaster(c.Pick(masters))
				k := n.real()
				d := c.Pick(depth) + 1
				var path []string
				for s := 0; s < d; s++ {
					i := alpha[c.Pick(len(alpha))]
					path = append(path, fmt.Sprint(i))
					if s < d-1 {
						// the shorter paths are executions of their own
						ck, err := k.Child(i)
						nn, ok := refChild(n, i)
						if err != nil || !ok {
							c.Stop()
						}
						k, n = ck, nn
						continue
					}
					ck, want, ok := checkChild(c, k, n, i)
					if ok {
						samePub(c, "public", ck, want)
						c.State(string(want.key))
					}
				}
				c.Logf("%s", strings.Join(path, "/"))
			}},
			{Name: "numbers", About: fmt.Sprintf("%d child numbers (0.., boundaries, every one and two bits) of one key", len(ixs)), Body: func(c *engine.Ctx) {
				n := base
				i := ixs[c.Pick(len(ixs))]
				c.Logf("child %d", i)
				_, want, _ := checkChild(c, n.real(), n, i)
				c.State(string(want.key))
			}},
			{Name: "scalars", About: fmt.Sprintf("%d private keys at the edges (small, near the group order, powers of two), 4 chain codes, 4 child numbers: key, public key, grandchild", len(scal)), Body: func(c *engine.Ctx) {
				s := scal[c.Pick(len(scal))]
				n := nodeWith(s, c.Pick(4))
				k := n.real()
				c.Check(bytes.Equal(bip32.PrivateToPublic(s), n.pub()), "public", "PrivateToPublic(%x)", s)
				samePub(c, "public", k, n)
				i := []uint32{0, 0x80000000, 5, 0xffffffff}[c.Pick(4)]
				c.Logf("key %x child %d", s, i)
				ck, want, ok := checkChild(c, k, n, i)
				if ok {
					checkChild(c, ck, want, 0)
					checkChild(c, ck, want, 1<<31)
					c.State(string(want.key))
				}
			}},
			{Name: "short-keys", About: "children whose private key begins with one or two zero bytes: the key is not shortened, and its children are right", Setup: func() {
				c1, c2 := 12, 2
				if thorough {
					c1, c2 = 60, 12
				}
				small = append(smallChildren(base, 1, c1, 0), smallChildren(base, 1, c1, 1<<31)...)
				small2 = append(smallChildren(base, 2, c2, 1<<31), smallChildren(base, 2, 1, 0)...)
				small = append(small, small2...)
			}, Body: func(c *engine.Ctx) {
				i := small[c.Pick(len(small))]
				ck, want, ok := checkChild(c, base.real(), base, i)
				c.Check(ok && want.key[0] == 0, "setup", "%x", want.key)
				j := []uint32{0, 1, 0x80000000, 0x80000001, 77, 0x7fffffff, 0xffffffff}[c.Pick(7)]
				c.Logf("child %d (%x), then %d", i, want.key, j)
				g, gw, ok := checkChild(c, ck, want, j)
				if ok {
					samePub(c, "public", g, gw)
					c.State(string(gw.key))
				}
				t, err := ck.MarshalText()
				c.Check(err == nil && string(t) == want.text(), "text", "%s %v", t, err)
			}},
			{Name: "depths", About: "chains of derivations from depth 0 to 255 and the refusal after it, private and public, per child number", Body: func(c *engine.Ctx) {
				n := base
				if c.Bool() {
					n = n.neuter()
				}
				k := n.real()
				i := alpha[c.Pick(len(alpha))]
				if i >= 1<<31 && !n.priv {
					i -= 1 << 31
				}
				for s := 0; s < 256; s++ {
					ck, want, ok := checkChild(c, k, n, i^uint32(s)%2)
					c.Check(ok == (s < 255), "depth", "step %d", s)
					if !ok {
						return
					}
					k, n = ck, want
					c.State(string(want.key))
				}
			}},
		}
	}})
	register(&engine.Property{ID: "K02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		thorough := tier == "thorough"
		alpha := []uint32{0, 1, 2, 44, 256, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}
		depth, run := 3, 300
		if thorough {
			depth, run = 4, 8000
		}
		ixs := indexSet(run)
		scal := edgeScalars()
		// commute compares the public child of the private key, the child of
		// the public key, and the reference
		commute := func(c *engine.Ctx, n node, i uint32) {
			k := n.real()
			p, err := k.Public()
			c.Check(err == nil, "public", "%v", err)
			sameNode(c, "public", p, n.neuter())
			samePub(c, "public", p, n.neuter())
			sameNode(c, "public changed the key", k, n)
			pp, err := p.Public()
			c.Check(err == nil, "public", "%v", err)
			sameNode(c, "public twice", pp, n.neuter())
			ck, cw, ok := checkChild(c, k, n, i)
			pc, pw, pok := checkChild(c, p, n.neuter(), i)
			c.Check(pok == (ok && i < 1<<31), "commute", "child %d", i)
			if !pok {
				return
			}
			cp, err := ck.Public()
			c.Check(err == nil, "public", "%v", err)
			sameNode(c, "commute", cp, pw)
			sameNode(c, "commute", pc, cw.neuter())
			c.Check(bytes.Equal(cp.PubKeyBytes(), pc.PubKeyBytes()), "commute", "child %d: %x and %x", i, cp.PubKeyBytes(), pc.PubKeyBytes())
			c.State(string(pw.key))
		}
		return []engine.Harness{
			{Name: "numbers", About: fmt.Sprintf("%d child numbers: the public key of the private child is the child of the public key", len(ixs)), Body: func(c *engine.Ctx) {
				i := ixs[c.Pick(len(ixs))]
				c.Logf("child %d", i)
				commute(c, mustMaster(3), i)
			}},
			{Name: "scalars", About: "the same for private keys at the edges", Body: func(c *engine.Ctx) {
				n := nodeWith(scal[c.Pick(len(scal))], c.Pick(2)+1)
				i := []uint32{0, 1, 0x7fffffff, 0x80000000}[c.Pick(4)]
				c.Logf("key %x child %d", n.key, i)
				commute(c, n, i)
			}},
			{Name: "tree", About: fmt.Sprintf("every path of up to %d steps: at each step the key may be made public, from then on every step is public; hardened steps of public keys are refused", depth), Body: func(c *engine.Ctx) {
				n := mustMaster(11)
				k := n.real()
				for s := 0; s < depth; s++ {
					if n.priv && c.Bool() {
						p, err := k.Public()
						c.Check(err == nil, "public", "%v", err)
						k, n = p, n.neuter()
						sameNode(c, "public", k, n)
					}
					i := alpha[c.Pick(len(alpha))]
					ck, want, ok := checkChild(c, k, n, i)
					if !ok {
						for _, h := range []uint32{0, i - 1<<31} {
							hk, err := k.HardenedChild(h)
							c.Check(err != nil && hk == nil, "hardened-public", "HardenedChild(%d) of a public key gave a key", h)
						}
						return
					}
					k, n = ck, want
				}
				samePub(c, "public", k, n)
				c.State(string(n.key))
			}},
			{Name: "hardened-numbers", About: "HardenedChild of every boundary number: the hardened child, or an error; never a child which the public key could derive", Body: func(c *engine.Ctx) {
				n := mustMaster(5)
				if c.Bool() {
					n = n.neuter()
				}
				i := ixs[c.Pick(len(ixs))]
				k := n.real()
				hk, err := k.HardenedChild(i)
				if i >= 1<<31 || !n.priv {
					c.Check(err != nil && hk == nil, fmt.Sprintf("hardened-wrap private=%v", n.priv), "HardenedChild(%d) gave a key", i)
					return
				}
				c.Check(err == nil, "hardened", "HardenedChild(%d): %v", i, err)
				want, _ := refChild(n, i+1<<31)
				sameNode(c, "hardened", hk, want)
			}},
			{Name: "depth-limit", About: "keys of depth 253, 254 and 255, private and public", Body: func(c *engine.Ctx) {
				n := mustMaster(5)
				n.depth = 250 + c.Pick(6)
				n.num, n.fp = 5, [3]byte{1, 2, 3}
				if c.Bool() {
					n = n.neuter()
				}
				checkChild(c, n.real(), n, alpha[c.Pick(len(alpha))])
			}},
			{Name: "views", About: "EC and signature views of private and public keys agree", Body: func(c *engine.Ctx) {
				n := nodeWith(scal[c.Pick(len(scal))], 2)
				if c.Bool() {
					n = n.neuter()
				}
				k := n.real()
				ec, err := k.ECPubKey()
				c.Check(err == nil && bytes.Equal(ec.SerializeCompressed(), n.pub()), "ecpub", "%v", err)
				sp, err := k.SPubKey()
				c.Check(err == nil && bytes.Equal(sp.KeyBytes(), n.pub()) && bytes.Equal(sp.ExtraBytes(), n.extra()), "spub", "%v", err)
				ep, err := k.ECPrivKey()
				sv, err2 := k.SPrivKey()
				if !n.priv {
					c.Check(err != nil && err2 != nil && ep == nil && sv == nil, "private of public", "a private key out of a public one")
					return
				}
				c.Check(err == nil && bytes.Equal(ep.Serialize(), n.key) && bytes.Equal(ep.PubKey().SerializeCompressed(), n.pub()), "ecpriv", "%v", err)
				c.Check(err2 == nil && bytes.Equal(sv.KeyBytes(), n.key) && bytes.Equal(sv.ExtraBytes(), n.extra()), "spriv", "%v", err2)
			}},
		}
	}})
	register(&engine.Property{ID: "K03", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		thorough := tier == "thorough"
		base := mustMaster(21)
		syms := []string{"/", "0", "1", "'", " ", "x", "9"}
		maxSyms := 6
		elems := []string{"/0", "/1", "/0'", "/1'", "/10"}
		maxEl := 3
		if thorough {
			maxSyms = 7
			maxEl = 4
		}
		var paths []string
		var grow func(p string, n int)
		grow = func(p string, n int) {
			if p == "" {
				paths = append(paths, "/")
			} else {
				paths = append(paths, p)
			}
			if n == 0 {
				return
			}
			for _, e := range elems {
				grow(p+e, n-1)
			}
		}
		grow("", maxEl)
		if thorough {
			paths = paths[:0]
			grow("", 3)
		}
		return []engine.Harness{
			{Name: "strings", About: fmt.Sprintf("every string of up to %d symbols of %q as a child path of the root", maxSyms, syms), Body: func(c *engine.Ctx) {
				s := ""
				for i := c.Pick(maxSyms + 1); i > 0; i-- {
					s += syms[c.Pick(len(syms))]
				}
				c.Logf("%q", s)
				derive(c, base, "/", s)
			}},
			{Name: "parents", About: fmt.Sprintf("every string of up to %d symbols as the parent of a fixed child", maxSyms), Body: func(c *engine.Ctx) {
				s := ""
				for i := c.Pick(maxSyms + 1); i > 0; i-- {
					s += syms[c.Pick(len(syms))]
				}
				derive(c, base, s, []string{"/0/1'/9", "/1/10/1", "/0'/0", "/"}[c.Pick(4)])
			}},
			{Name: "pairs", About: fmt.Sprintf("every pair of the %d paths over %v, from private and public keys, in two spellings", len(paths), elems), Body: func(c *engine.Ctx) {
				p, q := paths[c.Pick(len(paths))], paths[c.Pick(len(paths))]
				n := base
				if c.Bool() {
					n = n.neuter()
				}
				derive(c, n, p, q)
			}},
			{Name: "compose", About: "deriving to a path and from there to a longer one is deriving to the longer one", Body: func(c *engine.Ctx) {
				a := ""
				k, n := base.real(), base
				stops := 0
				at := "/"
				for s := 0; s < 4; s++ {
					a += []string{"/0", "/7'", "/2147483647", "/ 3 '"}[c.Pick(4)]
					if c.Bool() {
						var err error
						k, err = k.DeriveFrom(at, a)
						c.Check(err == nil, "compose", "DeriveFrom(%q, %q): %v", at, a, err)
						n = refDerive(n, at, a)
						sameNode(c, "compose", k, n)
						at = a
						stops++
					}
				}
				if at != a {
					c.Stop()
				}
				whole, err := base.real().DeriveFrom("/", a)
				c.Check(err == nil, "compose", "DeriveFrom(/, %q): %v", a, err)
				sameNode(c, "compose", whole, n)
				c.State(a + fmt.Sprint(stops))
			}},
			{Name: "long", About: "paths of 4 to 33 elements, and of 63 to 65, 100 and 253 to 257, from the root, the half, the parent and the path itself, and from paths which differ in one element, in its number or its hardening, wherever it is", Body: func(c *engine.Ctx) {
				lens := []int{63, 64, 65, 100, 253, 254, 255, 256, 257}
				i := c.Pick(30 + len(lens))
				n := i + 4
				if i >= 30 {
					n = lens[i-30]
				}
				el := func(i int) string {
					return fmt.Sprintf("/%d%s", uint32(i*i*i)&0x7fffffff, []string{"", "'", ""}[i%3])
				}
				of := func(n, other int, what string) string {
					s := ""
					for i := 0; i < n; i++ {
						if i == other {
							s += what
						} else {
							s += el(i)
						}
					}
					if n == 0 {
						return "/"
					}
					return s
				}
				q := of(n, -1, "")
				switch c.Pick(3) {
				case 0:
					derive(c, base, of([]int{0, 1, n / 2, n - 1, n, n + 1}[c.Pick(6)], -1, ""), q)
				case 1:
					if n > 40 {
						c.Stop()
					}
					i := c.Pick(n - 1)
					derive(c, base, of(n-1, i, fmt.Sprintf("/%d%s", (uint32(i*i*i)&0x7fffffff)+1, []string{"", "'", ""}[i%3])), q)
				case 2:
					i := c.Pick(n - 1)
					derive(c, base, of(n-1, i, fmt.Sprintf("/%d%s", uint32(i*i*i)&0x7fffffff, []string{"'", "", "'"}[i%3])), q)
				}
			}},
			{Name: "numbers", About: "path elements at the boundaries, with leading zeros, too large, with signs, hardened or not", Body: func(c *engine.Ctx) {
				nums := []string{"0", "1", "00", "007", "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295", "4294967296", "4294967297", "4294967295000", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "1e3", "0x10", "1_0", "١", "", "1.", "000000000000000000000000000005", "1234567890"}
				s := "/" + nums[c.Pick(len(nums))] + []string{"", "'", "''", "h", "H", "\n", "/", "'/"}[c.Pick(8)]
				if c.Bool() {
					s = "/5" + s
				}
				n := base
				if c.Bool() {
					n = n.neuter()
				}
				derive(c, n, []string{"/", "/5", ""}[c.Pick(3)], s)
			}},
		}
	}})
}

type elem struct {
	id   uint64
	hard bool
}

// refPath reads a path from its grammar: "/" or ("/" number "'"?)+, spaces ignored
func refPath(s string) ([]elem, bool) {
	var t []byte
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			t = append(t, s[i])
		}
	}
	if string(t) == "/" {
		return []elem{}, true
	}
	var out []elem
	i := 0
	for i < len(t) {
		if t[i] != '/' {
			return nil, false
		}
		i++
		j := i
		for j < len(t) && t[j] >= '0' && t[j] <= '9' {
			j++
		}
		if j == i {
			return nil, false
		}
		v, err := strconv.ParseUint(string(t[i:j]), 10, 64)
		if err != nil || v > 0xffffffff {
			return nil, false
		}
		e := elem{id: v}
		i = j
		if i < len(t) && t[i] == '\'' {
			e.hard = true
			i++
		}
		out = append(out, e)
	}
	return out, len(out) > 0
}

func refDeriveOK(n node, p, q string) (node, bool) {
	a, ok1 := refPath(p)
	b, ok2 := refPath(q)
	if !ok1 || !ok2 || len(b) <= len(a) {
		return n, false
	}
	for i := range a {
		if a[i] != b[i] {
			return n, false
		}
	}
	for _, e := range b[len(a):] {
		i := e.id
		if e.hard {
			if i >= 1<<31 {
				return n, false
			}
			i += 1 << 31
		}
		var ok bool
		if n, ok = childMemo(n, uint32(i)); !ok {
			return n, false
		}
	}
	return n, true
}

func refDerive(n node, p, q string) node {
	m, ok := refDeriveOK(n, p, q)
	if !ok {
		panic("refDerive " + p + " " + q)
	}
	return m
}

var childCache = newMemo()

func childMemo(n node, i uint32) (node, bool) {
	var ix [4]byte
	binary.BigEndian.PutUint32(ix[:], i)
	k := string(n.key) + string(n.chain) + string(ix[:]) + string([]byte{byte(n.depth)})
	if v, ok := childCache.Load(k); ok {
		return v.(memoChild).n, v.(memoChild).ok
	}
	m, ok := refChild(n, i)
	childCache.Store(k, memoChild{m, ok})
	return m, ok
}

type memoChild struct {
	n  node
	ok bool
}

func derive(c *engine.Ctx, n node, p, q string) {
	k := n.real()
	want, ok := refDeriveOK(n, p, q)
	c.Logf("DeriveFrom(%q, %q) private=%v: %v", p, q, n.priv, ok)
	c.NoPanic("panic", func() {
		got, err := k.DeriveFrom(p, q)
		if !ok {
			c.Check(err != nil && got == nil, "refuse", "DeriveFrom(%q, %q), private=%v, gave a key", p, q, n.priv)
		} else {
			c.Check(err == nil, "derive", "DeriveFrom(%q, %q): %v", p, q, err)
			sameNode(c, "derive", got, want)
			c.Check(got != k, "derive", "DeriveFrom returned the key itself")
			c.State(string(want.key))
		}
		sameNode(c, "unchanged", k, n)
		samePub(c, "unchanged", k, n)
	})
}

var _ = signature.Null
