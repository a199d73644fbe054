package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/mc/engine"
)

// pool is the live objects of a history, with what each must be
type pool struct {
	ks   []*key.ExtendedKey
	kn   []*node // nil: zeroed
	ss   []signature.Key
	sn   []node
	st   []int // 0 whole, 1 truncated, 2 zeroized
	hist []string
}

func (p *pool) add(c *engine.Ctx, k *key.ExtendedKey, n node) {
	for _, o := range p.ks {
		if o == k {
			return
		}
	}
	p.ks = append(p.ks, k)
	p.kn = append(p.kn, &n)
}

// check compares every object with its model
func (p *pool) check(c *engine.Ctx, deep bool) {
	h := strings.Join(p.hist, "; ")
	for i, k := range p.ks {
		n := p.kn[i]
		if n == nil {
			c.Check(len(k.Bytes()) == 0 && k.Depth() == 0 && !k.IsPrivate(), "zero", "after %s: key %d is not cleared", h, i)
			continue
		}
		sig := fmt.Sprintf("history key private=%v", n.priv)
		ok := k.IsPrivate() == n.priv && bytes.Equal(k.Bytes(), n.key) && int(k.Depth()) == n.depth && k.ParentFingerprint() == fpNum(n.fp)
		c.Check(ok, sig, "after %s: key %d is %x, want %x", h, i, k.Bytes(), n.key)
		if deep {
			c.Check(bytes.Equal(k.PubKeyBytes(), n.pub()), sig, "after %s: the public key of key %d is %x, want %x", h, i, k.PubKeyBytes(), n.pub())
		}
		sk, err := k.AsSignatureKey()
		c.Check(err == nil && bytes.Equal(sk.ExtraBytes(), n.extra()), sig, "after %s: key %d has %v, want %x", h, i, sk, n.extra())
	}
	for i, s := range p.ss {
		n := p.sn[i]
		wk, we := n.key, n.extra()
		if p.st[i] >= 1 {
			we = nil
		}
		if p.st[i] == 2 {
			wk = nil
		}
		c.Check(bytes.Equal(s.KeyBytes(), wk) && bytes.Equal(s.ExtraBytes(), we), "history signature key", "after %s: signature key %d is %x %x, want %x %x", h, i, s.KeyBytes(), s.ExtraBytes(), wk, we)
	}
}

const kOps = 13

// step does one operation of the history on one object
func (p *pool) step(c *engine.Ctx, spare node, maxKeys int) {
	nk := len(p.ks)
	o := c.Pick(nk + len(p.ss))
	if o >= nk {
		i := o - nk
		s, n := p.ss[i], p.sn[i]
		switch c.Pick(4) {
		case 0: // a new key
			p.hist = append(p.hist, fmt.Sprintf("FromSignatureKey(sig %d)", i))
			k, err := key.FromSignatureKey(s)
			c.Check((err == nil) == (p.st[i] == 0), "from", "after %v: %v", p.hist, err)
			if err == nil {
				p.add(c, k, n)
			}
		case 1: // into an existing key
			j := c.Pick(nk)
			p.hist = append(p.hist, fmt.Sprintf("key %d.FromSignatureKey(sig %d)", j, i))
			err := p.ks[j].FromSignatureKey(s)
			c.Check((err == nil) == (p.st[i] == 0), "from", "after %v: %v", p.hist, err)
			if err != nil {
				// what the receiver holds now is nobody's business
				p.ks = append(p.ks[:j:j], p.ks[j+1:]...)
				p.kn = append(p.kn[:j:j], p.kn[j+1:]...)
				if len(p.ks) == 0 {
					p.add(c, spare.real(), spare)
				}
				break
			}
			m := n
			p.kn[j] = &m
		case 2:
			p.hist = append(p.hist, fmt.Sprintf("sig %d.Truncate()", i))
			s.Truncate()
			if p.st[i] == 0 {
				p.st[i] = 1
			}
		case 3:
			p.hist = append(p.hist, fmt.Sprintf("sig %d.Zeroize()", i))
			s.Zeroize()
			p.st[i] = 2
		}
		return
	}
	k, n := p.ks[o], p.kn[o]
	op := c.Pick(kOps)
	say := func(f string) { p.hist = append(p.hist, fmt.Sprintf("key %d.%s", o, f)) }
	if n == nil && op < 8 {
		c.Stop()
	}
	if nk >= maxKeys && (op <= 2 || op == 6) {
		c.Stop()
	}
	switch op {
	case 0, 1:
		i := uint32(op) * (1 << 31)
		if i != 0 && !n.priv {
			c.Stop()
		}
		say(fmt.Sprintf("Child(%d)", i))
		want, ok := childMemo(*n, i)
		ck, err := k.Child(i)
		c.Check(ok && err == nil, "child", "after %v: %v", p.hist, err)
		p.add(c, ck, want)
	case 2:
		say("Public()")
		pk, err := k.Public()
		c.Check(err == nil, "public", "after %v: %v", p.hist, err)
		p.add(c, pk, n.neuter())
	case 3:
		say("SPubKey()")
		s, err := k.SPubKey()
		c.Check(err == nil, "spub", "after %v: %v", p.hist, err)
		p.ss, p.sn, p.st = append(p.ss, s), append(p.sn, n.neuter()), append(p.st, 0)
	case 4:
		if !n.priv {
			c.Stop()
		}
		say("SPrivKey()")
		s, err := k.SPrivKey()
		c.Check(err == nil, "spriv", "after %v: %v", p.hist, err)
		p.ss, p.sn, p.st = append(p.ss, s), append(p.sn, *n), append(p.st, 0)
	case 5:
		say("PubKeyBytes()")
		c.Check(bytes.Equal(k.PubKeyBytes(), n.pub()), "pub", "after %v: %x, want %x", p.hist, k.PubKeyBytes(), n.pub())
	case 6:
		say("DeriveFrom(/, /5/6)")
		want, ok := refDeriveOK(*n, "/", "/5/6")
		dk, err := k.DeriveFrom("/", "/5/6")
		c.Check(ok && err == nil, "derive", "after %v: %v", p.hist, err)
		p.add(c, dk, want)
	case 7:
		say("MarshalText, and back into itself")
		t, err := k.MarshalText()
		c.Check(err == nil && string(t) == n.text(), "text", "after %v: %s %v", p.hist, t, err)
		c.Check(k.UnmarshalText(t) == nil, "text", "after %v: refused", p.hist)
	case 8, 9:
		m := spare
		if op == 9 {
			m = m.neuter()
		}
		say(fmt.Sprintf("UnmarshalText(private=%v)", m.priv))
		c.Check(k.UnmarshalText([]byte(m.text())) == nil, "text", "after %v: refused", p.hist)
		p.kn[o] = &m
	case 10:
		say("Zero()")
		k.Zero()
		p.kn[o] = nil
	case 11: // the views are copies
		if n == nil || !n.priv {
			c.Stop()
		}
		say("ECPrivKey() with its number changed")
		e, err := k.ECPrivKey()
		c.Check(err == nil, "ecpriv", "%v", err)
		e.D.SetInt64(5)
		e.X.SetInt64(5)
	case 12:
		if n == nil {
			c.Stop()
		}
		say("MarshalText, decoded, changed")
		sk, err := k.AsSignatureKey()
		c.Check(err == nil, "assig", "%v", err)
		eb := sk.ExtraBytes()
		for i := range eb {
			eb[i] ^= 0x55
		}
	}
}

// faulty is a source of randomness: it answers with at most chunk bytes at a
// time, and after so many bytes with an error (or io.EOF, or endless nothing)
type faulty struct {
	chunk  int
	limit  int
	err    error
	empty  int  // how many empty answers before each chunk
	with   bool // the error comes with the last bytes
	given  int
	e      int
	calls  int
	asked  int
	stream func(int) byte
	got    []byte
}

func (f *faulty) Read(b []byte) (int, error) {
	f.calls++
	f.asked += len(b)
	if f.e < f.empty {
		f.e++
		return 0, nil
	}
	f.e = 0
	n := len(b)
	if n > f.chunk {
		n = f.chunk
	}
	if f.given+n >= f.limit {
		n = f.limit - f.given
	}
	for i := 0; i < n; i++ {
		b[i] = f.stream(f.given + i)
	}
	f.got = append(f.got, b[:n]...)
	f.given += n
	if f.given >= f.limit && (n == 0 || f.with) {
		return n, f.err
	}
	return n, nil
}

var errRand = errors.New("no more randomness")

func init() {
	register(&engine.Property{ID: "K04", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		depth, maxKeys := 4, 4
		if tier == "thorough" {
			depth, maxKeys = 5, 5
		}
		root, spare := mustMaster(31), mustMaster(32)
		spare, _ = refChild(spare, 9)
		return []engine.Harness{
			{Name: "histories", About: fmt.Sprintf("every history of up to %d operations (derive, make public, views, text, zero, reload) on a private key and all that comes of it; every live object is compared after every operation", depth), Body: func(c *engine.Ctx) {
				p := &pool{}
				p.add(c, root.real(), root)
				if c.Bool() {
					p.hist = append(p.hist, "PubKeyBytes()")
					samePub(c, "public", p.ks[0], root)
				}
				d := 1 + c.Pick(depth)
				for i := 0; i < d; i++ {
					p.step(c, spare, maxKeys)
					p.check(c, false)
				}
				p.check(c, true)
				c.State(strings.Join(p.hist, ";"))
				c.Logf("%s", strings.Join(p.hist, "; "))
			}},
			{Name: "cleared", About: "a key, private or public, with and without its public key computed, cleared one to three times, and keys never filled: nothing of it is left, also where its bytes had been handed out, every operation on it is an error and none panics, and it can be filled again", Body: func(c *engine.Ctx) {
				n := root
				if c.Bool() {
					n, _ = refChild(n, 1<<31+3)
				}
				if c.Bool() {
					n = n.neuter()
				}
				how := c.Pick(3) // cleared, never filled, a failed read
				k := n.real()
				var held, heldPub []byte
				if how == 0 {
					held = k.Bytes()
					if c.Bool() {
						heldPub = k.PubKeyBytes()
					}
					for i := c.Pick(3); i >= 0; i-- {
						k.Zero()
					}
					c.Check(k.ParentFingerprint() == 0, "cleared", "the fingerprint is left")
				} else {
					k = new(key.ExtendedKey)
					if how == 2 {
						c.Check(k.UnmarshalText([]byte("npub"+n.text()[4:40])) != nil, "failed", "half a text was read")
					}
				}
				for _, b := range append(append([]byte{}, held...), heldPub...) {
					c.Check(b == 0, "cleared", "the key's bytes which had been handed out are still %x %x", held, heldPub)
				}
				switch c.Pick(2) {
				case 0:
					c.NoPanic("cleared panic", func() {
						c.Check(len(k.Bytes()) == 0 && len(k.PubKeyBytes()) == 0 && !k.IsPrivate() && k.Depth() == 0, "cleared", "%x %x is left", k.Bytes(), k.PubKeyBytes())
						is := func(what string, err error) { c.Check(err != nil, "cleared", "%s of a cleared key is no error", what) }
						_, err := k.MarshalText()
						is("MarshalText", err)
						_, err = k.AsSignatureKey()
						is("AsSignatureKey", err)
						_, err = k.SPubKey()
						is("SPubKey", err)
						_, err = k.SPrivKey()
						is("SPrivKey", err)
						_, err = k.ECPubKey()
						is("ECPubKey", err)
						_, err = k.ECPrivKey()
						is("ECPrivKey", err)
						for _, i := range []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
							ck, err := k.Child(i)
							is("Child", err)
							c.Check(ck == nil, "cleared", "a cleared key has a child")
							ck, err = k.HardenedChild(i)
							is("HardenedChild", err)
							c.Check(ck == nil, "cleared", "a cleared key has a child")
						}
						dk, err := k.DeriveFrom("/", "/1")
						is("DeriveFrom", err)
						c.Check(dk == nil, "cleared", "a cleared key derives a key")
						x, err := keyaddr.KeyFromExtended(k)
						is("KeyFromExtended", err)
						c.Check(x == nil, "cleared", "a cleared key has the text %v", x)
					})
				case 1:
					c.Check(k.UnmarshalText([]byte(n.text())) == nil, "refill", "refused")
					sameNode(c, "refill", k, n)
					samePub(c, "refill", k, n)
				}
				c.State(fmt.Sprint(how, n.priv, n.depth, len(heldPub)))
			}},
		}
	}})
	register(&engine.Property{ID: "K05", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		thorough := tier == "thorough"
		scal := edgeScalars()
		pick := func(c *engine.Ctx) node {
			n := nodeWith(scal[c.Pick(len(scal))], c.Pick(5))
			n.depth = []int{0, 1, 2, 127, 128, 254, 255}[c.Pick(7)]
			n.num = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}[c.Pick(6)]
			n.fp = [][3]byte{{0, 0, 0}, {1, 2, 3}, {255, 255, 255}, {0, 0, 1}, {128, 0, 0}}[c.Pick(5)]
			if c.Bool() {
				n = n.neuter()
			}
			return n
		}
		bases := []node{}
		for i := 0; i < 3; i++ {
			n := mustMaster(40 + i)
			n, _ = refChild(n, uint32(i)<<31+7)
			bases = append(bases, n, n.neuter())
		}
		old := func(c *engine.Ctx, s string, want *node) {
			c.NoPanic("panic", func() {
				k, err := key.FromOldSerialization(s)
				if want == nil {
					c.Check(err != nil && k == nil, "old", "FromOldSerialization(%q) gave a key", s)
					return
				}
				c.Check(err == nil, "old", "FromOldSerialization(%q): %v", s, err)
				sameNode(c, "old", k, *want)
				samePub(c, "old", k, *want)
				t, err := k.MarshalText()
				c.Check(err == nil && string(t) == want.text(), "old", "a converted key is %q, want %q", t, want.text())
			})
		}
		return []engine.Harness{
			{Name: "round-trip", About: "keys at the edges, 7 depths, 6 child numbers, 5 fingerprints, 5 chain codes, private and public: the text is the documented one and reads back to the same key, into a fresh or a used key", Body: func(c *engine.Ctx) {
				n := pick(c)
				if !thorough {
					// each field against few values of the others
					h := sha256.Sum256(n.key)
					if (n.depth+int(n.num)+int(h[0]))%8 != 0 {
						c.Stop()
					}
				}
				k := n.real()
				t, err := k.MarshalText()
				c.Check(err == nil && string(t) == n.text(), "text", "MarshalText()=%q %v, want %q", t, err, n.text())
				used := bases[0].real()
				used.PubKeyBytes()
				for i, r := range []*key.ExtendedKey{new(key.ExtendedKey), used, k} {
					in := append([]byte{}, t...)
					c.NoPanic("panic", func() {
						c.Check(r.UnmarshalText(in) == nil, "text", "UnmarshalText(%q) refused", t)
					})
					for x := range in {
						in[x] = 'x'
					}
					sameNode(c, fmt.Sprintf("receiver %d", i), r, n)
					samePub(c, fmt.Sprintf("receiver %d", i), r, n)
				}
				c.State(string(t))
			}},
			{Name: "old-round-trip", About: "the previous serialization of the same keys, under every version prefix known and others", Body: func(c *engine.Ctx) {
				n := pick(c)
				v := [][]byte{key.NdauPrivateKeyID[:], key.NdauPublicKeyID[:], key.TestPrivateKeyID[:], key.TestPublicKeyID[:]}[c.Pick(4)]
				if !thorough {
					h := sha256.Sum256(n.key)
					if (n.depth+int(n.num)+int(h[0])+int(v[1]))%16 != 0 {
						c.Stop()
					}
				}
				s := n.oldText(v)
				c.Logf("%s", s)
				old(c, s, &n)
				c.State(s)
			}},
			{Name: "old-typos", About: "every character of old serializations replaced by every other byte and by characters which change to ASCII with their letter case, dropped or doubled; every pair of neighbours swapped", Body: func(c *engine.Ctx) {
				n := bases[c.Pick(len(bases))]
				s := []byte(n.oldText(key.NdauPrivateKeyID[:]))
				orig := string(s)
				i := c.Pick(len(s))
				switch m := c.Pick(259 + len(foreignRunes())); {
				case m >= 259:
					s = append(append(append([]byte{}, s[:i]...), string(foreignRunes()[m-259])...), s[i+1:]...)
				case m < 256:
					s[i] = byte(m)
				case m == 256:
					s = append(s[:i], s[i+1:]...)
				case m == 257:
					s = append(s[:i+1], append([]byte{s[i]}, s[i+1:]...)...)
				case m == 258 && i > 0:
					s[i], s[i-1] = s[i-1], s[i]
				}
				// case folding is the code's (base32 is case insensitive), nothing else is
				if asciiLower(string(s)) == orig {
					c.Stop()
				}
				old(c, string(s), nil)
			}},
			{Name: "old-case", About: "letter case of old serializations does not change the key", Body: func(c *engine.Ctx) {
				n := bases[c.Pick(len(bases))]
				s := n.oldText(key.NdauPrivateKeyID[:])
				if c.Bool() {
					s = strings.ToUpper(s)
				}
				k, err := key.FromOldSerialization(s)
				if err == nil {
					sameNode(c, "old case", k, n)
				}
			}},
			{Name: "old-lengths", About: "payloads of every length 0..140 with a right checksum: only the documented length is read", Body: func(c *engine.Ctx) {
				l := c.Pick(141)
				p := testData(l, c.Pick(4))
				if l == 76 {
					c.Stop()
				}
				old(c, oldSum(p), nil)
			}},
			{Name: "old-checksum", About: "every bit of the checksum and every single byte changed in the raw bytes", Body: func(c *engine.Ctx) {
				n := bases[c.Pick(len(bases))]
				raw, ok := refUnB32(n.oldText(key.NdauPrivateKeyID[:]))
				c.Check(ok && len(raw) == 80, "setup", "%d", len(raw))
				i := c.Pick(80)
				raw[i] ^= byte(1 + c.Pick(255))
				old(c, refB32(raw), nil)
			}},
			{Name: "old-invalid", About: "well-formed serializations of what is no key: 0, the group order and beyond as private keys; every first byte; x coordinates off the curve", Body: func(c *engine.Ctx) {
				n := bases[0]
				var kb []byte
				valid := false
				switch c.Pick(3) {
				case 0: // private
					v := []*big.Int{big.NewInt(0), curveN, new(big.Int).Add(curveN, big.NewInt(1)), curveP, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)),
						big.NewInt(1), new(big.Int).Sub(curveN, big.NewInt(1))}[c.Pick(7)]
					kb = append([]byte{0}, v.FillBytes(make([]byte, 32))...)
					valid = v.Sign() > 0 && v.Cmp(curveN) < 0
				case 1: // first bytes
					kb = append([]byte{byte(c.Pick(256))}, bases[1].key[1:]...)
					valid = kb[0] <= 3 && kb[0] != 1
				case 2: // x coordinates
					x := big.NewInt(int64(c.Pick(300)))
					if c.Bool() {
						x.Sub(curveP, x)
					}
					// (btcec takes x+P for x in compressed keys, where they fit: not ndaumath's)
					if x.Cmp(curveP) >= 0 {
						c.Stop()
					}
					kb = append([]byte{2 + byte(c.Pick(2))}, x.FillBytes(make([]byte, 32))...)
					_, valid = decompress(kb)
				}
				m := n
				m.priv = kb[0] == 0
				m.key = kb
				if m.priv {
					m.key = kb[1:]
				}
				s := m.oldText(key.NdauPublicKeyID[:])
				c.Logf("%x", kb)
				if valid {
					old(c, s, &m)
				} else {
					old(c, s, nil)
				}
				c.State(string(kb))
			}},
			{Name: "typos", About: "every character of the text form replaced by each character of the alphabet: refused, but for the 1 in 2^24 the checksum permits", Body: func(c *engine.Ctx) {
				n := bases[c.Pick(len(bases))]
				s := []byte(n.text())
				i := c.Pick(len(s))
				b := byte(c.Pick(256))
				if asciiLower(string([]byte{b})) == string(s[i:i+1]) {
					c.Stop()
				}
				s[i] = b
				c.NoPanic("panic", func() {
					k := new(key.ExtendedKey)
					c.Check(k.UnmarshalText(s) != nil, "typo", "UnmarshalText(%q) accepted", s)
				})
			}},
			{Name: "foreign", About: "texts of keys which are no extended keys: other algorithms, no or short extra bytes; what remains after is refused by every view", Body: func(c *engine.Ctx) {
				a := algos[c.Pick(3)]
				priv := c.Bool()
				ne := c.Pick(60)
				kb := testData(a.size(priv), 2)
				if a.id == 2 && !priv {
					kb = bases[1].key
				}
				ex := testData(ne, 3)
				text := keyPrefix(priv) + refText(refKeyBytes(a.id, kb, ex))
				c.NoPanic("panic", func() {
					k := bases[0].real()
					k.PubKeyBytes()
					err := k.UnmarshalText([]byte(text))
					rk, err2 := rawKey(priv, a, kb, ex)
					c.Check(err2 == nil, "setup", "%v", err2)
					k2, err3 := key.FromSignatureKey(rk.(signature.Key))
					c.Check((err == nil) == (err3 == nil), "foreign", "%v, %v", err, err3)
					if a.id != 2 || ne < 40 {
						c.Check(err != nil && k2 == nil, "foreign", "a %s key with %d extra bytes was taken for an extended key", a.name, ne)
						return
					}
					if ne == 40 {
						c.Check(err == nil, "foreign", "%v", err)
						c.Check(bytes.Equal(k.Bytes(), kb) && k.IsPrivate() == priv && k.Depth() == ex[0], "foreign", "%x", k.Bytes())
						c.Check(bytes.Equal(k2.Bytes(), kb) && k2.IsPrivate() == priv, "foreign", "%x", k2.Bytes())
					}
				})
			}},
		}
	}})
	register(&engine.Property{ID: "K06", Level: "fault_enumeration", Rule: "each case is a requested length and a behaviour of the random source (chunk size, empty answers, error after k bytes, with or without them); non-trivial when distinct",
		Harnesses: func(tier string) []engine.Harness {
			streams := []func(int) byte{func(i int) byte { return byte(i*7 + 3) }, func(i int) byte { return 0 }, func(i int) byte { return 0xff }}
			return []engine.Harness{
				{Name: "seeds", About: "every requested length 0..255, chunks of 1..70 bytes, an error (two kinds) after every number of bytes 0..66 or never, alone or with the last bytes; up to 2 empty answers", Body: func(c *engine.Ctx) {
					l := c.Pick(256)
					if (l < 16 || l > 64) && c.Pick(2) == 1 {
						c.Stop()
					}
					f := &faulty{chunk: 1 + c.Pick(70), limit: 1 << 30, err: errRand, stream: streams[0]}
					if l >= 16 && l <= 64 {
						if tier != "thorough" && f.chunk > 4 && f.chunk < 64 && f.chunk%l > 1 {
							c.Stop()
						}
						if k := c.Pick(68); k < 67 {
							f.limit = k
							f.err = []error{errRand, io.EOF, io.ErrUnexpectedEOF}[c.Pick(3)]
							f.with = c.Bool()
						}
						f.empty = c.Pick(3)
					}
					c.Logf("GenerateSeed(%d) from %+v", l, *f)
					c.NoPanic("panic", func() {
						seed, err := bip32.GenerateSeed(uint8(l), f)
						if l < 16 || l > 64 {
							c.Check(err != nil && len(seed) == 0 && f.given == 0, "length", "GenerateSeed(%d) gave %x", l, seed)
							return
						}
						if f.limit < l {
							c.Check(err != nil, "fault", "GenerateSeed(%d) succeeded though its source failed after %d bytes", l, f.limit)
							return
						}
						c.Check(err == nil, "seed", "GenerateSeed(%d): %v", l, err)
						want := make([]byte, l)
						for i := range want {
							want[i] = f.stream(i)
						}
						c.Check(bytes.Equal(seed, want), "seed", "GenerateSeed(%d)=%x, not the first bytes of its source %x", l, seed, want)
					})
					c.State(fmt.Sprint(l, f.chunk, f.limit, f.with, f.err, f.empty))
				}},
				{Name: "default-source", About: "without a source: lengths right, seeds of 1 in 2^128 collisions distinct", Body: func(c *engine.Ctx) {
					l := c.Pick(256)
					seen := map[string]bool{}
					for i := 0; i < 4; i++ {
						var seed []byte
						var err error
						if i < 2 {
							seed, err = bip32.GenerateSeed(uint8(l), nil)
						} else {
							seed, err = key.GenerateSeed(uint8(l))
						}
						if l < 16 || l > 64 {
							c.Check(err != nil && len(seed) == 0, "length", "GenerateSeed(%d) gave %x", l, seed)
							continue
						}
						c.Check(err == nil && len(seed) == l, "seed", "GenerateSeed(%d)=%x %v", l, seed, err)
						c.Check(!seen[string(seed)], "seed", "GenerateSeed(%d) gave %x twice", l, seed)
						seen[string(seed)] = true
						// no part of it is left unfilled (a run of 12 zero bytes has 2^-96)
						c.Check(!bytes.Contains(seed, make([]byte, 12)), "seed", "GenerateSeed(%d)=%x", l, seed)
						if _, err := key.NewMaster(seed); err != nil {
							c.Fail("seed", "NewMaster(%x): %v", seed, err)
						}
					}
					c.State(fmt.Sprint(l))
				}},
			}
		}})
}
