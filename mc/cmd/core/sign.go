package main

import (
	"bytes"
	stded "crypto/ed25519"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/ndau/ndaumath/pkg/signature"
	"verif/mc/engine"
)

// pair is a key pair with its algorithm
type pair struct {
	a         algo
	pub, priv []byte
}

func (p pair) keys(c *engine.Ctx, extra []byte) (*signature.PublicKey, *signature.PrivateKey) {
	b, err := signature.RawPublicKey(p.a.al, append([]byte{}, p.pub...), append([]byte{}, extra...))
	c.Check(err == nil, "raw", "%v", err)
	v, err := signature.RawPrivateKey(p.a.al, append([]byte{}, p.priv...), append([]byte{}, extra...))
	c.Check(err == nil, "raw", "%v", err)
	return b, v
}

func edPair(seed []byte) pair {
	k := stded.NewKeyFromSeed(seed)
	return pair{algos[1], []byte(k.Public().(stded.PublicKey)), []byte(k)}
}

func secPair(scalar []byte) pair { return pair{algos[2], refPub(scalar), scalar} }

// parseDER reads a strict DER signature: 30 len 02 len r 02 len s
func parseDER(b []byte) (r, s *big.Int, rAt, sAt [2]int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) != len(b)-2 || b[2] != 2 {
		return
	}
	rl := int(b[3])
	if 4+rl+2 > len(b) || b[4+rl] != 2 {
		return
	}
	sl := int(b[5+rl])
	if 6+rl+sl != len(b) || rl == 0 || sl == 0 {
		return
	}
	rAt, sAt = [2]int{4, 4 + rl}, [2]int{6 + rl, 6 + rl + sl}
	return new(big.Int).SetBytes(b[4 : 4+rl]), new(big.Int).SetBytes(b[6+rl:]), rAt, sAt, true
}

var goodCache = newMemo()

// refGood verifies a signature independently of the code
func refGood(p pair, msg, sig []byte) bool {
	k := fmt.Sprintf("%d %x %x %x", p.a.id, p.pub, msg, sig)
	if v, ok := goodCache.Load(k); ok {
		return v.(bool)
	}
	v := refGood1(p, msg, sig)
	if len(msg) < 1000 {
		goodCache.Store(k, v)
	}
	return v
}

func refGood1(p pair, msg, sig []byte) bool {
	switch p.a.id {
	case 1:
		return len(sig) == 64 && stded.Verify(stded.PublicKey(p.pub), msg, sig)
	case 2:
		r, s, _, _, ok := parseDER(sig)
		h := sha256.Sum256(msg)
		return ok && refVerify(p.pub, h[:], r, s)
	}
	return false
}

var somePairs []pair
var pairsOnce sync.Once

// pairs: two of ed25519 and several of secp256k1, the same seeds for both
func allPairs() []pair {
	pairsOnce.Do(func() {
		for i := 0; i < 4; i++ {
			somePairs = append(somePairs, edPair(testData(32, i)), secPair(mustMaster(60+i).key))
		}
		sc := edgeScalars()
		for _, i := range []int{0, 1, 2, 3, 39, 38} {
			somePairs = append(somePairs, secPair(sc[i]))
		}
		// a secp256k1 key from the very bytes of an ed25519 seed
		somePairs = append(somePairs, secPair(testData(32, 2)))
	})
	return somePairs
}

func init() {
	register(&engine.Property{ID: "S03", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		thorough := tier == "thorough"
		ps := allPairs()
		maxLen := 260
		if thorough {
			maxLen = 1500
		}
		maxPow := 17
		if thorough {
			maxPow = 20
		}
		scal := edgeScalars()
		sign := func(c *engine.Ctx, p pair, msg []byte) (*signature.PublicKey, *signature.PrivateKey, signature.Signature) {
			pub, priv := p.keys(c, nil)
			keep := append([]byte{}, msg...)
			room := spare(msg)
			s := priv.Sign(room)
			c.Check(bytes.Equal(room, keep) && intact(room), "input", "Sign changed the message")
			c.Check(signature.SameAlgorithm(s.Algorithm(), p.a.al), "sign", "the signature is of %s", signature.NameOf(s.Algorithm()))
			c.Check(refGood(p, msg, s.Bytes()), "sign "+p.a.name, "Sign(%x) by %x gives %x, which is no signature of it", msg, p.priv, s.Bytes())
			return pub, priv, s
		}
		verify := func(c *engine.Ctx, what string, pub *signature.PublicKey, msg []byte, s signature.Signature, want bool) {
			keep, ks := append([]byte{}, msg...), append([]byte{}, s.Bytes()...)
			c.NoPanic("panic "+what, func() {
				room := spare(msg)
				got := pub.Verify(room, s)
				c.Check(bytes.Equal(room, keep) && intact(room), "input", "Verify changed the message")
				c.Check(got == want, what, "Verify(%x, %x) with %s %x is %v", msg, s.Bytes(), signature.NameOf(pub.Algorithm()), pub.KeyBytes(), got)
				c.Check(s.Verify(msg, *pub) == want, what, "the signature's own Verify is %v", !want)
			})
			c.Check(bytes.Equal(msg, keep) && bytes.Equal(s.Bytes(), ks), "input", "Verify changed its input")
		}
		return []engine.Harness{
			{Name: "messages", About: fmt.Sprintf("messages of every length 0..%d in two fills and around 4096 and 65536, by %d key pairs: the signature verifies, here and independently, again after every round trip, and again signed it is the same", maxLen, len(ps)), Body: func(c *engine.Ctx) {
				n := c.Pick(maxLen + 7)
				pi := c.Pick(len(ps))
				fill := c.Pick(2)
				if n > 70 && pi >= 4 || n > 70 && pi%2 != n%2 && !thorough {
					c.Stop()
				}
				if n > maxLen {
					n = []int{4095, 4096, 4097, 65535, 65536, 65537}[n-maxLen-1]
				}
				p := ps[pi]
				msg := testData(n, fill*3)
				pub, priv, s := sign(c, p, msg)
				c.Logf("%s %x signs %d bytes: %x", p.a.name, p.priv, n, s.Bytes())
				verify(c, "verify", pub, msg, s, true)
				s2 := priv.Sign(msg)
				c.Check(bytes.Equal(s.Bytes(), s2.Bytes()), "deterministic", "two signatures: %x, %x", s.Bytes(), s2.Bytes())
				// everything through text and bytes and back
				b, err := s.MarshalText()
				s3 := signature.Signature{}
				c.Check(err == nil && s3.UnmarshalText(b) == nil, "text", "%v", err)
				pb, err := pub.Marshal()
				pub2 := new(signature.PublicKey)
				c.Check(err == nil && pub2.Unmarshal(pb) == nil, "bytes", "%v", err)
				verify(c, "verify after a round trip", pub2, msg, s3, true)
				vt, err := priv.MarshalText()
				priv2 := new(signature.PrivateKey)
				c.Check(err == nil && priv2.UnmarshalText(vt) == nil, "text", "%v", err)
				s4 := priv2.Sign(msg)
				c.Check(bytes.Equal(s4.Bytes(), s.Bytes()), "sign after a round trip", "%x", s.Bytes())
				c.State(string(s.Bytes()))
			}},
			{Name: "scalars", About: "every edge private key of secp256k1 signs, and its public key is right", Body: func(c *engine.Ctx) {
				p := secPair(scal[c.Pick(len(scal))])
				msg := testData(c.Pick(3), 2)
				pub, priv, s := sign(c, p, msg)
				verify(c, "verify", pub, msg, s, true)
				c.Check(bytes.Equal(signature.Secp256k1.Public(p.priv), p.pub), "public", "Public(%x)=%x", p.priv, signature.Secp256k1.Public(p.priv))
				c.Check(signature.Match(*pub, *priv), "match", "a pair does not match")
				c.State(string(s.Bytes()))
			}},
			{Name: "other-messages", About: "every single bit of the message flipped, every prefix, one byte more: not verified", Body: func(c *engine.Ctx) {
				p := ps[c.Pick(4)]
				n := []int{0, 1, 2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}[c.Pick(14)]
				msg := testData(n, 3)
				pub, _, s := sign(c, p, msg)
				m2 := append([]byte{}, msg...)
				switch c.Pick(4) {
				case 0:
					i := c.Pick(n * 8)
					m2[i/8] ^= 1 << uint(i%8)
				case 1:
					m2 = m2[:c.Pick(n)]
				case 2:
					m2 = append(m2, []byte{0, 1, 0x80, 0xff}[c.Pick(4)])
				case 3:
					if n == 0 {
						c.Stop()
					}
					m2 = m2[1:]
				}
				c.Logf("%x for %x", m2, msg)
				verify(c, "other message", pub, m2, s, false)
				c.State(string(m2))
			}},
			{Name: "long-messages", About: fmt.Sprintf("messages of 2^9 to 2^%d bytes, 1, 33, 63, 64 or 65 more or 1 less: every bit at the ends and around every power of two flipped, bytes dropped or added at either end: not verified", maxPow), Body: func(c *engine.Ctx) {
				k := 9 + c.Pick(maxPow-8)
				p := ps[c.Pick(2)]
				n := 1<<uint(k) + []int{-1, 0, 1, 33, 63, 64, 65}[c.Pick(7)]
				msg := testData(n, 3)
				pub, priv := p.keys(c, nil)
				s := priv.Sign(msg)
				c.Check(refGood(p, msg, s.Bytes()), "sign "+p.a.name, "Sign(%d bytes) by %x gives %x, which is no signature of it", n, p.priv, s.Bytes())
				c.Check(pub.Verify(msg, s), "long message", "%d bytes are not verified", n)
				other := func(what string, m []byte) {
					c.NoPanic("panic long message", func() {
						c.Check(!pub.Verify(m, s), "long message", "Verify of %d bytes is true after %s", n, what)
					})
				}
				flip := func(i int) {
					if 0 <= i && i < n {
						msg[i] ^= 1 << uint(i%8)
						other(fmt.Sprintf("a bit of byte %d was changed", i), msg)
						msg[i] ^= 1 << uint(i%8)
					}
				}
				for j := 0; j < 3; j++ {
					flip(j)
					flip(n - 1 - j)
				}
				for j := 5; j <= k; j++ {
					for e := -1; e <= 1; e++ {
						flip(1<<uint(j) + e)
						flip(n - 1<<uint(j) + e)
					}
				}
				other("the last byte was dropped", msg[:n-1])
				other("the first byte was dropped", msg[1:])
				other("the last 32 bytes were dropped", msg[:n-32])
				other("a byte was added", append(append([]byte{}, msg...), 0))
				c.State(string(s.Bytes()))
			}},
			{Name: "other-signatures", About: "every bit of the signature's numbers flipped, every truncation, bytes added, numbers replaced by 0, the group order and others: not verified", Body: func(c *engine.Ctx) {
				p := ps[c.Pick(6)]
				msg := testData(40, c.Pick(3))
				pub, _, s := sign(c, p, msg)
				b := append([]byte{}, s.Bytes()...)
				what := "forged signature"
				switch c.Pick(4) {
				case 0: // a bit
					i := c.Pick(len(b) * 8)
					if p.a.id == 2 {
						_, _, ra, sa, _ := parseDER(b)
						if k := i / 8; !(k >= ra[0] && k < ra[1] || k >= sa[0] && k < sa[1]) {
							// the framing: it must not panic (what btcec makes of it is its business)
							b[i/8] ^= 1 << uint(i%8)
							x, _ := signature.RawSignature(p.a.al, b)
							c.NoPanic("panic", func() { pub.Verify(msg, *x) })
							return
						}
					}
					b[i/8] ^= 1 << uint(i%8)
				case 1:
					b = b[:c.Pick(len(b))]
					if p.a.id == 1 {
						_, err := signature.RawSignature(p.a.al, b)
						c.Check(err != nil, "size", "a signature of %d bytes was made", len(b))
						return
					}
				case 2: // other numbers
					vals := [][]byte{{0}, {1}, curveN.Bytes(), curveP.Bytes(), new(big.Int).Sub(curveN, big.NewInt(1)).Bytes(), testData(32, 1), {}}
					i, j := c.Pick(len(vals)+1), c.Pick(len(vals)+1)
					if i == len(vals) && j == len(vals) {
						c.Stop()
					}
					if p.a.id == 1 {
						if i < len(vals) {
							copy(b[:32], new(big.Int).SetBytes(vals[i]).FillBytes(make([]byte, 32)))
						}
						if j < len(vals) {
							copy(b[32:], new(big.Int).SetBytes(vals[j]).FillBytes(make([]byte, 32)))
						}
					} else {
						r, sv, _, _, _ := parseDER(b)
						rb, sb := r.Bytes(), sv.Bytes()
						if i < len(vals) {
							rb = vals[i]
						}
						if j < len(vals) {
							sb = vals[j]
						}
						b = derOf(rb, sb)
					}
				case 3: // r and s exchanged, or all of one byte
					if p.a.id == 1 {
						b = append(append([]byte{}, b[32:]...), b[:32]...)
					} else {
						r, sv, _, _, _ := parseDER(b)
						b = derOf(sv.Bytes(), r.Bytes())
					}
				}
				x, err := signature.RawSignature(p.a.al, b)
				c.Check(err == nil, "raw", "%v", err)
				verify(c, what, pub, msg, *x, false)
				c.State(string(b))
			}},
			{Name: "cross", About: "every key, message and signature of all pairs against each other, with signatures relabelled to other algorithms", Body: func(c *engine.Ctx) {
				p, q := ps[c.Pick(len(ps))], ps[c.Pick(len(ps))]
				msg := testData(20, 2)
				_, priv, s := sign(c, p, msg)
				pub, _ := q.keys(c, nil)
				same := bytes.Equal(p.pub, q.pub) && p.a.id == q.a.id
				label := c.Pick(4)
				if label < 3 {
					if label == int(p.a.id) {
						c.Stop()
					}
					a := algos[label]
					if a.sigSz >= 0 && len(s.Bytes()) != a.sigSz {
						_, err := signature.RawSignature(a.al, s.Bytes())
						c.Check(err != nil, "size", "a %s signature of %d bytes was made", a.name, len(s.Bytes()))
						c.Stop()
					}
					x, err := signature.RawSignature(a.al, s.Bytes())
					c.Check(err == nil, "raw", "%v", err)
					verify(c, "relabelled", pub, msg, *x, false)
					return
				}
				verify(c, "cross", pub, msg, s, same)
				c.Check(signature.Match(*pub, *priv) == same, "match", "Match(%x, %x)=%v", pub.KeyBytes(), priv.KeyBytes(), !same)
				c.State(fmt.Sprint(p.a.id, q.a.id, same))
			}},
			{Name: "nothing", About: "zero, null and zeroized keys and signatures against all others: never verified, never a panic", Body: func(c *engine.Ctx) {
				p := ps[c.Pick(4)]
				msg := testData(c.Pick(3), 2)
				pub, priv := p.keys(c, []byte("extra"))
				s := priv.Sign(msg)
				c.NoPanic("nothing", func() {
					null, err := signature.RawSignature(signature.Null, nil)
					c.Check(err == nil, "null", "%v", err)
					nullPub, err := signature.RawPublicKey(signature.Null, nil, nil)
					c.Check(err == nil, "null", "%v", err)
					nullPriv, err := signature.RawPrivateKey(signature.Null, nil, nil)
					c.Check(err == nil, "null", "%v", err)
					zeroed, _ := p.keys(c, nil)
					zeroed.Zeroize()
					pubs := []*signature.PublicKey{pub, nullPub, new(signature.PublicKey), zeroed}
					nulled := nullPriv.Sign(msg)
					zs := new(signature.PrivateKey).Sign(msg)
					sigs := []signature.Signature{s, *null, nulled, zs, {}}
					i, j := c.Pick(len(pubs)), c.Pick(len(sigs))
					c.Logf("public key %d, signature %d", i, j)
					got := pubs[i].Verify(msg, sigs[j])
					c.Check(got == (i == 0 && j == 0), "nothing", "public key %d verifies signature %d: %v", i, j, got)
					c.Check(sigs[j].Verify(msg, *pubs[i]) == got, "nothing", "the signature's Verify differs")
					c.Check(!signature.Match(*pubs[i], *nullPriv) && !signature.Match(*pubs[i], signature.PrivateKey{}), "nothing", "a null private key matches")
				})
			}},
			{Name: "bad-public", About: "public key bytes which are no key: every first byte, x off the curve: never verified, never a panic", Body: func(c *engine.Ctx) {
				p := ps[1]
				msg := testData(9, 2)
				_, priv, s := sign(c, p, msg)
				b := append([]byte{}, p.pub...)
				switch c.Pick(2) {
				case 0:
					b[0] = byte(c.Pick(256))
				case 1:
					copy(b[1:], big.NewInt(int64(c.Pick(200))).FillBytes(make([]byte, 32)))
				}
				if bytes.Equal(b, p.pub) {
					c.Stop()
				}
				pub, err := signature.RawPublicKey(p.a.al, b, nil)
				c.Check(err == nil, "raw", "%v", err)
				verify(c, "bad public key", pub, msg, s, false)
				c.Check(!signature.Match(*pub, *priv), "match", "%x matches", b)
			}},
		}
	}})

	register(&engine.Property{ID: "S06", Level: "fault_enumeration", Rule: "each case is an algorithm and a behaviour of the random source (chunk size, empty answers, kind and place of the error, contents); non-trivial when distinct",
		Harnesses: func(tier string) []engine.Harness {
			streams := []func(int) byte{func(i int) byte { return byte(i*7 + 3) }, func(i int) byte { return 0 }, func(i int) byte { return 0xff }, func(i int) byte { return byte(i*i*31 + 200) }, func(i int) byte { return byte(255 - i) }}
			return []engine.Harness{
				{Name: "generate", About: "both algorithms; chunks of 1..40 bytes, 0..2 empty answers, an error of 3 kinds after every number of bytes 0..40 or never, alone or with the last bytes, 5 contents: the pair is the one these bytes determine, or there is an error", Body: func(c *engine.Ctx) {
					a := algos[1+c.Pick(2)]
					f := &faulty{chunk: 1 + c.Pick(40), limit: 1 << 30, err: errRand}
					f.stream = streams[c.Pick(len(streams))]
					if k := c.Pick(42); k < 41 {
						f.limit = k
						f.err = []error{errRand, io.EOF, io.ErrUnexpectedEOF}[c.Pick(3)]
						f.with = c.Bool()
					}
					f.empty = c.Pick(3)
					if tier != "thorough" && f.chunk > 3 && f.chunk < 31 && (f.chunk+f.limit)%5 != 0 {
						c.Stop()
					}
					c.Logf("%s from chunks of %d, error %v after %d bytes, %d empty answers", a.name, f.chunk, f.err, f.limit, f.empty)
					c.NoPanic("panic", func() {
						pub, priv, err := signature.Generate(a.al, f)
						if f.limit < 32 {
							c.Check(err != nil, "fault", "generated %x out of %d random bytes", priv.KeyBytes(), f.limit)
							c.Check(len(priv.KeyBytes()) == 0 && len(pub.KeyBytes()) == 0, "fault", "an error, and the key %x", priv.KeyBytes())
							return
						}
						if f.limit == 32 && f.with && err != nil && !errors.Is(err, errRand) {
							// (an end of file with the last byte is no failure, for the readers used)
							c.Fail("fault", "%v though all bytes were given", err)
						}
						c.Check(err == nil, "generate", "%v", err)
						seed := make([]byte, 32)
						for i := range seed {
							seed[i] = f.stream(i)
						}
						want := edPair(seed)
						if a.id == 2 {
							m, _ := refMaster(seed)
							want = secPair(m.key)
						}
						c.Check(bytes.Equal(pub.KeyBytes(), want.pub) && bytes.Equal(priv.KeyBytes(), want.priv), "generate", "from %x came %x %x, want %x %x", seed, pub.KeyBytes(), priv.KeyBytes(), want.pub, want.priv)
						c.Check(len(pub.ExtraBytes()) == 0 && len(priv.ExtraBytes()) == 0, "generate", "extra bytes")
						c.Check(bytes.Equal(a.al.Public(priv.KeyBytes()), pub.KeyBytes()), "public", "Public gives another key")
						c.Check(signature.Match(pub, priv), "match", "the pair does not match")
					})
					c.State(fmt.Sprint(a.id, f.chunk, f.limit, f.with, f.err, f.empty, f.stream(1), f.stream(2)))
				}},
				{Name: "default-source", About: "without a source: keys of the right sizes which match, no two alike; the null algorithm generates nothing", Body: func(c *engine.Ctx) {
					seen := map[string]bool{}
					i := c.Pick(3)
					for n := 0; n < 30; n++ {
						pub, priv, err := signature.Generate(algos[i].al, nil)
						if i == 0 {
							c.Check(err != nil, "null", "a null key was generated")
							continue
						}
						c.Check(err == nil, "generate", "%v", err)
						c.Check(len(pub.KeyBytes()) == algos[i].pub && len(priv.KeyBytes()) == algos[i].priv, "generate", "sizes %d %d", len(pub.KeyBytes()), len(priv.KeyBytes()))
						c.Check(signature.Match(pub, priv), "match", "the pair does not match")
						c.Check(!seen[string(priv.KeyBytes())], "distinct", "%x came twice", priv.KeyBytes())
						seen[string(priv.KeyBytes())] = true
						c.State(string(priv.KeyBytes()))
					}
				}},
			}
		}})
}

// derOf writes two numbers as a signature
func derOf(r, s []byte) []byte {
	pad := func(b []byte) []byte {
		if len(b) > 0 && b[0]&0x80 != 0 {
			return append([]byte{0}, b...)
		}
		return b
	}
	r, s = pad(r), pad(s)
	out := []byte{0x30, byte(4 + len(r) + len(s)), 2, byte(len(r))}
	out = append(out, r...)
	out = append(out, 2, byte(len(s)))
	return append(out, s...)
}
