package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif/mc/engine"
)

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// the version prefixes of the previous serialization
var oldPriv, oldPubl = key.NdauPrivateKeyID[:], key.NdauPublicKeyID[:]

// mobileNumbers are the child numbers offered
var mobileNumbers = []int32{0, 1, math.MaxInt32, -1, math.MinInt32, 44}

// wantKey compares a mobile key with a node
func wantKey(c *engine.Ctx, sig, what string, k *keyaddr.Key, err error, n node, ok bool) {
	if !ok {
		c.Check(err != nil && k == nil, sig, "%s gave a key", what)
		return
	}
	c.Check(err == nil && k != nil, sig, "%s: %v", what, err)
	c.Check(k.Key == n.text(), sig, "%s = %s, want %s", what, k.Key, n.text())
}

// mobileFacts checks everything a mobile key says of itself
func mobileFacts(c *engine.Ctx, k *keyaddr.Key, n node) {
	c.NoPanic("panic", func() {
		a, err := k.NdauAddress()
		c.Check(err == nil && a != nil && a.Address == refAddress('a', n.pub()), "address", "NdauAddress() = %v, %v; want %s", a, err, refAddress('a', n.pub()))
		p, err := k.IsPrivate()
		c.Check(err == nil && p == n.priv, "private", "IsPrivate() = %v, %v", p, err)
		e, err := k.ToExtended()
		c.Check(err == nil, "extended", "ToExtended: %v", err)
		sameNode(c, "extended", e, n)
		pub, err := k.ToPublicKey()
		c.Check(err == nil, "public", "ToPublicKey: %v", err)
		m := n.neuter()
		c.Check(bytes.Equal(pub.KeyBytes(), m.key) && bytes.Equal(pub.ExtraBytes(), m.extra()), "public", "ToPublicKey gave %x %x", pub.KeyBytes(), pub.ExtraBytes())
		priv, err := k.ToPrivateKey()
		if n.priv {
			c.Check(err == nil, "private", "ToPrivateKey: %v", err)
			c.Check(bytes.Equal(priv.KeyBytes(), n.key) && bytes.Equal(priv.ExtraBytes(), n.extra()), "private", "ToPrivateKey gave %x %x", priv.KeyBytes(), priv.ExtraBytes())
		} else {
			c.Check(err != nil && len(priv.KeyBytes()) == 0, "private", "ToPrivateKey of a public key gave %x", priv.KeyBytes())
		}
		c.Check(k.Key == n.text(), "unchanged", "the key became %s", k.Key)
	})
}

// mobileSign checks a signature made with the key
func mobileSign(c *engine.Ctx, k *keyaddr.Key, n node, msg []byte) {
	c.NoPanic("panic", func() {
		s, err := k.Sign(b64(msg))
		if !n.priv {
			c.Check(err != nil && s == nil, "sign", "a public key signed")
			return
		}
		c.Check(err == nil && s != nil, "sign", "Sign: %v", err)
		sig, err := s.ToSignature()
		c.Check(err == nil, "sign", "ToSignature(%s): %v", s.Signature, err)
		b, err := sig.MarshalText()
		c.Check(err == nil && string(b) == s.Signature, "sign", "the signature's text changed from %s to %s", s.Signature, b)
		raw, err := sig.Marshal()
		c.Check(err == nil, "sign", "%v", err)
		p := secPair(n.key)
		data := parseContainer(raw)
		c.Check(data.ok && data.id == 2 && refGood(p, msg, data.data), "sign", "the signature %x of %x is not one of the key's", raw, msg)
		pub, err := k.ToPublicKey()
		c.Check(err == nil && pub.Verify(msg, sig), "sign", "the signature does not verify")
		again, err := keyaddr.SignatureFrom(sig)
		c.Check(err == nil && again.Signature == s.Signature, "sign", "SignatureFrom changed the signature")
	})
}

func init() {
	register(&engine.Property{
		ID: "Y01", Level: "model_checking",
		Rule:   "The text of keys, addresses and words which the mobile API gives is what the reference implementation of BIP-32, the address format and the word format gives for the same inputs; signatures verify independently; refusals are exactly the reference's.",
		Assume: []string{"base64 is Go's standard decoder, for the code and for the reference"},
		Harnesses: func(tier string) []engine.Harness {
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			masters := []node{}
			for i := 0; i < 3; i++ {
				masters = append(masters, mustMaster(i*7+1))
			}
			lead := nodeWith(append(make([]byte, 2), testData(30, 3)...), 5)
			deep := masters[1]
			deep.depth, deep.num, deep.fp = 254, 0xffffffff, [3]byte{0xff, 0xfe, 0xfd}
			starts := append(append([]node{}, masters...), lead, deep, masters[2].neuter())
			return []engine.Harness{
				{Name: "histories", About: fmt.Sprintf("every sequence of up to %d calls of the mobile API from %d keys, over every method and %d child numbers; everything the key says is checked after each", depth, len(starts), len(mobileNumbers)), Body: func(c *engine.Ctx) {
					n := starts[c.Pick(len(starts))]
					k := &keyaddr.Key{Key: n.text()}
					mobileFacts(c, k, n)
					for d := 0; d < depth; d++ {
						var nk *keyaddr.Key
						var err error
						m, ok := n, true
						what := ""
						before := k.Key
						op := c.Pick(8 + 2*len(mobileNumbers))
						c.NoPanic("panic", func() {
							switch op {
							case 0:
								what = "ToPublic"
								m = n.neuter()
								nk, err = k.ToPublic()
							case 1:
								what = "FromString"
								nk, err = keyaddr.FromString(k.Key)
							case 2:
								what = "FromString of the old text"
								v := oldPubl
								if n.priv {
									v = oldPriv
								}
								nk, err = keyaddr.FromString(n.oldText(v))
							case 3:
								what = "FromOldString"
								v := oldPubl
								if n.priv {
									v = oldPriv
								}
								nk, err = keyaddr.FromOldString(n.oldText(v))
							case 4:
								what = "KeyFromPublic(ToPublicKey)"
								m = n.neuter()
								var p signature.PublicKey
								p, err = k.ToPublicKey()
								c.Check(err == nil, "public", "ToPublicKey: %v", err)
								nk, err = keyaddr.KeyFromPublic(p)
							case 5:
								what = "KeyFromPrivate(ToPrivateKey)"
								ok = n.priv
								var p signature.PrivateKey
								p, err = k.ToPrivateKey()
								if err == nil {
									nk, err = keyaddr.KeyFromPrivate(p)
								}
							case 6:
								what = "KeyFromExtended(ToExtended)"
								var e *key.ExtendedKey
								e, err = k.ToExtended()
								c.Check(err == nil, "extended", "ToExtended: %v", err)
								nk, err = keyaddr.KeyFromExtended(e)
							case 7:
								what = `DeriveFrom(/, /3/1')`
								m, ok = refDeriveOK(n, "/", "/3/1'")
								nk, err = keyaddr.DeriveFrom(k.Key, "/", "/3/1'")
							default:
								i := mobileNumbers[(op-8)/2]
								if op%2 == 0 {
									what = fmt.Sprintf("Child(%d)", i)
									if ok = i >= 0; ok {
										m, ok = childMemo(n, uint32(i))
									}
									nk, err = k.Child(i)
								} else {
									what = fmt.Sprintf("HardenedChild(%d)", i)
									if ok = i >= 0; ok {
										m, ok = childMemo(n, uint32(i)+1<<31)
									}
									nk, err = k.HardenedChild(i)
								}
							}
						})
						c.Logf("%s: %v", what, ok)
						wantKey(c, "key", fmt.Sprintf("%s of a key (private=%v, depth %d)", what, n.priv, n.depth), nk, err, m, ok)
						c.Check(k.Key == before, "unchanged", "%s changed the key", what)
						if !ok {
							return
						}
						k, n = nk, m
						mobileFacts(c, k, n)
						c.State(k.Key)
					}
				}},
				{Name: "spellings", About: "keys given in every spelling (each letter in upper case, all of them, alternating), new and old text: every method gives what it gives for the usual spelling", Body: func(c *engine.Ctx) {
					n := starts[c.Pick(len(starts))]
					old := c.Bool()
					text, fix := n.text(), 4
					if old {
						v := oldPubl
						if n.priv {
							v = oldPriv
						}
						text, fix = n.oldText(v), 0
					}
					t := []byte(text)
					mode := c.Pick(len(t) - fix + 2)
					for i := fix; i < len(t); i++ {
						if t[i] >= 'a' && t[i] <= 'z' && (mode == i-fix || mode == len(t)-fix || mode == len(t)-fix+1 && i%2 == 0) {
							t[i] -= 32
						}
					}
					in := string(t)
					c.Logf("%s", in)
					c.State(in)
					c.NoPanic("panic", func() {
						k, err := keyaddr.FromString(in)
						wantKey(c, "spelling", "FromString", k, err, n, true)
						m, ok := refDeriveOK(n, "/", "/3")
						k, err = keyaddr.DeriveFrom(in, "/", "/3")
						wantKey(c, "spelling", "DeriveFrom", k, err, m, ok)
						if old {
							k, err = keyaddr.FromOldString(in)
							wantKey(c, "spelling", "FromOldString", k, err, n, true)
							return
						}
						held := &keyaddr.Key{Key: in}
						k, err = held.ToPublic()
						wantKey(c, "spelling", "ToPublic", k, err, n.neuter(), true)
						m, ok = childMemo(n, 3)
						k, err = held.Child(3)
						wantKey(c, "spelling", "Child", k, err, m, ok)
						a, err := held.NdauAddress()
						c.Check(err == nil && a.Address == refAddress('a', n.pub()), "spelling", "NdauAddress = %v, %v", a, err)
						c.Check(held.Key == in, "unchanged", "the key became %s", held.Key)
					})
				}},
				{Name: "derive", About: "every pair of paths of up to 2 elements over 0, 1, 5', and malformed ones, from private and public keys, in the new and the old text", Body: func(c *engine.Ctx) {
					paths := []string{"", "/", "//", "0", "/0'", "/x", "/0/", "/4294967296", " /0"}
					for _, a := range []string{"0", "1", "5'"} {
						paths = append(paths, "/"+a)
						for _, b := range []string{"0", "1", "5'"} {
							paths = append(paths, "/"+a+"/"+b)
						}
					}
					n := []node{masters[0], masters[0].neuter(), lead, deep}[c.Pick(4)]
					p := paths[c.Pick(len(paths))]
					q := paths[c.Pick(len(paths))]
					text := n.text()
					if c.Bool() {
						v := oldPubl
						if n.priv {
							v = oldPriv
						}
						text = n.oldText(v)
					}
					m, ok := refDeriveOK(n, p, q)
					c.NoPanic("panic", func() {
						k, err := keyaddr.DeriveFrom(text, p, q)
						wantKey(c, "derive", fmt.Sprintf("DeriveFrom(%s, %q, %q)", text, p, q), k, err, m, ok)
					})
				}},
				{Name: "numbers", About: "every child number of one or two bits and the boundaries, as int32, of private and public keys", Body: func(c *engine.Ctx) {
					n := []node{masters[0], masters[0].neuter()}[c.Pick(2)]
					ix := indexSet(0)
					i := int32(ix[c.Pick(len(ix))])
					hard := c.Bool()
					k := &keyaddr.Key{Key: n.text()}
					m, ok := n, i >= 0
					if ok {
						j := uint32(i)
						if hard {
							j += 1 << 31
						}
						m, ok = childMemo(n, j)
					}
					c.NoPanic("panic", func() {
						var nk *keyaddr.Key
						var err error
						if hard {
							nk, err = k.HardenedChild(i)
						} else {
							nk, err = k.Child(i)
						}
						wantKey(c, "child", fmt.Sprintf("child %d (hardened %v)", i, hard), nk, err, m, ok)
					})
				}},
				{Name: "seeds", About: "seeds of every length 0..80 in two fills, in base64; every character of a base64 text replaced by every byte, every truncation", Body: func(c *engine.Ctx) {
					var s string
					switch c.Pick(3) {
					case 0:
						s = b64(testData(c.Pick(81), c.Pick(2)))
					case 1:
						t := []byte(b64(testData(16, 0)))
						t[c.Pick(len(t))] = byte(c.Pick(256))
						s = string(t)
					case 2:
						t := b64(testData(17+c.Pick(3), 1))
						s = t[:c.Pick(len(t)+1)]
					}
					seed, err := base64.StdEncoding.DecodeString(s)
					var n node
					ok := err == nil
					if ok {
						n, ok = refMaster(seed)
					}
					c.NoPanic("panic", func() {
						k, err := keyaddr.NewKey(s)
						wantKey(c, "seed", fmt.Sprintf("NewKey(%q)", s), k, err, n, ok)
					})
				}},
				{Name: "messages", About: "messages of every length 0..130 signed by 5 keys, public keys refusing; malformed base64", Body: func(c *engine.Ctx) {
					n := starts[c.Pick(len(starts))]
					k := &keyaddr.Key{Key: n.text()}
					i := c.Pick(131 + 4)
					if i < 131 {
						mobileSign(c, k, n, testData(i, 2))
						return
					}
					bad := []string{"AQIDx", "*", "AQID=", "AA=A"}[i-131]
					c.NoPanic("panic", func() {
						s, err := k.Sign(bad)
						c.Check(err != nil && s == nil, "sign", "Sign(%q) gave a signature", bad)
					})
				}},
				{Name: "bad-keys", About: "every method on every one of: the text of a key with one character replaced by 6 others or cut short anywhere, other texts: all refuse, none panics", Body: func(c *engine.Ctx) {
					n := []node{masters[0], masters[0].neuter()}[c.Pick(2)]
					t := n.text()
					var s string
					switch c.Pick(3) {
					case 0:
						i := c.Pick(len(t))
						b := []byte(t)
						r := "a9l0-~"[c.Pick(6)]
						if b[i] == r {
							return
						}
						b[i] = r
						s = string(b)
					case 1:
						s = t[:c.Pick(len(t))]
					case 2:
						sg, _ := signature.RawSignature(signature.Secp256k1, []byte{1, 2, 3})
						st := []byte("x")
						if sg != nil {
							st, _ = sg.MarshalText()
						}
						ed := refText(refKeyBytes(1, testData(32, 0), nil))
						s = []string{"npub", "npvt", t + "a", " " + t, "npuba" + t[5:], string(st), "npub" + ed, "npvt" + ed,
							refAddress('a', n.pub()), "abandon", strings.ToUpper(t)}[c.Pick(11)]
						if s == t {
							return
						}
					}
					k := &keyaddr.Key{Key: s}
					c.NoPanic("panic", func() {
						refuse := func(what string, isNil bool, err error) {
							c.Check(err != nil && isNil, "bad:"+what, "%s accepted %q", what, s)
						}
						x, err := keyaddr.FromString(s)
						refuse("FromString", x == nil, err)
						x, err = keyaddr.FromOldString(s)
						refuse("FromOldString", x == nil, err)
						x, err = keyaddr.DeriveFrom(s, "/", "/1")
						refuse("DeriveFrom", x == nil, err)
						x, err = k.ToPublic()
						refuse("ToPublic", x == nil, err)
						x, err = k.Child(1)
						refuse("Child", x == nil, err)
						x, err = k.HardenedChild(1)
						refuse("HardenedChild", x == nil, err)
						g, err := k.Sign("AQID")
						refuse("Sign", g == nil, err)
						a, err := k.NdauAddress()
						refuse("NdauAddress", a == nil, err)
						p, err := k.IsPrivate()
						refuse("IsPrivate", !p, err)
						_, err = k.ToExtended()
						refuse("ToExtended", true, err)
						_, err = k.ToPublicKey()
						refuse("ToPublicKey", true, err)
						_, err = k.ToPrivateKey()
						refuse("ToPrivateKey", true, err)
						c.Check(k.Key == s, "unchanged", "the key changed")
					})
				}},
				{Name: "conversions", About: "signature keys of every algorithm and of one not registered, with 0..80 extra bytes: only those of secp256k1 with all of an extended key's data become keys of the mobile API; signatures of every algorithm, and of the one not registered, to its text and back", Body: func(c *engine.Ctx) {
					a := append(append([]algo{}, algos...), algo{200, "alpha", alpha{}, 3, 4, 5})[c.Pick(4)]
					n := masters[1]
					if c.Bool() {
						n = n.neuter()
					}
					extra := append(n.extra(), testData(41, 3)...)[:c.Pick(81)]
					kb := testData(a.size(n.priv), 3)
					if a.id == 2 {
						kb = n.key
					}
					raw, err := rawKey(n.priv, a, append([]byte{}, kb...), append([]byte{}, extra...))
					c.Check(err == nil, "raw", "%v", err)
					ok := a.id == 2 && len(extra) >= 40
					c.NoPanic("panic", func() {
						var k *keyaddr.Key
						var err error
						if n.priv {
							k, err = keyaddr.KeyFromPrivate(*raw.(*signature.PrivateKey))
						} else {
							k, err = keyaddr.KeyFromPublic(*raw.(*signature.PublicKey))
						}
						wantKey(c, "convert", fmt.Sprintf("a key of %s with %d extra bytes", a.name, len(extra)), k, err, n, ok)
						sz := a.sigSz
						if sz < 0 {
							sz = len(extra)
						}
						sig, err := signature.RawSignature(a.al, testData(sz, 2))
						c.Check(err == nil, "raw", "%v", err)
						s, err := keyaddr.SignatureFrom(*sig)
						if a.id == 200 {
							c.Check(err != nil && s == nil, "signature", "a signature which cannot be written is %v", s)
							return
						}
						want := refText(refContainer(a.id, testData(sz, 2)))
						c.Check(err == nil && s != nil && s.Signature == want, "signature", "SignatureFrom gives %v (%v), want %s", s, err, want)
						back, err := s.ToSignature()
						c.Check(err == nil && signature.SameAlgorithm(back.Algorithm(), a.al) && bytes.Equal(back.Bytes(), testData(sz, 2)), "signature", "ToSignature(%s): %v", s.Signature, err)
					})
					c.State(fmt.Sprint(a.name, n.priv, len(extra)))
				}},
				{Name: "bad-signatures", About: "the text of a signature with every character replaced by 6 others, cut short anywhere or of a size its algorithm does not have: no signature", Body: func(c *engine.Ctx) {
					t := refText(refContainer(1, testData(64, 3)))
					switch c.Pick(3) {
					case 0:
						b := []byte(t)
						i := c.Pick(len(t))
						r := "a9l0-~"[c.Pick(6)]
						if b[i] == r {
							c.Stop()
						}
						b[i] = r
						t = string(b)
					case 1:
						t = t[:c.Pick(len(t))]
					case 2:
						sz := c.Pick(80)
						if sz == 64 {
							c.Stop()
						}
						t = refText(refContainer(1, testData(sz, 3)))
					}
					c.NoPanic("panic", func() {
						_, err := keyaddr.Signature{Signature: t}.ToSignature()
						c.Check(err != nil, "bad signature", "ToSignature accepted %q", t)
					})
				}},
				{Name: "words", Setup: loadWords, About: "bytes of every length 0..66 in 4 fills to words and back; word lists with spaces at every place doubled, dropped or added at the ends, every language but English refused", Body: func(c *engine.Ctx) {
					b := testData(c.Pick(67), c.Pick(4))
					ix := refEncode(b)
					text := strings.Join(toWords(ix), " ")
					c.NoPanic("panic", func() {
						got, err := keyaddr.WordsFromBytes("en", b64(b))
						c.Check(err == nil && got == text, "encode", "WordsFromBytes(%x) = %q, %v; want %q", b, got, err, text)
						back, err := keyaddr.WordsToBytes("en", text)
						alts := refDecode(ix)
						c.Check(err == nil && back == b64(alts[0]), "decode", "WordsToBytes(%q) = %q, %v; want %q", text, back, err, b64(alts[0]))
						for _, l := range []string{"", "EN", "fr", "en "} {
							got, err = keyaddr.WordsFromBytes(l, b64(b))
							c.Check(err != nil && got == "", "language", "WordsFromBytes in language %q gave %q", l, got)
							back, err = keyaddr.WordsToBytes(l, text)
							c.Check(err != nil && back == "", "language", "WordsToBytes in language %q gave %q", l, back)
						}
						for i := 0; i <= len(text); i++ {
							bad := text[:i] + " " + text[i:]
							back, err = keyaddr.WordsToBytes("en", bad)
							if refWordText(bad) {
								continue
							}
							c.Check(err != nil && back == "", "spaces", "WordsToBytes(%q) gave %q", bad, back)
						}
						if len(b)%3 != 0 {
							got, err = keyaddr.WordsFromBytes("en", strings.TrimRight(b64(b), "="))
							c.Check(err != nil && got == "", "base64", "unpadded base64 gave %q", got)
						}
					})
				}},
				{Name: "prefixes", Setup: loadWords, About: "every prefix of every word and one letter beyond, with limits from below 0 to above the count", Body: func(c *engine.Ctx) {
					w := wordList[c.Pick(len(wordList))]
					i := c.Pick(len(w) + 2)
					p := w + "z"
					if i <= len(w) {
						p = w[:i]
					}
					max := []int{0, -1, 1, 2, 3, 5000}[c.Pick(6)]
					var want []string
					for _, x := range wordList {
						if strings.HasPrefix(x, p) && (max <= 0 || len(want) < max) {
							want = append(want, x)
						}
					}
					c.NoPanic("panic", func() {
						got := keyaddr.WordsFromPrefix("en", p, max)
						c.Check(got == strings.Join(want, " "), "prefix", "WordsFromPrefix(%q, %d) = %q, want %q", p, max, got, strings.Join(want, " "))
						c.Check(keyaddr.WordsFromPrefix("fr", p, max) == "", "language", "words in French")
					})
				}},
			}
		},
	})
}

// refWordText: the text is a list of words some bytes encode to
func refWordText(s string) bool {
	var ix []int
	for _, w := range strings.Split(s, " ") {
		i, ok := wordIndex[w]
		if !ok {
			return false
		}
		ix = append(ix, i)
	}
	return len(refDecode(ix)) > 0
}
