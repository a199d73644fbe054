package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base32"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/mc/engine"
	"verif/mc/pure"
)

// alike is byte strings which differ little from each other
func alike(n int, from byte) [][]byte {
	base := make([]byte, n)
	for i := range base {
		base[i] = byte(i*11) + from
	}
	with := func(f func(b []byte) []byte) []byte { return f(append([]byte{}, base...)) }
	return [][]byte{
		base,
		with(func(b []byte) []byte { b[n-1]++; return b }),
		with(func(b []byte) []byte { b[0]++; return b }),
		with(func(b []byte) []byte { b[n/2]++; return b }),
		with(func(b []byte) []byte { b[1], b[2] = b[2], b[1]; return b }),
		with(func(b []byte) []byte { return b[:n-1] }),
		with(func(b []byte) []byte { return append(b, 0) }),
		with(func(b []byte) []byte { return append(b, b[0]) }),
		{},
	}
}

func pureMust(err error) {
	if err != nil {
		panic(err)
	}
}

type pureExt struct {
	key, chain, fp []byte
	depth          uint8
	num            uint32
	priv           bool
}

var (
	pureKeys = sync.OnceValue(func() (l []pureExt) {
		m := alike(32, 1)
		fp := []byte{1, 2, 3}
		b := pureExt{m[0], alike(32, 90)[0], fp, 3, 7, true}
		l = append(l, b)
		for i := 0; i < 6; i++ {
			x := b
			switch i {
			case 0:
				x.key = m[1]
			case 1:
				x.chain = alike(32, 90)[1]
			case 2:
				x.fp = []byte{1, 2, 4}
			case 3:
				x.depth++
			case 4:
				x.num++
			case 5:
				x.key, x.priv = bip32.PrivateToPublic(x.key), false
			}
			l = append(l, x)
		}
		// the public key of another private key with the same chain code, and the same with another
		o := l[1]
		o.key, o.priv = bip32.PrivateToPublic(o.key), false
		p := l[6]
		p.chain = l[2].chain
		return append(l, o, p)
	})
	pureTexts = sync.OnceValue(func() (l []string) {
		for _, k := range pureKeys() {
			t, err := k.ext(nil).MarshalText()
			pureMust(err)
			l = append(l, string(t))
		}
		return
	})
	pureAddrs = sync.OnceValue(func() (l []string) {
		for i, d := range alike(32, 5)[:5] {
			a, err := address.Generate("aanex"[i], d)
			pureMust(err)
			l = append(l, a.String())
		}
		l = append(l, strings.ToUpper(l[0]), l[0][:47], l[0]+"a", strings.Replace(l[0], l[0][20:21], string("ab"[b2i(l[0][20] == 'a')]), 1), "")
		// valid ones which have most of their characters in common with the first: its start
		// and its end, its end, its start
		for _, bit := range []int{120, 200, 0} {
			raw, _ := refUnB32(l[0])
			for b := 0; b < 17; b++ {
				if 0x11021>>uint(b)&1 == 1 {
					at := 239 - bit - b
					raw[at/8] ^= 0x80 >> uint(at%8)
				}
			}
			l = append(l, refB32(raw))
		}
		return
	})
	pureOld = sync.OnceValue(func() (l []string) {
		for i := 0; i < 3; i++ {
			p := append([]byte{0xff, 1, 2, 0, 0, 0, 0, 0, 0, 0, byte(i)}, alike(32, 90)[0]...)
			if i == 2 {
				p = append(p, bip32.PrivateToPublic(pureKeys()[0].key)...)
			} else {
				p = append(append(p, 0), pureKeys()[i].key...)
			}
			x := sha256.Sum256(p)
			y := sha256.Sum256(x[:])
			l = append(l, base32.NewEncoding("abcdefghijkmnpqrstuvwxyz23456789").EncodeToString(append(p, y[:4]...)))
		}
		return append(l, l[0][:10]+"a"+l[0][11:])
	})
	pureAlgs  = []signature.Algorithm{signature.Ed25519, signature.Secp256k1}
	purePairs = sync.OnceValue(func() (l []purePair) {
		for i := 0; i < 6; i++ {
			x := alike(32, 40)[i%3]
			pub, pvt, err := signature.Generate(pureAlgs[i/3], bytes.NewReader(append(append([]byte{}, x...), x...)))
			pureMust(err)
			l = append(l, purePair{pub, pvt})
		}
		return
	})
	pureSigs = sync.OnceValue(func() (l []pureSig) {
		for i := 0; i < 2; i++ {
			p := purePairs()[i*3]
			m := alike(20, 3)
			g := p.pvt.Sign(m[0])
			l = append(l, pureSig{p.pub, m[0], g}, pureSig{purePairs()[i*3+1].pub, m[0], g}, pureSig{p.pub, m[1], g}, pureSig{p.pub, m[0], p.pvt.Sign(m[1])}, pureSig{p.pub, m[5], g}, pureSig{p.pub, m[5], p.pvt.Sign(m[5])})
		}
		l = append(l, pureSig{purePairs()[0].pub, alike(20, 3)[0], purePairs()[3].pvt.Sign(alike(20, 3)[0])})
		return
	})
	pureB64 = sync.OnceValue(func() (l []string) {
		for _, b := range alike(32, 3) {
			l = append(l, base64.StdEncoding.EncodeToString(b))
		}
		return l
	})
	pureNums = []uint32{0, 1, 2, 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}
)

type purePair struct {
	pub signature.PublicKey
	pvt signature.PrivateKey
}

type pureSig struct {
	pub signature.PublicKey
	msg []byte
	sig signature.Signature
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (k pureExt) ext(a *pure.Args) *key.ExtendedKey {
	b := func(x []byte) []byte {
		if a == nil {
			return append([]byte{}, x...)
		}
		return a.Bytes(x)
	}
	return key.NewExtendedKey(b(k.key), b(k.chain), b(k.fp), k.depth, k.num, k.priv)
}

func showExt(k *key.ExtendedKey, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	t, err := k.MarshalText()
	return fmt.Sprintf("%s %v %x %d %d %v", t, err, k.PubKeyBytes(), k.Depth(), k.ParentFingerprint(), k.IsPrivate())
}

func ext(k *key.ExtendedKey, err error) pure.Result {
	return pure.Result{Show: func() string { return showExt(k, err) }, Spoil: func() {
		if err == nil {
			k.PubKeyBytes()
			k.Zero()
		}
	}}
}

func sigKey(k signature.Key, err error) pure.Result {
	return pure.Result{Show: func() string {
		if err != nil {
			return "error: " + err.Error()
		}
		t, err := k.MarshalText()
		return fmt.Sprintf("%s %v %x %x %s", t, err, k.KeyBytes(), k.ExtraBytes(), signature.NameOf(k.Algorithm()))
	}, Spoil: func() {
		if err == nil {
			for i, b := 0, k.KeyBytes(); i < len(b); i++ {
				b[i]++
			}
			for i, b := 0, k.ExtraBytes(); i < len(b); i++ {
				b[i]++
			}
			k.Zeroize()
		}
	}}
}

func sigOf(g *signature.Signature, err error) pure.Result {
	return pure.Result{Show: func() string {
		if err != nil {
			return "error: " + err.Error()
		}
		t, err := g.MarshalString()
		return fmt.Sprintf("%s %v %x %s", t, err, g.Bytes(), signature.NameOf(g.Algorithm()))
	}, Spoil: func() {
		if err == nil {
			for i, b := 0, g.Bytes(); i < len(b); i++ {
				b[i]++
			}
		}
	}}
}

func mobile(k *keyaddr.Key, err error) pure.Result {
	return pure.Show(func() string {
		if err != nil {
			return "error: " + err.Error()
		}
		return k.Key
	})
}

func bset(b *bitset256.Bitset256, err error) pure.Result {
	return pure.Result{Show: func() string {
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprint(b.AsHex(), b.Indices(), b.Count(), b.String(), b.AsBytes())
	}, Spoil: func() {
		if err == nil {
			x, y := b.Indices(), b.AsBytes()
			for i := range x {
				x[i] = 9
			}
			for i := range y {
				y[i] = 9
			}
			for i := 0; i < 256; i++ {
				b.Toggle(byte(i))
			}
		}
	}}
}

var pureSets = [][]byte{{1, 2, 63, 64, 255}, {1, 2, 63, 64, 254}, {2, 1, 255, 63, 64}, {1, 2, 63, 65, 255}, {0, 3, 63, 64, 255}, {64, 255}, {}, {0}, {255}}

var pureSuite = func() *pure.Suite {
	var cs []pure.Call
	add := func(name string, n int, f func(v int, a *pure.Args) pure.Result) {
		cs = append(cs, pure.Call{Name: name, N: n, Do: f})
	}
	alias := func(name string, n int, f func(v int, a *pure.Args) pure.Result) {
		cs = append(cs, pure.Call{Name: name, N: n, Do: f, Alias: true})
	}
	bytesArg := func(l [][]byte, f func(b []byte) pure.Result) func(v int, a *pure.Args) pure.Result {
		return func(v int, a *pure.Args) pure.Result { return f(a.Bytes(l[v])) }
	}

	// addresses
	add("address.Generate", 12, func(v int, a *pure.Args) pure.Result {
		k, d := byte('a'), v
		if v >= 9 {
			k, d = "nex"[v-9], 0
		}
		x, err := address.Generate(k, a.Bytes(alike(32, 5)[d]))
		return pure.S(x.String(), x, err)
	})
	add("address.Validate", 13, func(v int, a *pure.Args) pure.Result {
		x, err := address.Validate(pureAddrs()[v])
		return pure.S(x.String(), x, err)
	})
	add("address.UnmarshalText", 13, func(v int, a *pure.Args) pure.Result {
		var x address.Address
		err := x.UnmarshalText(a.Bytes([]byte(pureAddrs()[v])))
		return pure.Show(func() string { return fmt.Sprint(err, x.String()) })
	})
	valid := func(v int) string {
		if v >= 5 {
			v += 5
		}
		return pureAddrs()[v]
	}
	add("address.write", 8, func(v int, a *pure.Args) pure.Result {
		x, err := address.Validate(valid(v))
		if err != nil {
			return pure.S(err)
		}
		b, err := x.MarshalMsg(a.Bytes([]byte{1, 2, 3})[:0:0])
		return pure.B(b, err)
	})
	add("address.MarshalText", 8, func(v int, a *pure.Args) pure.Result {
		x, err := address.Validate(valid(v))
		if err != nil {
			return pure.S(err)
		}
		return pure.B(x.MarshalText())
	})
	add("address.UnmarshalMsg", 9, func(v int, a *pure.Args) pure.Result {
		b := append([]byte{0x91, 0xd9, 48}, pureAddrs()[[]int{0, 1, 2, 3, 4, 5, 10, 11, 12}[v]]...)
		var x address.Address
		_, err := x.UnmarshalMsg(a.Bytes(b))
		return pure.Show(func() string { return fmt.Sprint(err, x.String()) })
	})

	// text
	l40 := alike(40, 7)
	add("b32.Encode", 9, bytesArg(l40, func(b []byte) pure.Result { return pure.S(b32.Encode(b)) }))
	add("b32.Checksum16", 9, bytesArg(l40, func(b []byte) pure.Result { return pure.B(b32.Checksum16(b), nil) }))
	add("b32.Checksum24", 9, bytesArg(l40, func(b []byte) pure.Result { return pure.B(b32.Checksum24(b), nil) }))
	add("b32.Decode", 13, func(v int, a *pure.Args) pure.Result { return pure.B(b32.Decode(pureAddrs()[v])) })
	add("b32.Check", 18, func(v int, a *pure.Args) pure.Result {
		return pure.S(b32.Check(a.Bytes(l40[v%9]), a.Bytes(b32.Checksum16(l40[v/9*(v%9)]))))
	})
	add("signature.AddChecksum", 9, bytesArg(l40, func(b []byte) pure.Result { return pure.B(signature.AddChecksum(b), nil) }))
	alias("signature.CheckChecksum", 11, func(v int, a *pure.Args) pure.Result {
		var b []byte
		if v < 9 {
			b = signature.AddChecksum(l40[v])
		} else {
			b = signature.AddChecksum(l40[0])
			b[len(b)-1-(v-9)*20]++
		}
		m, ok := signature.CheckChecksum(a.Bytes(b))
		return pure.Show(func() string { return fmt.Sprintf("%x %v", m, ok) })
	})

	// words
	for _, n := range []int{16, 17} {
		l := alike(n, 9)
		add(fmt.Sprint("words.FromBytes", n), 9, func(v int, a *pure.Args) pure.Result {
			w, err := words.FromBytes("en", a.Bytes(l[v]))
			return pure.Result{Show: func() string { return fmt.Sprint(w, err) }, Spoil: func() {
				for i := range w {
					w[i] = "spoiled"
				}
			}}
		})
		add(fmt.Sprint("words.ToBytes", n), 12, func(v int, a *pure.Args) pure.Result {
			var w []string
			if v < 9 {
				w, _ = words.FromBytes("en", l[v])
			} else {
				w, _ = words.FromBytes("en", l[0])
				switch v {
				case 9:
					w[1], w[2] = w[2], w[1]
				case 10:
					w[3] = "abandonn"
				case 11:
					w[3] = w[3][:len(w[3])-1]
				}
			}
			return pure.B(words.ToBytes("en", a.Strs(w)))
		})
	}
	prefixes := []string{"a", "ab", "abo", "abs", "ba", "", "zoo", "zooo", "A"}
	add("words.FromPrefix", 9, func(v int, a *pure.Args) pure.Result { return pure.S(words.FromPrefix("en", prefixes[v], 3)) })
	add("words.FromPrefix-limit", 9, func(v int, a *pure.Args) pure.Result { return pure.S(words.FromPrefix("en", "ab", v-2)) })
	add("words.language", 4, func(v int, a *pure.Args) pure.Result {
		lang := []string{"en", "EN", "fr", ""}[v]
		w, err := words.FromBytes(lang, a.Bytes(l40[0][:8]))
		b, err2 := words.ToBytes(lang, a.Strs([]string{"zoo", "zoo", "zoo"}))
		return pure.S(w, err, b, err2, words.FromPrefix(lang, "ab", 2))
	})

	// sets
	add("bitset256.New", 9, func(v int, a *pure.Args) pure.Result { return bset(bitset256.New(a.Bytes(pureSets[v])...), nil) })
	add("bitset256.FromBytes", 10, func(v int, a *pure.Args) pure.Result {
		b := make([]byte, 31)
		if v < 9 {
			b = bitset256.New(pureSets[v]...).AsBytes()
		}
		return bset(bitset256.FromBytes(a.Bytes(b)))
	})
	add("bitset256.FromHex", 10, func(v int, a *pure.Args) pure.Result {
		b := "00"
		if v < 9 {
			b = bitset256.New(pureSets[v]...).AsHex()
		}
		return bset(bitset256.FromHex(b))
	})
	add("bitset256.combine", 25, func(v int, a *pure.Args) pure.Result {
		x, y := bitset256.New(pureSets[v/5]...), bitset256.New(pureSets[v%5]...)
		u, i, cl := x.Union(y), x.Intersect(y), x.Clone()
		return pure.Show(func() string {
			return fmt.Sprint(u.AsHex(), i.AsHex(), cl.AsHex(), x.AsHex(), y.AsHex(), x.Less(y), x.Equals(y), x.IsSubsetOf(y))
		})
	})

	// keys
	add("bip32.NewMaster", 9, bytesArg(alike(32, 1), func(b []byte) pure.Result {
		x, y, err := bip32.NewMaster(b)
		return pure.S(x, y, err)
	}))
	add("bip32.PrivateToPublic", 5, bytesArg(alike(32, 1), func(b []byte) pure.Result { return pure.B(bip32.PrivateToPublic(b), nil) }))
	add("bip32.GenerateSeed", 9, func(v int, a *pure.Args) pure.Result {
		return pure.B(bip32.GenerateSeed([]uint8{16, 17, 31, 32, 64, 15, 65, 0, 32}[v], bytes.NewReader(alike(64, byte(v/8))[0])))
	})
	add("key.NewMaster", 9, bytesArg(alike(32, 1), func(b []byte) pure.Result { return ext(key.NewMaster(b)) }))
	add("key.Child", 9*3, func(v int, a *pure.Args) pure.Result {
		return ext(pureKeys()[v/3].ext(a).Child(pureNums[[]int{1, 2, 6}[v%3]]))
	})
	add("key.Child-numbers", len(pureNums), func(v int, a *pure.Args) pure.Result { return ext(pureKeys()[0].ext(a).Child(pureNums[v])) })
	add("key.HardenedChild", len(pureNums), func(v int, a *pure.Args) pure.Result {
		return ext(pureKeys()[0].ext(a).HardenedChild(pureNums[v]))
	})
	add("key.Public", 9, func(v int, a *pure.Args) pure.Result {
		k := pureKeys()[v].ext(nil)
		p, err := k.Public()
		if err == nil && p == k {
			err = nil
		}
		return ext(p, err)
	})
	paths := [][2]string{{"/", "/1"}, {"/", "/2"}, {"/", "/1'"}, {"/", "/1/2"}, {"/1", "/1/2"}, {"/1/2", "/1/2/3"}, {"/2", "/1/2"}, {"/", "/"}, {"/", "/x"}, {"/", "/11"}}
	add("key.DeriveFrom", 20, func(v int, a *pure.Args) pure.Result {
		return ext(pureKeys()[v/10*6].ext(a).DeriveFrom(paths[v%10][0], paths[v%10][1]))
	})
	add("key.UnmarshalText", 9+1, func(v int, a *pure.Args) pure.Result {
		t := pureTexts()[0][:len(pureTexts()[0])-8]
		if v < 9 {
			t = pureTexts()[v]
		}
		k := &key.ExtendedKey{}
		return ext(k, k.UnmarshalText(a.Bytes([]byte(t))))
	})
	add("key.MarshalText", 9, func(v int, a *pure.Args) pure.Result {
		return pure.B(pureKeys()[v].ext(a).MarshalText())
	})
	add("key.FromOldSerialization", 4, func(v int, a *pure.Args) pure.Result { return ext(key.FromOldSerialization(pureOld()[v])) })
	add("key.SPrivKey", 9, func(v int, a *pure.Args) pure.Result {
		k, err := pureKeys()[v].ext(nil).SPrivKey()
		if err != nil {
			return pure.S(err)
		}
		return sigKey(k, nil)
	})
	add("key.SPubKey", 9, func(v int, a *pure.Args) pure.Result {
		k, err := pureKeys()[v].ext(nil).SPubKey()
		if err != nil {
			return pure.S(err)
		}
		return sigKey(k, nil)
	})
	add("key.FromSignatureKey", 9, func(v int, a *pure.Args) pure.Result {
		k, err := pureKeys()[v].ext(nil).AsSignatureKey()
		if err != nil {
			return pure.S(err)
		}
		return ext(key.FromSignatureKey(k))
	})

	// signatures
	add("signature.Generate", 9, func(v int, a *pure.Args) pure.Result {
		x := alike(64, 40)[v%5]
		pub, pvt, err := signature.Generate(pureAlgs[v/5], bytes.NewReader(x))
		return pure.Show(func() string { return fmt.Sprint(pub.FullString(), pvt.FullString(), err) })
	})
	add("signature.Sign", 18, func(v int, a *pure.Args) pure.Result {
		g := purePairs()[v/9*3].pvt.Sign(a.Bytes(alike(20, 3)[v%9]))
		return sigOf(&g, nil)
	})
	add("signature.Sign-keys", 6, func(v int, a *pure.Args) pure.Result {
		g := purePairs()[v].pvt.Sign(a.Bytes(alike(20, 3)[0]))
		return sigOf(&g, nil)
	})
	add("signature.Verify", 13, func(v int, a *pure.Args) pure.Result {
		x := pureSigs()[v]
		m := a.Bytes(x.msg)
		return pure.S(x.pub.Verify(m, x.sig), x.sig.Verify(m, x.pub))
	})
	add("signature.Match", 12, func(v int, a *pure.Args) pure.Result {
		return pure.S(signature.Match(purePairs()[v/6*3].pub, purePairs()[v%6].pvt))
	})
	type form interface {
		signature.Key
		Marshal() ([]byte, error)
		Unmarshal([]byte) error
		FullString() string
	}
	forms := func(i int) (form, func() form) {
		if i < 6 {
			k := purePairs()[i].pub
			return &k, func() form { return &signature.PublicKey{} }
		}
		k := purePairs()[i-6].pvt
		return &k, func() form { return &signature.PrivateKey{} }
	}
	add("signature.Marshal", 12, func(v int, a *pure.Args) pure.Result { k, _ := forms(v); return pure.B(k.Marshal()) })
	add("signature.MarshalText", 12, func(v int, a *pure.Args) pure.Result { k, _ := forms(v); return pure.B(k.MarshalText()) })
	add("signature.Unmarshal", 12, func(v int, a *pure.Args) pure.Result {
		k, n := forms(v)
		b, err := k.Marshal()
		pureMust(err)
		m := n()
		return sigKey(m, m.Unmarshal(a.Bytes(b)))
	})
	add("signature.UnmarshalText", 12, func(v int, a *pure.Args) pure.Result {
		k, n := forms(v)
		b, err := k.MarshalText()
		pureMust(err)
		m := n()
		return sigKey(m, m.UnmarshalText(a.Bytes(b)))
	})
	add("signature.ParseKey", 12, func(v int, a *pure.Args) pure.Result {
		k, _ := forms(v)
		m, err := signature.ParseKey(k.FullString())
		return sigKey(m, err)
	})
	add("signature.ParseKey-wrong", 4, func(v int, a *pure.Args) pure.Result {
		t := purePairs()[0].pub.FullString()
		t = []string{t[:20], t[:20] + "a" + t[21:], t[4:], ""}[v]
		_, err := signature.ParseKey(t)
		return pure.S(err)
	})
	alias("signature.RawPublicKey", 5, func(v int, a *pure.Args) pure.Result {
		k, err := signature.RawPublicKey(signature.Ed25519, a.Bytes(alike(32, 3)[v/2]), a.Bytes(alike(5, 3)[v%2]))
		if err != nil {
			return pure.S(err)
		}
		return pure.Show(sigKey(k, nil).Show)
	})
	add("signature.Signature.Unmarshal", 13, func(v int, a *pure.Args) pure.Result {
		b, err := pureSigs()[v].sig.Marshal()
		pureMust(err)
		g := &signature.Signature{}
		return sigOf(g, g.Unmarshal(a.Bytes(b)))
	})
	add("signature.ParseSignature", 13, func(v int, a *pure.Args) pure.Result {
		t, err := pureSigs()[v].sig.MarshalString()
		pureMust(err)
		g, err := signature.ParseSignature(t)
		return sigOf(g, err)
	})
	add("signature.NameOf", 3, func(v int, a *pure.Args) pure.Result {
		al := append(pureAlgs, signature.Null)[v]
		return pure.S(signature.NameOf(al), signature.SameAlgorithm(al, signature.Ed25519), al.PublicKeySize(), al.PrivateKeySize(), al.SignatureSize())
	})
	add("signature.Zeroize", 12, func(v int, a *pure.Args) pure.Result {
		_, n := forms(v)
		k, _ := forms(v)
		b, err := k.Marshal()
		pureMust(err)
		m := n()
		pureMust(m.Unmarshal(b))
		if v%2 == 0 {
			m.Zeroize()
		} else {
			m.Truncate()
		}
		return sigKey(m, nil)
	})

	// the mobile API
	add("keyaddr.NewKey", 9, func(v int, a *pure.Args) pure.Result { return mobile(keyaddr.NewKey(pureB64()[v])) })
	add("keyaddr.FromString", 9+1, func(v int, a *pure.Args) pure.Result {
		if v == 9 {
			return mobile(keyaddr.FromString(pureTexts()[0][:40]))
		}
		return mobile(keyaddr.FromString(pureTexts()[v]))
	})
	add("keyaddr.FromOldString", 4, func(v int, a *pure.Args) pure.Result { return mobile(keyaddr.FromOldString(pureOld()[v])) })
	add("keyaddr.DeriveFrom", 10, func(v int, a *pure.Args) pure.Result {
		return mobile(keyaddr.DeriveFrom(pureTexts()[0], paths[v][0], paths[v][1]))
	})
	add("keyaddr.Child", 9*2, func(v int, a *pure.Args) pure.Result {
		return mobile((&keyaddr.Key{Key: pureTexts()[v/2]}).Child(int32(v % 2)))
	})
	add("keyaddr.HardenedChild", 9*2, func(v int, a *pure.Args) pure.Result {
		return mobile((&keyaddr.Key{Key: pureTexts()[v/2]}).HardenedChild(int32(v % 2)))
	})
	add("keyaddr.ToPublic", 9, func(v int, a *pure.Args) pure.Result {
		return mobile((&keyaddr.Key{Key: pureTexts()[v]}).ToPublic())
	})
	add("keyaddr.NdauAddress", 9, func(v int, a *pure.Args) pure.Result {
		x, err := (&keyaddr.Key{Key: pureTexts()[v]}).NdauAddress()
		if err != nil {
			return pure.S(err)
		}
		return pure.S(*x)
	})
	add("keyaddr.Sign", 10, func(v int, a *pure.Args) pure.Result {
		k := &keyaddr.Key{Key: pureTexts()[0]}
		if v == 9 {
			k.Key = pureTexts()[1]
			v = 0
		}
		x, err := k.Sign(pureB64()[v])
		if err != nil {
			return pure.S(err)
		}
		return pure.S(*x)
	})
	add("keyaddr.WordsFromBytes", 9, func(v int, a *pure.Args) pure.Result {
		w, err := keyaddr.WordsFromBytes("en", pureB64()[v])
		return pure.S(w, err)
	})
	add("keyaddr.WordsToBytes", 11, func(v int, a *pure.Args) pure.Result {
		w, err := words.FromBytes("en", alike(16, 9)[v%9])
		pureMust(err)
		if v > 8 {
			w[v-8] = "zoo"
		}
		b, err := keyaddr.WordsToBytes("en", strings.Join(w, " "))
		return pure.S(b, err)
	})
	add("keyaddr.WordsFromPrefix", 9, func(v int, a *pure.Args) pure.Result {
		return pure.S(keyaddr.WordsFromPrefix("en", prefixes[v], 4))
	})
	return &pure.Suite{Calls: cs}
}

func init() {
	register(&engine.Property{ID: "X01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		ids := []string{"W01", "W02", "W03", "B01", "B02", "D01", "D03", "K02", "K03", "K05", "K06", "S01", "S02", "S04", "S05", "S06", "Y01"}
		if tier == "thorough" {
			ids = append(ids, "K01", "K04", "D02", "S03")
		}
		hs := []engine.Harness{pureSuite().Builds("BUILD_AMD64", "BUILD_AMD64_V3")}
		for _, h := range engine.Gather(props, ids, "quick") {
			if h.Name != "W01/ambiguous" { // which is no matter of builds
				hs = append(hs, h)
			}
		}
		return hs
	}, Rule: "every harness ran to the end of its space in the 32-bit build"})
	register(&engine.Property{ID: "R01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness { return pureSuite().Harnesses(tier) }})
}
