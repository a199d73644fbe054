// Command conc model-checks concurrent calls of the packages which do not
// need decimals.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base32"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"verif/mc/conc"
	"verif/mc/engine"
)

func seed(v int) []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(i*7 + 13 + v*101)
	}
	return b
}

func s(err error, x ...interface{}) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprint(x...)
}

type shared struct {
	pub, pub2   signature.PublicKey
	pvt         signature.PrivateKey
	sig         signature.Signature
	xpub        *key.ExtendedKey
	addr        address.Address
	bits        *bitset256.Bitset256
	list        []string
	data, data2 []byte
	kpub        *keyaddr.Key
	kpvt        *keyaddr.Key
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func makeShared() interface{} {
	sh := &shared{}
	var err error
	sh.pub, sh.pvt, err = signature.Generate(signature.Ed25519, bytes.NewReader(seed(0)))
	must(err)
	sh.sig = sh.pvt.Sign([]byte("message"))
	m, err := key.NewMaster(seed(0))
	must(err)
	p, err := m.Public()
	must(err)
	// as read from its text, so that nothing is remembered
	txt, err := p.MarshalText()
	must(err)
	sh.xpub = &key.ExtendedKey{}
	must(sh.xpub.UnmarshalText(txt))
	sp, err := p.SPubKey()
	must(err)
	sh.pub2 = *sp
	sh.data, sh.data2 = seed(3), seed(4)
	sh.addr, err = address.Generate(address.KindUser, sh.data)
	must(err)
	sh.bits = bitset256.New(1, 2, 63, 64, 255)
	sh.list, err = words.FromBytes("en", sh.data)
	must(err)
	sh.kpvt = &keyaddr.Key{Key: masterText(0)}
	sh.kpub, err = sh.kpvt.ToPublic()
	must(err)
	return sh
}

func masterText(v int) string {
	m, err := key.NewMaster(seed(v))
	must(err)
	t, err := m.MarshalText()
	must(err)
	return string(t)
}

func own(name string, f func(v int) string) conc.Op {
	return conc.Op{Name: name, Make: func(v int, _ interface{}) func() string { return func() string { return f(v) } }}
}

func on(name string, f func(v int, sh *shared) string) conc.Op {
	return conc.Op{Name: name + "*", Shared: true, Make: func(v int, x interface{}) func() string {
		return func() string { return f(v, x.(*shared)) }
	}}
}

// oldText is the previous serialization of a master key
func oldText(v int) string {
	k, err := key.NewMaster(seed(v))
	must(err)
	p := append([]byte{0xff, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0}, seed(v+5)...)
	if v == 0 {
		p = append(append(p, 0), k.Bytes()...)
	} else {
		p = append(p, k.PubKeyBytes()...)
	}
	x := sha256.Sum256(p)
	y := sha256.Sum256(x[:])
	return base32.NewEncoding("abcdefghijkmnpqrstuvwxyz23456789").EncodeToString(append(p, y[:4]...))
}

var suite = &conc.Suite{Shared: makeShared, Ops: []conc.Op{
	own("address.Generate", func(v int) string {
		a, err := address.Generate("anexb"[v], seed(v))
		return s(err, a.String(), a.Kind())
	}),
	own("address.Validate", func(v int) string {
		a, err := address.Validate([]string{"ndan4kxga9jvmaivxi7zuiuakpxup8w7n9vc8k33pqh6byj5", "ndnikhkzra4qim5ynyjg5dvanm43anxjiqtb355nqyk5thjg"}[v])
		_, err2 := address.Validate([]string{"ndan4kxga9jvmaivxi7zuiuakpxup8w7n9vc8k33pqh6byj6", "ndnikhkzra4qim5ynyjg5"}[v])
		return s(err, a.String(), err2)
	}),
	own("address.text", func(v int) string {
		a, err := address.Generate("an"[v], seed(v+2))
		if err != nil {
			return s(err)
		}
		b, err := a.MarshalText()
		if err != nil {
			return s(err)
		}
		var c address.Address
		err = c.UnmarshalText(b)
		m, err2 := c.MarshalMsg(nil)
		return s(err, c.String(), m, err2, c.Revalidate())
	}),
	own("b32", func(v int) string {
		t := b32.Encode(seed(v))
		b, err := b32.Decode(t + "========"[:(8-len(t)%8)%8])
		return s(nil, t, b, err, b32.Checksum16(seed(v)), b32.Checksum24(seed(v)), b32.Check(seed(v), b32.Checksum16(seed(v))), b32.Index("k"))
	}),
	own("bitset256", func(v int) string {
		a, b := bitset256.New(1, 2, byte(60+v)), bitset256.New(2, byte(250+v))
		u, i := a.Union(b), a.Intersect(b)
		c, err := bitset256.FromHex(u.AsHex())
		d, err2 := bitset256.FromBytes(u.AsBytes())
		return s(nil, u.AsHex(), i.String(), u.Indices(), u.Count(), err, err2, c.Equals(d), a.Less(b), i.IsSubsetOf(a), c.Toggle(5).Count())
	}),
	own("words.FromBytes", func(v int) string {
		w, err := words.FromBytes("en", seed(v)[:16])
		return s(err, w)
	}),
	own("words.ToBytes", func(v int) string {
		l := []string{"abandon abandon abandon abandon", "zoo zoo wrong legal winner thank", "a b c"}[v]
		b, err := words.ToBytes("en", strings.Split(l, " "))
		w, err2 := words.FromBytes("en", seed(v)[:8+v])
		b2, err3 := words.ToBytes("en", w)
		return fmt.Sprint(b, err, err2, b2, err3)
	}),
	own("words.FromPrefix", func(v int) string {
		return words.FromPrefix("en", []string{"ab", "zo"}[v], 5)
	}),
	own("bip32", func(v int) string {
		l, r, err := bip32.NewMaster(seed(v))
		g, err2 := bip32.GenerateSeed(32, bytes.NewReader(seed(v)))
		return s(err, hex.EncodeToString(l[:]), hex.EncodeToString(r[:]), hex.EncodeToString(bip32.PrivateToPublic(l[:])), g, err2)
	}),
	own("key.NewMaster", func(v int) string {
		k, err := key.NewMaster(seed(v))
		if err != nil {
			return s(err)
		}
		t, err := k.MarshalText()
		return s(err, string(t), k.Depth(), k.ParentFingerprint(), k.IsPrivate())
	}),
	own("key.Child", func(v int) string {
		k, err := key.NewMaster(seed(v))
		if err != nil {
			return s(err)
		}
		c, err := k.Child(uint32(7 + v))
		if err != nil {
			return s(err)
		}
		h, err := c.HardenedChild(uint32(v))
		if err != nil {
			return s(err)
		}
		t, err := h.MarshalText()
		return s(err, string(t), h.PubKeyBytes())
	}),
	own("key.Public", func(v int) string {
		k, err := key.NewMaster(seed(v))
		if err != nil {
			return s(err)
		}
		p, err := k.Public()
		if err != nil {
			return s(err)
		}
		c, err := p.Child(uint32(3 + v))
		if err != nil {
			return s(err)
		}
		t, err := c.MarshalText()
		k.Zero()
		return s(err, string(t), k.IsPrivate())
	}),
	own("key.DeriveFrom", func(v int) string {
		k, err := key.NewMaster(seed(v))
		if err != nil {
			return s(err)
		}
		c, err := k.DeriveFrom("/", []string{"/44'/20036'/100", "/1/2"}[v])
		if err != nil {
			return s(err)
		}
		_, err2 := k.DeriveFrom("/x", "/1")
		t, err := c.MarshalText()
		return s(err, string(t), err2)
	}),
	own("key.text", func(v int) string {
		t := masterText(v)
		k := &key.ExtendedKey{}
		err := k.UnmarshalText([]byte(t))
		if err != nil {
			return s(err)
		}
		sk, err := k.SPrivKey()
		if err != nil {
			return s(err)
		}
		pk, err := k.SPubKey()
		if err != nil {
			return s(err)
		}
		a, err := k.AsSignatureKey()
		if err != nil {
			return s(err)
		}
		b, err := key.FromSignatureKey(a)
		return s(err, sk.FullString(), pk.FullString(), b.IsPrivate(), k.Bytes())
	}),
	own("key.FromOldSerialization", func(v int) string {
		k, err := key.FromOldSerialization(oldText(v))
		if err != nil {
			return s(err)
		}
		t, err := k.MarshalText()
		return s(err, string(t))
	}),
	own("signature.Generate", func(v int) string {
		al := []signature.Algorithm{signature.Ed25519, signature.Secp256k1}[v]
		pub, pvt, err := signature.Generate(al, bytes.NewReader(append(seed(v), seed(v+1)...)))
		return s(err, pub.FullString(), pvt.FullString(), signature.NameOf(al), signature.Match(pub, pvt))
	}),
	own("signature.Sign", func(v int) string {
		pub, pvt, err := signature.Generate(signature.Ed25519, bytes.NewReader(seed(v)))
		if err != nil {
			return s(err)
		}
		g := pvt.Sign(seed(v)[:10])
		t, err := g.MarshalString()
		return s(err, t, pub.Verify(seed(v)[:10], g), g.Verify(seed(v), pub))
	}),
	own("signature.secp256k1", func(v int) string {
		pub, pvt, err := signature.Generate(signature.Secp256k1, bytes.NewReader(append(seed(v), seed(v+1)...)))
		if err != nil {
			return s(err)
		}
		g := pvt.Sign(seed(v)[:10])
		t, err := g.MarshalString()
		return s(err, t, pub.Verify(seed(v)[:10], g), g.Verify(seed(v), pub))
	}),
	own("signature.forms", func(v int) string {
		al := []signature.Algorithm{signature.Ed25519, signature.Secp256k1}[v]
		k, err := signature.RawPublicKey(al, seed(v)[:32], seed(v)[:v*3])
		if err != nil {
			k, err = signature.RawPublicKey(al, append([]byte{2}, seed(v)...), seed(v)[:v*3])
		}
		if err != nil {
			return s(err)
		}
		t, err := k.MarshalText()
		if err != nil {
			return s(err)
		}
		q, err := signature.ParseKey(string(t))
		if err != nil {
			return s(err)
		}
		b, err := k.Marshal()
		if err != nil {
			return s(err)
		}
		var r signature.PublicKey
		err = r.Unmarshal(b)
		m, err2 := r.MarshalMsg(nil)
		var u signature.PublicKey
		left, err3 := u.UnmarshalMsg(append(m, 9))
		return s(err, q.String(), signature.IsPublic(q), m, err2, left, err3, u.FullString())
	}),
	own("signature.parse", func(v int) string {
		k, err := signature.RawPrivateKey(signature.Secp256k1, seed(v), nil)
		if err != nil {
			return s(err)
		}
		t, err := k.MarshalString()
		if err != nil {
			return s(err)
		}
		p, err := signature.ParsePrivateKey(t)
		if err != nil {
			return s(err)
		}
		_, e1 := signature.ParsePublicKey(t)
		_, e2 := signature.ParseSignature(t)
		_, e3 := signature.ParsePrivateKey(t[:20+v])
		return s(nil, p.FullString(), p.String(), signature.MaybePrivate(t), signature.MaybePublic(t), e1 != nil, e2 != nil, e3 != nil)
	}),
	own("signature.sums", func(v int) string {
		b := signature.AddChecksum(seed(v)[:10+v])
		m, ok := signature.CheckChecksum(b)
		b[3]++
		_, ok2 := signature.CheckChecksum(b)
		return fmt.Sprint(b, m, ok, ok2)
	}),
	own("keyaddr.derive", func(v int) string {
		k, err := keyaddr.NewKey([]string{"MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWY=", "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8="}[v])
		if err != nil {
			return s(err)
		}
		d, err := keyaddr.DeriveFrom(k.Key, "/", []string{"/44'/1", "/2"}[v])
		if err != nil {
			return s(err)
		}
		c, err := d.Child(int32(v))
		if err != nil {
			return s(err)
		}
		p, err := c.ToPublic()
		if err != nil {
			return s(err)
		}
		a, err := p.NdauAddress()
		return s(err, c.Key, p.Key, a)
	}),
	own("keyaddr.sign", func(v int) string {
		k := &keyaddr.Key{Key: masterText(v)}
		g, err := k.Sign([]string{"aGVsbG8=", "d29ybGQ="}[v])
		if err != nil {
			return s(err)
		}
		x, err := g.ToSignature()
		if err != nil {
			return s(err)
		}
		pk, err := k.ToPublic()
		if err != nil {
			return s(err)
		}
		p, err := pk.ToPublicKey()
		return s(err, g.Signature, p.Verify([]byte([]string{"hello", "world"}[v]), x))
	}),
	own("keyaddr.words", func(v int) string {
		w, err := keyaddr.WordsFromBytes("en", []string{"AAECAwQFBgcICQoLDA0ODw==", "MDEyMzQ1Njc4OWFiY2RlZg=="}[v])
		if err != nil {
			return s(err)
		}
		b, err := keyaddr.WordsToBytes("en", w)
		return s(err, w, b, keyaddr.WordsFromPrefix("en", "do", 3+v))
	}),
	on("signature.Verify", func(v int, sh *shared) string {
		return fmt.Sprint(sh.pub.Verify([]byte([]string{"message", "massage"}[v]), sh.sig), sh.sig.Verify([]byte("message"), sh.pub2), sh.pub.Size(), sh.sig.Size())
	}),
	on("signature.Sign", func(v int, sh *shared) string {
		g := sh.pvt.Sign(sh.data[:v+5])
		t, err := g.MarshalString()
		return s(err, t, signature.Match(sh.pub, sh.pvt))
	}),
	on("signature.write", func(v int, sh *shared) string {
		t, err := sh.pub2.MarshalText()
		b, err2 := sh.pvt.Marshal()
		m, err3 := sh.sig.MarshalMsg(nil)
		return s(err, string(t), b, err2, m, err3, sh.pub.String(), sh.pvt.String(), sh.pub2.FullString(), sh.pvt.Msgsize())
	}),
	on("key.Child-of-public", func(v int, sh *shared) string {
		c, err := sh.xpub.Child(uint32(v * 5))
		if err != nil {
			return s(err)
		}
		t, err := c.MarshalText()
		return s(err, string(t))
	}),
	on("key.write-public", func(v int, sh *shared) string {
		t, err := sh.xpub.MarshalText()
		p, err2 := sh.xpub.SPubKey()
		q, err3 := sh.xpub.Public()
		_, err4 := sh.xpub.HardenedChild(1)
		d, err5 := sh.xpub.DeriveFrom("/", "/1/2")
		if err2 != nil || err3 != nil || err5 != nil {
			return s(nil, err2, err3, err5)
		}
		u, err6 := d.MarshalText()
		return s(err, string(t), p.FullString(), q.Bytes(), err4, string(u), err6, sh.xpub.PubKeyBytes())
	}),
	on("address", func(v int, sh *shared) string {
		a, err := address.Generate("an"[v], sh.data)
		t, err2 := sh.addr.MarshalText()
		m, err3 := sh.addr.MarshalMsg(nil)
		return s(err, a.String(), string(t), err2, m, err3, sh.addr.Kind(), sh.addr.Revalidate())
	}),
	on("bitset256", func(v int, sh *shared) string {
		b := sh.bits.Clone().Set(byte(100 + v))
		return fmt.Sprint(sh.bits.Union(b).AsHex(), sh.bits.Intersect(b).AsHex(), sh.bits.Indices(), sh.bits.Less(b), sh.bits.IsSubsetOf(b), sh.bits.Count(), sh.bits.String(), sh.bits.AsBytes())
	}),
	on("words", func(v int, sh *shared) string {
		b, err := words.ToBytes("en", sh.list)
		w, err2 := words.FromBytes("en", sh.data)
		return s(err, b, w, err2, b32.Encode(sh.data2), b32.Checksum24(sh.data2))
	}),
	on("keyaddr", func(v int, sh *shared) string {
		c, err := sh.kpub.Child(int32(v))
		if err != nil {
			return s(err)
		}
		h, err := sh.kpvt.HardenedChild(int32(v))
		if err != nil {
			return s(err)
		}
		p, err := sh.kpub.IsPrivate()
		return s(err, c.Key, h.Key, p)
	}),
}}

func main() {
	suite.Worker()
	engine.Main([]*engine.Property{suite.Property("C01", []string{"between two statements of the packages' source files at most two changes of thread happen, at the first and last visits of a statement"})})
}
