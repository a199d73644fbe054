package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/tinylib/msgp/msgp"
	"verif/mc/engine"
	"verif/mc/mp"
)

// ---- reference models, written from the documentation ----

const refAlphabet = "abcdefghijkmnpqrstuvwxyz23456789"

// refCRC is CRC-16/AUG-CCITT (SPI-FUJITSU), bit by bit
func refCRC(b []byte) uint16 {
	crc := uint16(0x1D0F)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := x>>uint(i)&1 == 1
			top := crc&0x8000 != 0
			crc <<= 1
			if bit != top {
				crc ^= 0x1021
			}
		}
	}
	return crc
}

// refB32 is base32, bit by bit, without padding (only whole bytes of 5)
func refB32(b []byte) string {
	var bits []byte
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bits = append(bits, x>>uint(i)&1)
		}
	}
	n := 0
	var out []byte
	for len(bits) > 0 {
		for len(bits) < 5 {
			bits = append(bits, 0)
		}
		v := bits[0]<<4 | bits[1]<<3 | bits[2]<<2 | bits[3]<<1 | bits[4]
		out = append(out, refAlphabet[v])
		bits = bits[5:]
		n++
	}
	for len(out)%8 != 0 {
		out = append(out, '=')
	}
	return string(out)
}

// refUnB32 decodes 8n characters of the alphabet
func refUnB32(s string) ([]byte, bool) {
	var bits []byte
	for i := 0; i < len(s); i++ {
		v := strings.IndexByte(refAlphabet, s[i])
		if v < 0 {
			return nil, false
		}
		for k := 4; k >= 0; k-- {
			bits = append(bits, byte(v>>uint(k))&1)
		}
	}
	var out []byte
	for len(bits) >= 8 {
		var x byte
		for k := 0; k < 8; k++ {
			x = x<<1 | bits[k]
		}
		out = append(out, x)
		bits = bits[8:]
	}
	return out, true
}

const refKinds = "anexbm"

// refAddress is the address of the data, by the documentation
func refAddress(kind byte, data []byte) string {
	h := sha256.Sum256(data)
	// 15 bits of prefix, a zero bit, 26 bytes of hash
	v := strings.IndexByte(refAlphabet, 'n')<<11 | strings.IndexByte(refAlphabet, 'd')<<6 | strings.IndexByte(refAlphabet, kind)<<1
	body := append([]byte{byte(v >> 8), byte(v)}, h[6:]...)
	crc := refCRC(body)
	return refB32(append(body, byte(crc>>8), byte(crc)))
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, x := range b {
		if x >= 'A' && x <= 'Z' {
			b[i] = x + 32
		}
	}
	return string(b)
}

// refValid is the canonical address, or false
func refValid(s string) (string, bool) {
	s = asciiLower(s)
	if len(s) != 48 {
		return "", false
	}
	if strings.IndexByte(refKinds, s[2]) < 0 {
		return "", false
	}
	b, ok := refUnB32(s)
	if !ok || len(b) != 30 {
		return "", false
	}
	crc := refCRC(b[:28])
	return s, byte(crc>>8) == b[28] && byte(crc) == b[29]
}

// agree compares every way the code accepts an address string with the reference
func agreeAddr(c *engine.Ctx, sig, s string) {
	want, ok := refValid(s)
	c.NoPanic(sig, func() {
		a, err := address.Validate(s)
		if (err == nil) != ok {
			c.Fail(sig, "Validate(%q): err=%v; by the rules its validity is %v", s, err, ok)
		}
		if err != nil {
			c.Check(a == address.Address{}, sig, "Validate(%q) failed but returned %q", s, a)
		} else {
			c.Check(a.String() == want, sig, "Validate(%q)=%q, canonical form is %q", s, a, want)
			c.Check(a.Kind() == want[2], sig, "Validate(%q).Kind()=%q", s, a.Kind())
			c.Check(a.Revalidate() == nil, sig, "Validate(%q).Revalidate()=%v", s, a.Revalidate())
		}
		keep, _ := address.Generate('a', []byte("the value held before"))
		u := keep
		err = u.UnmarshalText([]byte(s))
		c.Check((err == nil) == ok, sig, "UnmarshalText(%q): err=%v; validity %v", s, err, ok)
		if ok {
			c.Check(u == a, sig, "UnmarshalText(%q) gives %q, Validate gives %q: one address, two values", s, u.String(), a.String())
		} else {
			c.Check(u == keep, sig, "UnmarshalText(%q) failed and changed the value to %q", s, u.String())
		}
	})
}

func testData(n, fill int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch fill {
		case 0:
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i + 1)
		case 3:
			b[i] = byte(i*37 + n)
		default:
			b[i] = byte(i*i*fill + fill)
		}
	}
	return b
}

// bigSizes is the numbers within 3 of a power of two, or of one and a half of it
func bigSizes(from, to uint) (l []int) {
	for k := from; k <= to; k++ {
		for d := -3; d <= 3; d++ {
			l = append(l, 1<<k+d, 3<<(k-1)+d)
		}
	}
	return l
}

func init() {
	register(&engine.Property{ID: "D01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		maxLen, fills := 160, 4
		if tier == "thorough" {
			maxLen, fills = 1100, 40
		}
		return []engine.Harness{
			{Name: "generate", About: fmt.Sprintf("every kind byte 0..255 and data of every length 0..%d, %d fills", maxLen, fills), Body: func(c *engine.Ctx) {
				n := c.Pick(maxLen + 1)
				kind, fill := byte(c.Pick(256)), c.Pick(fills)
				data := spare(testData(n, fill))
				keep := append(make([]byte, 0, n), data...)
				valid := strings.IndexByte(refKinds, kind) >= 0
				c.Logf("Generate(%q, %d bytes of fill %d)", kind, n, fill)
				c.Check(address.IsValidKind(kind) == valid, "kind", "IsValidKind(%q)=%v", kind, !valid)
				c.NoPanic("panic", func() {
					a, err := address.Generate(kind, data)
					c.Check((err == nil) == (valid && n >= 12), "error", "Generate(%q, %d bytes): err=%v", kind, n, err)
					c.Check(bytes.Equal(data, keep), "data", "Generate changed its data")
					c.Check(intact(data), "data", "Generate wrote behind its data")
					if err != nil {
						c.Check(a == address.Address{}, "error", "Generate(%q, %d bytes) failed but returned %q", kind, n, a)
						return
					}
					want := refAddress(kind, data)
					c.Check(a.String() == want, "value", "Generate(%q, %x)=%s, the documented construction gives %s", kind, data, a, want)
					c.Check(a.Kind() == kind && strings.HasPrefix(a.String(), "nd"), "value", "Generate(%q, %x)=%s", kind, data, a)
					b, _ := address.Generate(kind, keep)
					c.Check(a == b, "deterministic", "Generate(%q, %x) is %s then %s", kind, data, a, b)
					v, err := address.Validate(a.String())
					c.Check(err == nil && v == a, "accepted", "Validate of the generated %s: %v %v", a, v, err)
					c.State(a.String())
				})
			}},
			{Name: "sizes", About: "data of every length within 3 of every power of two to 2^18 and of their sums with 2^k: the address, and another one with any of 9 bits changed, also behind the first kilobyte", Body: func(c *engine.Ctx) {
				n := bigSizes(6, 18)[c.Pick(len(bigSizes(6, 18)))]
				data := testData(n, c.Pick(4))
				kind := refKinds[c.Pick(len(refKinds))]
				want := refAddress(kind, data)
				c.NoPanic("panic", func() {
					a, err := address.Generate(kind, data)
					c.Check(err == nil && a.String() == want, "value", "Generate(%q, %d bytes)=%s %v, the documented construction gives %s", kind, n, a, err, want)
					for _, p := range []int{0, 1, n / 4, n / 2, n - n/8, n - 33, n - 2, n - 1} {
						data[p] ^= 0x10
						b, err := address.Generate(kind, data)
						data[p] ^= 0x10
						c.Check(err == nil && b != a, "distinct", "two data of %d bytes which differ in byte %d, one address %s", n, p, b)
						c.Step()
					}
				})
			}},
			{Name: "injective", About: "flipping any one bit of the data, changing the kind, or appending a byte changes the address", Body: func(c *engine.Ctx) {
				n := []int{12, 13, 32, 33, 55, 56, 63, 64, 65, 65 + 33}[c.Pick(10)]
				data := testData(n, 3)
				a, _ := address.Generate('a', data)
				bit := c.Pick(n*8 + 2)
				switch {
				case bit < n*8:
					data[bit/8] ^= 1 << uint(bit%8)
				case bit == n*8:
					data = append(data, 0)
				default:
					data = data[:n-1]
				}
				b, err := address.Generate('a', data)
				if len(data) < 12 {
					c.Check(err != nil, "short", "Generate accepted %d bytes", len(data))
					return
				}
				c.Logf("%s %s", a, b)
				c.Check(err == nil && a != b && b.String() == refAddress('a', data), "distinct", "two data, one address %s (or not the documented %s)", b, refAddress('a', data))
				for i := 0; i < len(refKinds); i++ {
					x, err := address.Generate(refKinds[i], data)
					c.Check(err == nil && x.String() == refAddress(refKinds[i], data), "kinds", "Generate(%q)=%s", refKinds[i], x)
				}
				c.State(b.String())
			}},
			{Name: "parse-kind", About: "every string of up to 2 bytes, the documented names in every case, every rune below 0x3000, every byte and int8", Body: func(c *engine.Ctx) {
				names := map[string]byte{"u": 'a', "user": 'a', "ndau": 'n', "endowment": 'e', "exchange": 'x', "bpc": 'b', "marketmaker": 'm',
					"a": 'a', "n": 'n', "e": 'e', "x": 'x', "b": 'b', "m": 'm'}
				okFor := func(sig string, in interface{}, want byte) {
					c.NoPanic("panic", func() {
						k, err := address.ParseKind(in)
						if err == nil {
							c.Check(address.IsValidKind(k), "sound", "ParseKind(%T %q) returned invalid kind %q", in, in, k)
						}
						valid := strings.IndexByte(refKinds, want) >= 0 && want != 0
						c.Check((err == nil) == valid, sig, "ParseKind(%T %q)=%q, %v; want %q", in, in, k, err, want)
						if valid {
							c.Check(k == want, sig, "ParseKind(%T %q)=%q want %q", in, in, k, want)
						}
					})
					c.State(fmt.Sprintf("%T%v", in, in))
				}
				switch c.Pick(6) {
				case 0: // names
					var all []string
					for n := range names {
						all = append(all, n)
					}
					sortStrings(all)
					n := all[c.Pick(len(all))]
					// every choice of case for up to 5 letters, the rest following the first
					bits := len(n)
					if bits > 5 {
						bits = 5
					}
					m := c.Pick(1 << uint(bits))
					b := []byte(n)
					for i := range b {
						if m>>uint(i%bits)&1 == 1 {
							b[i] -= 32
						}
					}
					okFor("name", string(b), names[n])
				case 1: // 0..1 byte
					k := c.Pick(257)
					s := ""
					if k > 0 {
						s = string([]byte{byte(k - 1)})
					}
					want := byte(0)
					if w, ok := names[asciiLower(s)]; ok {
						want = w
					}
					okFor("letter", s, want)
				case 2: // two bytes: sound
					s := string([]byte{byte(c.Pick(256)), byte(c.Pick(256))})
					c.NoPanic("panic", func() {
						k, err := address.ParseKind(s)
						c.Check(err != nil || address.IsValidKind(k), "sound", "ParseKind(%q) returned invalid kind %q", s, k)
					})
					c.State(s)
				case 3:
					r := rune(c.Pick(0x3000))
					want := byte(0)
					if r < 128 {
						w := asciiLower(string(r))
						if w != "u" {
							want = names[w]
						}
					}
					okFor("rune", r, want)
				case 4:
					b := byte(c.Pick(256))
					want := byte(0)
					if strings.IndexByte(refKinds, b) >= 0 {
						want = b
					}
					okFor("byte", b, want)
					okFor("int8", int8(b), want)
				case 5:
					in := []interface{}{nil, 1, int64('a'), uint16('a'), 1.5, []byte("a"), struct{}{}, true, address.Address{}}
					i := c.Pick(len(in))
					c.NoPanic("panic", func() {
						_, err := address.ParseKind(in[i])
						c.Check(err != nil, "type", "ParseKind(%T) succeeded", in[i])
					})
				}
			}},
			{Name: "base32-checksum", About: "the byte encoding and checksum under addresses: every length 0..80, every byte at every position of 10 bytes", Body: func(c *engine.Ctx) {
				var b []byte
				if c.Bool() {
					b = testData(c.Pick(81), c.Pick(6))
				} else {
					b = testData(10, 2)
					b[c.Pick(10)] = byte(c.Pick(256))
				}
				keep := append([]byte{}, b...)
				b = spare(b)
				s := b32.Encode(b)
				c.Logf("Encode(%x)=%s", b, s)
				c.Check(s == refB32(b), "encode", "Encode(%x)=%s, bit by bit it is %s", b, s, refB32(b))
				for _, t := range []string{s, strings.ToUpper(s)} {
					d, err := b32.Decode(t)
					c.Check(err == nil && bytes.Equal(d, b), "decode", "Decode(%q)=%x, %v; want %x", t, d, err, b)
				}
				crc := refCRC(b)
				ck := b32.Checksum16(b)
				want := []byte{byte(crc >> 8), byte(crc)}
				c.Check(bytes.Equal(ck, want), "crc", "Checksum16(%x)=%x want %x", b, ck, want)
				c.Check(b32.Check(b, ck), "check", "Check(%x, %x)=false", b, ck)
				h := sha256.Sum256(b)
				c.Check(bytes.Equal(b32.Checksum24(b), h[:3]), "crc24", "Checksum24(%x)=%x", b, b32.Checksum24(b))
				ck[0] ^= 0xff
				c.Check(bytes.Equal(b32.Checksum16(b), want), "crc", "Checksum16 is not stable")
				c.Check(bytes.Equal(b, keep) && intact(b), "input", "the input was changed")
				c.State(s)
			}},
			{Name: "check-rejects", About: "each of the 65536 checksums against one datum: only the right one is accepted", Body: func(c *engine.Ctx) {
				b := testData([]int{0, 1, 28, 29}[c.Pick(4)], 2)
				hi, lo := byte(c.Pick(256)), byte(c.Pick(256))
				crc := refCRC(b)
				ok := byte(crc>>8) == hi && byte(crc) == lo
				c.Check(b32.Check(b, []byte{hi, lo}) == ok, "check", "Check(%x, %02x%02x)=%v; the checksum is %04x", b, hi, lo, !ok, crc)
			}},
			{Name: "foreign", About: "every Unicode character beyond ASCII at the ends and in the middle of strings of several lengths: never decoded", Body: func(c *engine.Ctx) {
				n := []int{8, 10, 16, 24}[c.Pick(4)]
				pos := []int{0, n / 2, n - 1}[c.Pick(3)]
				from := rune(c.Pick(0x110000/0x1000)) * 0x1000
				for r := from; r < from+0x1000; r++ {
					if r < 0x80 || r >= 0xd800 && r < 0xe000 {
						continue
					}
					in := strings.Repeat("k", pos) + string(r) + strings.Repeat("i", n-1-pos)
					c.NoPanic("panic", func() {
						if d, err := b32.Decode(in); err == nil {
							c.Fail("foreign", "Decode(%q)=%x", in, d)
						}
					})
					c.Step()
				}
			}},
			{Name: "alphabet", About: "every byte value at every position of 8 and 16 character strings: refused unless in the alphabet (line breaks and padding aside)", Body: func(c *engine.Ctx) {
				n := 8 + 8*c.Pick(2)
				pos, ch := c.Pick(n), byte(c.Pick(256))
				in := []byte(strings.Repeat("k", n))
				in[pos] = ch
				if ch == '\r' || ch == '\n' || ch == '=' {
					c.Stop()
				}
				low := asciiLower(string(in))
				want, ok := refUnB32(low)
				c.NoPanic("panic", func() {
					d, err := b32.Decode(string(in))
					c.Check((err == nil) == ok, "alphabet", "Decode(%q): err=%v", in, err)
					if ok {
						c.Check(bytes.Equal(d, want), "value", "Decode(%q)=%x want %x", in, d, want)
					}
				})
				c.Check(b32.Index(string(ch)) == strings.IndexByte(refAlphabet, ch) || ch >= 128, "index", "Index(%q)=%d", ch, b32.Index(string(ch)))
			}},
		}
	}})

	register(&engine.Property{ID: "D02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		nAddr := 4
		if tier == "thorough" {
			nAddr = 30
		}
		base := func(c *engine.Ctx, n int) []byte {
			k := c.Pick(len(refKinds))
			return []byte(refAddress(refKinds[k], testData(20+c.Pick(n), 3)))
		}
		reject := func(c *engine.Ctx, sig, orig, s string) {
			if asciiLower(s) == orig {
				return
			}
			c.Logf("%q -> %q", orig, s)
			c.NoPanic(sig, func() {
				a, err := address.Validate(s)
				if err == nil {
					c.Fail(sig, "%q, which is %q mistyped, is accepted as %q", s, orig, a)
				}
				c.Check(a == address.Address{}, sig, "Validate(%q) failed but returned %q", s, a)
			})
		}
		return []engine.Harness{
			{Name: "one-character", About: "every byte value in place of every character", Body: func(c *engine.Ctx) {
				o := base(c, nAddr)
				s := append([]byte{}, o...)
				s[c.Pick(48)] = byte(c.Pick(256))
				reject(c, "substitution", string(o), string(s))
				c.State(string(s))
			}},
			{Name: "foreign", About: "every Unicode character in place of every character of an address, and of as many as make the length 48 bytes again", Body: func(c *engine.Ctx) {
				o := addressWithIK
				i := c.Pick(48)
				from := rune(c.Pick(0x110000/0x1000)) * 0x1000
				for r := from; r < from+0x1000; r++ {
					if r < 0x80 || r >= 0xd800 && r < 0xe000 {
						continue
					}
					for _, cut := range []int{1, len(string(r))} {
						if i+cut > 48 {
							continue
						}
						s := o[:i] + string(r) + o[i+cut:]
						if a, err := address.Validate(s); err == nil {
							c.Fail("foreign", "%q, which is %q with a foreign character, is accepted as %q", s, o, a)
						}
						c.Step()
					}
				}
			}},
			{Name: "swap", About: "every swap of two characters up to three places apart", Body: func(c *engine.Ctx) {
				o := base(c, nAddr*4)
				s := append([]byte{}, o...)
				i, d := c.Pick(47), 1+c.Pick(2)
				if i+d > 47 {
					c.Stop()
				}
				s[i], s[i+d] = s[i+d], s[i]
				reject(c, "transposition", string(o), string(s))
				c.State(string(s))
			}},
			{Name: "burst", About: "every change of up to three neighbouring characters to others of the alphabet", Body: func(c *engine.Ctx) {
				k := c.Pick(len(refKinds))
				if tier != "thorough" && k != 0 {
					c.Stop()
				}
				o := []byte(refAddress(refKinds[k], testData(33, 3)))
				s := append([]byte{}, o...)
				i := c.Pick(46)
				s[i] = refAlphabet[c.Pick(32)]
				s[i+1] = refAlphabet[c.Pick(32)]
				s[i+2] = refAlphabet[c.Pick(32)]
				reject(c, "burst", string(o), string(s))
			}},
			{Name: "three-bits", About: "every error of up to three bits (quick: three bits within 40 of the first)", Body: func(c *engine.Ctx) {
				o := refAddress('a', testData(21, 3))
				raw, _ := refUnB32(o)
				i := c.Pick(240)
				w := 40
				if tier == "thorough" {
					w = 240
				}
				raw[i/8] ^= 0x80 >> uint(i%8)
				if n := minInt(w, 239-i); n > 0 {
					if j := c.Pick(n + 1); j > 0 {
						raw[(i+j)/8] ^= 0x80 >> uint((i+j)%8)
						if n > j {
							if k := c.Pick(n - j + 1); k > 0 {
								raw[(i+j+k)/8] ^= 0x80 >> uint((i+j+k)%8)
							}
						}
					}
				}
				reject(c, "bits", o, refB32(raw))
			}},
			{Name: "wrapped", About: "an address with every one or two ASCII characters before it, after it, and one on either side", Body: func(c *engine.Ctx) {
				o := refAddress(refKinds[c.Pick(len(refKinds))], testData(22, 3))
				x := string(rune(c.Pick(128)))
				reject(c, "wrapped", o, x+o)
				reject(c, "wrapped", o, o+x)
				for y := 0; y < 128; y++ {
					for _, s := range []string{x + string(rune(y)) + o, o + x + string(rune(y)), x + o + string(rune(y))} {
						reject(c, "wrapped", o, s)
						c.Step()
					}
				}
				if x[0] > ' ' {
					return
				}
				for _, s := range []string{"ndau:" + o, "ndau://" + o, "https://explorer.service.ndau.tech/account/" + o, o + "?amount=1", o + "#memo", o + "%20", "\ufeff" + o, o + "\u200b", o + "\r\n", "0x" + o, o + "," + o, o + " " + o, "<" + o + ">", "(" + o + ")", o[:24] + " " + o[24:], o[:24] + "-" + o[24:], o[:24] + "\n" + o[24:] + "\n"} {
					reject(c, "wrapped", o, s)
				}
			}},
			{Name: "length", About: "every deletion, insertion, doubling, truncation and extension", Body: func(c *engine.Ctx) {
				o := string(base(c, nAddr))
				i := c.Pick(49)
				var s string
				switch c.Pick(5) {
				case 0:
					if i == 48 {
						c.Stop()
					}
					s = o[:i] + o[i+1:]
				case 1:
					s = o[:i] + string([]byte{byte(c.Pick(256))}) + o[i:]
				case 2:
					s = o[:i]
				case 3:
					if i == 48 {
						c.Stop()
					}
					s = o + o[:i+1]
				case 4:
					s = o[i:] + o[:i] // rotation
				}
				if v, ok := refValid(s); ok && v != o {
					c.Stop() // a rotation may by chance be another address
				}
				reject(c, "length", o, s)
				c.State(s)
			}},
		}
	}})

	register(&engine.Property{ID: "D03", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		n := 6
		if tier == "thorough" {
			n = 60
		}
		return []engine.Harness{
			{Name: "neighbours", About: "histories of valid addresses which have all but 17 neighbouring bits in common, wherever these are, and of those with two such differences: each is itself, before and after the other", Body: func(c *engine.Ctx) {
				raw, _ := refUnB32(refAddress(refKinds[c.Pick(2)], testData(44, 3)))
				o := refB32(raw)
				other := func(i int) {
					// the checksum's polynomial changes nothing in it
					for b := 0; b < 17; b++ {
						if 0x11021>>uint(b)&1 == 1 {
							at := 239 - i - b
							raw[at/8] ^= 0x80 >> uint(at%8)
						}
					}
				}
				i := c.Pick(224)
				other(i)
				x := refB32(raw)
				list := []string{o, x, o}
				if c.Bool() {
					if i%8 != 0 && tier != "thorough" {
						c.Stop()
					}
					j := c.Pick(224)
					other(j)
					list = []string{refB32(raw), x, o, x, refB32(raw)}
				}
				for _, s := range list {
					c.Logf("%s", s)
					agreeAddr(c, "neighbour", s)
				}
				c.State(list[0] + x)
			}},
			{Name: "case", About: "each address in upper, lower and alternating case and with each one or two letters' case changed: one and the same value, in canonical form", Body: func(c *engine.Ctx) {
				o := refAddress(refKinds[c.Pick(len(refKinds))], testData(40+c.Pick(n), 3))
				b := []byte(o)
				flip := func(i int) {
					if b[i] >= 'a' && b[i] <= 'z' {
						b[i] -= 32
					}
				}
				switch c.Pick(3) {
				case 0:
					m := c.Pick(4)
					for i := range b {
						if m == 1 || m == 2 && i%2 == 0 || m == 3 && i%2 == 1 {
							flip(i)
						}
					}
				case 1:
					flip(c.Pick(48))
				case 2:
					i := c.Pick(48)
					j := c.Pick(48)
					if i < j {
						flip(i)
						flip(j)
					}
				}
				c.Logf("%s", b)
				agreeAddr(c, "case", string(b))
				c.State(string(b))
			}},
			{Name: "padding", About: "strings of 48 characters made of an address-like body of fewer characters with a right checksum, filled up with padding, line breaks or blanks in every position", Body: func(c *engine.Ctx) {
				groups := 1 + c.Pick(5) // 8*groups characters of body
				fill := []string{"\n", "\r", "=", " ", "\t", "\x00", "-"}[c.Pick(7)]
				at := c.Pick(8*groups + 1)
				body := []byte(refAddress(refKinds[c.Pick(6)], testData(30, 3)))
				raw, _ := refUnB32(string(body[:8*groups]))
				crc := refCRC(raw[:len(raw)-2])
				raw[len(raw)-2], raw[len(raw)-1] = byte(crc>>8), byte(crc)
				s := refB32(raw)
				s = s[:at] + strings.Repeat(fill, 48-len(s)) + s[at:]
				c.Logf("%q", s)
				agreeAddr(c, "padding", s)
				c.State(s)
			}},
			{Name: "partial-padding", About: "bodies which are not whole groups, with base32 padding and a right checksum", Body: func(c *engine.Ctx) {
				nb := 5 + c.Pick(25)
				raw := testData(nb, 3)
				o, _ := refUnB32(refAddress(refKinds[c.Pick(6)], testData(30, 3)))
				copy(raw, o[:2])
				crc := refCRC(raw[:nb-2])
				raw[nb-2], raw[nb-1] = byte(crc>>8), byte(crc)
				s := refB32(raw)
				if len(s) > 48 {
					c.Stop()
				}
				switch c.Pick(3) {
				case 0:
					s += strings.Repeat("=", 48-len(s))
				case 1:
					s += strings.Repeat("\n", 48-len(s))
				case 2:
					s = strings.Repeat("\r", 48-len(s)) + s
				}
				c.Logf("%q", s)
				agreeAddr(c, "padding", s)
				c.State(s)
			}},
			{Name: "kinds", About: "48 characters with every character in the kind's place and a right checksum: only the documented kinds pass", Body: func(c *engine.Ctx) {
				o := refAddress('a', testData(30+c.Pick(n), 3))
				p0, p1, k := c.Pick(32), c.Pick(32), c.Pick(32)
				if tier != "thorough" && p0 != 12 && p1 != 3 {
					c.Stop()
				}
				s := string([]byte{refAlphabet[p0], refAlphabet[p1], refAlphabet[k]}) + o[3:]
				raw, _ := refUnB32(s)
				crc := refCRC(raw[:28])
				raw[28], raw[29] = byte(crc>>8), byte(crc)
				s = refB32(raw)
				c.Logf("%q", s)
				agreeAddr(c, "kind", s)
				c.State(s)
			}},
			{Name: "near", About: "every byte value at every position, and every length 0..100", Body: func(c *engine.Ctx) {
				o := refAddress(refKinds[c.Pick(6)], testData(50, 3))
				if c.Bool() {
					b := []byte(o)
					b[c.Pick(48)] = byte(c.Pick(256))
					agreeAddr(c, "near", string(b))
					c.State(string(b))
				} else {
					s := (o + o + o)[:c.Pick(101)]
					agreeAddr(c, "length", s)
					c.State(s)
				}
			}},
			{Name: "carriers", About: "text and binary carriers return the same address; every truncation of the binary form is refused", Body: func(c *engine.Ctx) {
				a, err := address.Generate(refKinds[c.Pick(6)], testData(12+c.Pick(n*3), 3))
				c.Check(err == nil, "generate", "%v", err)
				t, err := a.MarshalText()
				c.Check(err == nil && string(t) == a.String(), "text", "MarshalText of %s gives %s, %v", a, t, err)
				t2 := append([]byte{}, t...)
				var b address.Address
				c.Check(b.UnmarshalText(t2) == nil && b == a, "text", "UnmarshalText(%s) gives %s", t2, b)
				for i := range t2 {
					t2[i] = 'x'
				}
				for i := range t {
					t[i] = 'y'
				}
				c.Check(b == a && b.Revalidate() == nil && a.Revalidate() == nil, "aliasing", "an address changed with the caller's buffer: %s %s", a, b)
				pre := []byte("prefix")
				m, err := a.MarshalMsg(pre)
				c.Check(err == nil && bytes.HasPrefix(m, []byte("prefix")), "msgp", "MarshalMsg: %x %v", m, err)
				m = m[6:]
				c.Check(a.Msgsize() >= len(m), "msgp", "Msgsize %d < %d", a.Msgsize(), len(m))
				d, _ := address.Generate('x', testData(99, 2))
				left, err := d.UnmarshalMsg(append(append([]byte{}, m...), 1, 2, 3))
				c.Check(err == nil && d == a && bytes.Equal(left, []byte{1, 2, 3}), "msgp", "UnmarshalMsg: %s %x %v", d, left, err)
				var buf bytes.Buffer
				w := msgp.NewWriter(&buf)
				c.Check(a.EncodeMsg(w) == nil && w.Flush() == nil && bytes.Equal(buf.Bytes(), m), "msgp", "EncodeMsg gives %x, MarshalMsg %x", buf.Bytes(), m)
				var e address.Address
				c.Check(e.DecodeMsg(msgp.NewReader(bytes.NewReader(m))) == nil && e == a, "msgp", "DecodeMsg gives %s", e)
				for i := 0; i < len(m); i++ {
					c.NoPanic("truncated", func() {
						var x address.Address
						_, err := x.UnmarshalMsg(m[:i])
						c.Check(err != nil, "truncated", "UnmarshalMsg accepted %d of %d bytes", i, len(m))
						c.Check(x.DecodeMsg(msgp.NewReader(bytes.NewReader(m[:i]))) != nil, "truncated", "DecodeMsg accepted %d of %d bytes", i, len(m))
					})
				}
				c.State(a.String())
			}},
			{Name: "faults", About: "addresses written to streams which fail once or for good, at every place, and read from streams which deliver in portions and fail after any number of bytes", Body: func(c *engine.Ctx) {
				a, err := address.Generate(refKinds[c.Pick(6)], testData(12+c.Pick(20), 3))
				c.Check(err == nil, "generate", "%v", err)
				b, _ := a.MarshalMsg(nil)
				mp.Write(c, "write", a, b)
				mp.Read(c, "read", func() msgp.Decodable { x := usedAddress; return &x }, b, func(d msgp.Decodable) bool { return *d.(*address.Address) == a })
			}},
			{Name: "msgp-shapes", About: "every byte string of up to 2 bytes (3 with every 4th last one), and every array and string header format with counts of 0, 1 and 2 and string lengths right, short and long: an address is read exactly from an array of one string", Body: func(c *engine.Ctx) {
				if c.Bool() {
					a := byte(c.Pick(256))
					readAddress(c, []byte{a})
					for b := 0; b < 256; b++ {
						readAddress(c, []byte{a, byte(b)})
						for d := 0; d < 256; d += 4 {
							readAddress(c, []byte{a, byte(b), byte(d)})
						}
					}
					return
				}
				n := []int{0, 1, 2, 3, 15, 16}[c.Pick(6)]
				var h []byte
				switch c.Pick(5) {
				case 0:
					h = []byte{0x90 | byte(n)&15}
				case 1:
					h = []byte{0xdc, 0, byte(n)}
				case 2:
					h = []byte{0xdd, 0, 0, 0, byte(n)}
				case 3:
					h = []byte{0x80 | byte(n)&15}
				case 4:
					h = []byte{0xc0}
				}
				l := []int{0, 1, 31, 32, 48, 255, 256, 300}[c.Pick(8)]
				text := bytes.Repeat([]byte("n"), l)
				switch c.Pick(7) {
				case 0:
					h = append(h, 0xa0|byte(l)&31)
				case 1:
					h = append(h, 0xd9, byte(l))
				case 2:
					h = append(h, 0xda, byte(l>>8), byte(l))
				case 3:
					h = append(h, 0xdb, 0, 0, byte(l>>8), byte(l))
				case 4:
					h = append(h, 0xc4, byte(l))
				case 5:
					h = append(h, 0xc0)
				case 6:
					h = append(h, byte(l))
				}
				for _, cut := range []int{0, 1, l} {
					if cut <= l {
						readAddress(c, append(append([]byte{}, h...), text[:l-cut]...))
					}
				}
				for k := range h {
					readAddress(c, h[:k])
				}
				readAddress(c, append(append(append([]byte{}, h...), text...), 0xa1, 'x'))
			}},
		}
	}})
}

// addressWithIK has the two letters in it which are the lower case of characters outside ASCII
var addressWithIK = func() string {
	for i := 0; ; i++ {
		if a := refAddress('a', testData(20+i%40, i/40)); strings.Contains(a, "i") && strings.Contains(a, "k") {
			return a
		}
	}
}()

var usedAddress, _ = address.Generate('x', testData(77, 2))

// readAddress reads message pack both ways and compares with what an array of one string says
func readAddress(c *engine.Ctx, m []byte) {
	want, left, ok := refStringArray(m)
	a, b := usedAddress, usedAddress
	var l []byte
	var err, err2 error
	var r *msgp.Reader
	c.NoPanic("msgp", func() {
		l, err = a.UnmarshalMsg(m)
		r = msgp.NewReader(bytes.NewReader(m))
		err2 = b.DecodeMsg(r)
	})
	c.Steps(2)
	if (err == nil) != ok || (err2 == nil) != ok {
		c.Fail("msgp", "reading %x as an address gives %v and %v, expected ok=%v", m, err, err2, ok)
		return
	}
	if ok {
		if !bytes.Equal(l, left) || a.String() != want || b.String() != want || r.Buffered() != len(left) {
			c.Fail("msgp", "reading %x as an address gives %q and %q with %d and %d bytes left, expected %q and %d", m, a, b, len(l), r.Buffered(), want, len(left))
		}
	}
}

func refStringArray(m []byte) (string, []byte, bool) {
	be := func(k int) (int, bool) {
		if len(m) < 1+k {
			return 0, false
		}
		n := 0
		for _, b := range m[1 : 1+k] {
			n = n<<8 | int(b)
		}
		m = m[1+k:]
		return n, true
	}
	if len(m) == 0 {
		return "", nil, false
	}
	n, ok := -1, true
	switch t := m[0]; {
	case t&0xf0 == 0x90:
		n, m = int(t&15), m[1:]
	case t == 0xdc:
		n, ok = be(2)
	case t == 0xdd:
		n, ok = be(4)
	}
	if !ok || n != 1 || len(m) == 0 {
		return "", nil, false
	}
	n = -1
	switch t := m[0]; {
	case t&0xe0 == 0xa0:
		n, m = int(t&31), m[1:]
	case t == 0xd9:
		n, ok = be(1)
	case t == 0xda:
		n, ok = be(2)
	case t == 0xdb:
		n, ok = be(4)
	}
	if !ok || n < 0 || n > len(m) {
		return "", nil, false
	}
	return string(m[:n]), m[n:], true
}
