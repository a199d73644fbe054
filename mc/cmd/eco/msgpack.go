package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
	"verif/mc/engine"
	"verif/mc/mp"
)

type packed interface {
	msgp.Decodable
	msgp.Encodable
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Sizer
}

// kind is one of the types which are stored as message pack
type kind struct {
	name  string
	depth int // 0: a number, 1: a pair, 2: a list of pairs
	// of makes one of numbers (an even amount for lists)
	of func(v []int64) packed
	// nums gives them back
	nums func(p packed) []int64
}

func kinds() []kind {
	one := func(name string, mk func(int64) packed, get func(packed) int64) kind {
		return kind{name, 0, func(v []int64) packed { return mk(v[0]) }, func(p packed) []int64 { return []int64{get(p)} }}
	}
	return []kind{
		one("Ndau", func(v int64) packed { x := types.Ndau(v); return &x }, func(p packed) int64 { return int64(*p.(*types.Ndau)) }),
		one("Duration", func(v int64) packed { x := types.Duration(v); return &x }, func(p packed) int64 { return int64(*p.(*types.Duration)) }),
		one("Timestamp", func(v int64) packed { x := types.Timestamp(v); return &x }, func(p packed) int64 { return int64(*p.(*types.Timestamp)) }),
		one("Nanocent", func(v int64) packed { x := pricecurve.Nanocent(v); return &x }, func(p packed) int64 { return int64(*p.(*pricecurve.Nanocent)) }),
		one("Rate", func(v int64) packed { x := eai.Rate(v); return &x }, func(p packed) int64 { return int64(*p.(*eai.Rate)) }),
		{"RTRow", 1, func(v []int64) packed {
			return &eai.RTRow{From: types.Duration(v[0]), Rate: eai.Rate(v[1])}
		}, func(p packed) []int64 {
			r := p.(*eai.RTRow)
			return []int64{int64(r.From), int64(r.Rate)}
		}},
		{"RSRow", 1, func(v []int64) packed {
			return &eai.RSRow{Duration: types.Duration(v[0]), Rate: eai.Rate(v[1])}
		}, func(p packed) []int64 {
			r := p.(*eai.RSRow)
			return []int64{int64(r.Duration), int64(r.Rate)}
		}},
		{"RateTable", 2, func(v []int64) packed {
			t := eai.RateTable{}
			for i := 0; i+1 < len(v); i += 2 {
				t = append(t, eai.RTRow{From: types.Duration(v[i]), Rate: eai.Rate(v[i+1])})
			}
			return &t
		}, func(p packed) []int64 {
			out := []int64{}
			for _, r := range *p.(*eai.RateTable) {
				out = append(out, int64(r.From), int64(r.Rate))
			}
			return out
		}},
		{"RateSlice", 2, func(v []int64) packed {
			t := eai.RateSlice{}
			for i := 0; i+1 < len(v); i += 2 {
				t = append(t, eai.RSRow{Duration: types.Duration(v[i]), Rate: eai.Rate(v[i+1])})
			}
			return &t
		}, func(p packed) []int64 {
			out := []int64{}
			for _, r := range *p.(*eai.RateSlice) {
				out = append(out, int64(r.Duration), int64(r.Rate))
			}
			return out
		}},
	}
}

// readInt reads a message pack integer: its value, what is left
func readInt(b []byte) (*big.Int, []byte, bool) {
	if len(b) == 0 {
		return nil, nil, false
	}
	k, b := b[0], b[1:]
	take := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var x [8]byte
		copy(x[8-n:], b)
		b = b[n:]
		return binary.BigEndian.Uint64(x[:]), true
	}
	switch {
	case k < 0x80:
		return bi(int64(k)), b, true
	case k >= 0xe0:
		return bi(int64(int8(k))), b, true
	case k >= 0xcc && k <= 0xcf:
		v, ok := take(1 << (k - 0xcc))
		return bu(v), b, ok
	case k >= 0xd0 && k <= 0xd3:
		n := 1 << (k - 0xd0)
		v, ok := take(n)
		return bi(int64(v<<uint(64-8*n)) >> uint(64-8*n)), b, ok
	}
	return nil, nil, false
}

// readHead reads the length of a list
func readHead(b []byte) (int, []byte, bool) {
	switch {
	case len(b) > 0 && b[0] >= 0x90 && b[0] <= 0x9f:
		return int(b[0] & 15), b[1:], true
	case len(b) > 2 && b[0] == 0xdc:
		return int(b[1])<<8 | int(b[2]), b[3:], true
	case len(b) > 4 && b[0] == 0xdd:
		return int(binary.BigEndian.Uint32(b[1:])), b[5:], true
	}
	return 0, nil, false
}

// readPacked reads what a type of a depth consists of
func readPacked(b []byte, depth int) (v []int64, rest []byte, ok bool) {
	if depth == 0 {
		x, rest, ok := readInt(b)
		if !ok || !fitsI(x) {
			return nil, nil, false
		}
		return []int64{x.Int64()}, rest, true
	}
	n, b, ok := readHead(b)
	if !ok || depth == 1 && n != 2 {
		return nil, nil, false
	}
	v = []int64{}
	for i := 0; i < n; i++ {
		w, rest, ok := readPacked(b, depth-1)
		if !ok {
			return nil, nil, false
		}
		v = append(v, w...)
		b = rest
	}
	return v, b, true
}

// huge lists are allocated by the generated code before they are read
func huge(b []byte) bool {
	return len(b) > 4 && b[0] == 0xdd && (b[1] != 0 || b[2] != 0)
}

// used receivers, as they were before
func used(k kind, which int) packed {
	switch {
	case k.depth == 0:
		return k.of([]int64{[]int64{0, 77, -1}[which%3]})
	case k.depth == 1:
		return k.of([]int64{int64(which), -5})
	}
	return k.of(make([]int64, 2*which))
}

func checkPack(c *engine.Ctx, k kind, v []int64) []byte {
	sig := fmt.Sprintf("%s%v", k.name, v)
	var out []byte
	c.NoPanic(sig, func() {
		p := k.of(v)
		b, err := p.MarshalMsg(nil)
		c.Check(err == nil && len(b) <= p.Msgsize(), sig, "%x, %v, at most %d", b, err, p.Msgsize())
		w, rest, ok := readPacked(b, k.depth)
		c.Check(ok && len(rest) == 0 && fmt.Sprint(w) == fmt.Sprint(v), sig, "written as %x", b)
		pre, err := p.MarshalMsg([]byte("abc"))
		c.Check(err == nil && string(pre) == "abc"+string(b), sig, "appended as %x", pre)
		var buf bytes.Buffer
		err = msgp.Encode(&buf, p)
		c.Check(err == nil && bytes.Equal(buf.Bytes(), b), sig, "EncodeMsg gives %x, %v", buf.Bytes(), err)
		for i := 0; i < 3; i++ {
			q := used(k, i)
			rest, err = q.UnmarshalMsg(append(append([]byte{}, b...), 0xc1, 7))
			c.Check(err == nil && bytes.Equal(rest, []byte{0xc1, 7}) && fmt.Sprint(k.nums(q)) == fmt.Sprint(v), sig, "read as %v, %v leaving %x", k.nums(q), err, rest)
			q = used(k, i)
			err = msgp.Decode(bytes.NewReader(b), q)
			c.Check(err == nil && fmt.Sprint(k.nums(q)) == fmt.Sprint(v), sig, "decoded as %v, %v", k.nums(q), err)
		}
		out = b
	})
	return out
}

func checkUnpack(c *engine.Ctx, k kind, b []byte) {
	if huge(b) {
		return
	}
	sig := fmt.Sprintf("%s<%x>", k.name, b)
	w, left, ok := readPacked(b, k.depth)
	c.NoPanic(sig, func() {
		q := used(k, 1)
		rest, err := q.UnmarshalMsg(append([]byte{}, b...))
		if ok {
			c.Check(err == nil && bytes.Equal(rest, left) && fmt.Sprint(k.nums(q)) == fmt.Sprint(w), sig, "read as %v, %v leaving %x, want %v", k.nums(q), err, rest, w)
		} else {
			c.Check(err != nil, sig, "read as %v, want an error", k.nums(q))
		}
		q = used(k, 2)
		err = msgp.Decode(bytes.NewReader(b), q)
		if ok {
			c.Check(err == nil && fmt.Sprint(k.nums(q)) == fmt.Sprint(w), sig, "decoded as %v, %v, want %v", k.nums(q), err, w)
		} else {
			c.Check(err != nil, sig, "decoded as %v, want an error", k.nums(q))
		}
	})
}

func init() {
	register(&engine.Property{ID: "G01", Level: "model_checking", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			ks := kinds()
			th := tier == "thorough"
			wide := edgesI(200, true)
			few := someI(edgesI(3, false), 4)
			body := []byte{0x00, 0x01, 0x7f, 0x80, 0x91, 0x92, 0xcc, 0xd3, 0xdc, 0xff}
			rows := 2
			if th {
				rows = 3
			}
			return []engine.Harness{
				{Name: "numbers", About: fmt.Sprintf("%d numbers around powers of 2 and 10, written and read back as each of 5 types, into fresh and used values", len(wide)), Body: func(c *engine.Ctx) {
					v := wide[c.Pick(len(wide))]
					checkPack(c, ks[c.Pick(5)], []int64{v})
				}},
				{Name: "range", About: "every number of -70000..70000", Body: func(c *engine.Ctx) {
					k := ks[c.Pick(5)]
					i := int64(c.Pick(1400))
					for v := i*100 - 70000; v < i*100-69900; v++ {
						checkPack(c, k, []int64{v})
					}
				}},
				{Name: "rows", About: fmt.Sprintf("every pair of %d edge numbers as a row, and lists of such rows", len(few)), Body: func(c *engine.Ctx) {
					k := ks[5+c.Pick(4)]
					a, b := few[c.Pick(len(few))], few[c.Pick(len(few))]
					checkPack(c, k, []int64{a, b})
					if k.depth == 2 {
						checkPack(c, k, []int64{b, a, a, b})
					}
				}},
				{Name: "lists", About: fmt.Sprintf("lists of 0..40 and of 65535..65537 rows; every list of up to %d rows of 5 numbers", rows), Body: func(c *engine.Ctx) {
					k := ks[7+c.Pick(2)]
					n := c.Pick(45)
					if n >= 41 {
						if n < 44 {
							checkPack(c, k, make([]int64, 2*(65535+n-41)))
							return
						}
						nums := []int64{0, -1, 300, -70000, 9223372036854775807}
						var v []int64
						for r := c.Pick(rows + 1); r > 0; r-- {
							v = append(v, nums[c.Pick(5)], nums[c.Pick(5)])
						}
						checkPack(c, k, v)
						return
					}
					v := make([]int64, 2*n)
					for i := range v {
						v[i] = int64(i)*int64(i)*int64(i)*1000 - 5000
					}
					checkPack(c, k, v)
				}},
				{Name: "bytes", About: "every string of 1 and 2 bytes, and of 3 with every 8th (thorough: every) last one, read as each of the 9 types", Body: func(c *engine.Ctx) {
					k := ks[c.Pick(len(ks))]
					a := c.Pick(257)
					if a == 256 {
						checkUnpack(c, k, nil)
						return
					}
					checkUnpack(c, k, []byte{byte(a)})
					for b := 0; b < 256; b++ {
						checkUnpack(c, k, []byte{byte(a), byte(b)})
						step := 1
						if !th {
							step = 8
						}
						for x := 0; x < 256; x += step {
							checkUnpack(c, k, []byte{byte(a), byte(b), byte(x)})
						}
					}
				}},
				{Name: "formats", About: "every integer format with every combination of 5 bytes, complete, short and too long", Body: func(c *engine.Ctx) {
					k := ks[c.Pick(5)]
					h := byte(c.Pick(256))
					set := []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
					n := c.Pick(10)
					full := n
					if full > 5 {
						full = 5
					}
					b := make([]byte, n+1)
					b[0] = h
					for i := power(5, full) - 1; i >= 0; i-- {
						x := i
						for j := 1; j <= full; j++ {
							b[j] = set[x%5]
							x /= 5
						}
						for j := full + 1; j <= n; j++ {
							b[j] = b[1]
						}
						checkUnpack(c, k, b)
					}
				}},
				{Name: "structures", About: fmt.Sprintf("every string of up to 5 (thorough 6) of the bytes %x read as rows and lists", body), Body: func(c *engine.Ctx) {
					k := ks[5+c.Pick(4)]
					n := 5
					if th {
						n = 6
					}
					head := []byte{body[c.Pick(len(body))], body[c.Pick(len(body))]}
					for m := 0; m <= n-2; m++ {
						for i := power(len(body), m) - 1; i >= 0; i-- {
							b := append([]byte{}, head...)
							for j, x := 0, i; j < m; j++ {
								b = append(b, body[x%len(body)])
								x /= len(body)
							}
							checkUnpack(c, k, b)
						}
					}
				}},
				faultHarness(ks),
				{Name: "damage", About: "rows and lists cut short everywhere, and with every byte at every place", Body: func(c *engine.Ctx) {
					k := ks[c.Pick(len(ks))]
					v := [][]int64{{1, 2}, {300, -70000}, {9223372036854775807, -9223372036854775808}}[c.Pick(3)]
					if k.depth == 0 {
						v = v[:1]
					}
					if k.depth == 2 && c.Bool() {
						v = append(append([]int64{}, v...), v...)
					}
					b := checkPack(c, k, v)
					for i := range b {
						checkUnpack(c, k, b[:i])
						for x := 0; x < 256; x++ {
							d := append([]byte{}, b...)
							d[i] = byte(x)
							checkUnpack(c, k, d)
						}
					}
				}},
			}
		}})
}

func faultHarness(ks []kind) engine.Harness {
	return engine.Harness{Name: "faults", About: "values of the 9 types written to streams which fail once or for good, at every place, and read from streams which deliver in portions and fail after any number of bytes", Body: func(c *engine.Ctx) {
		k := ks[c.Pick(len(ks))]
		nums := []int64{1, 300, -70000, 1 << 62}
		v := []int64{nums[c.Pick(4)]}
		if k.depth > 0 {
			v = append(v, nums[c.Pick(4)])
		}
		if k.depth == 2 {
			v = append(append(append([]int64{}, v...), v...), v...)[:2*c.Pick(4)]
		}
		sig := fmt.Sprintf("%s%v", k.name, v)
		b, _ := k.of(v).MarshalMsg(nil)
		mp.Write(c, sig, k.of(v), b)
		mp.Read(c, sig, func() msgp.Decodable { return used(k, 1) }, b, func(d msgp.Decodable) bool { return fmt.Sprint(k.nums(d.(packed))) == fmt.Sprint(v) })
	}}
}

func init() {
	register(&engine.Property{ID: "F01", Level: "fault_enumeration", Rule: "every harness ran to the end of its space",
		Harnesses: func(tier string) []engine.Harness {
			n := 18
			if tier == "thorough" {
				n = 70
			}
			ks := kinds()
			return []engine.Harness{
				faultHarness(ks),
				{Name: "tables", About: fmt.Sprintf("tables and slices of 0..%d rows", n), Body: func(c *engine.Ctx) {
					k := ks[7+c.Pick(2)]
					v := make([]int64, 2*c.Pick(n+1))
					for i := range v {
						v[i] = int64(i) * int64(i) * int64(i) * 1000
					}
					sig := fmt.Sprintf("%s %d", k.name, len(v)/2)
					b, _ := k.of(v).MarshalMsg(nil)
					mp.Write(c, sig, k.of(v), b)
					mp.Read(c, sig, func() msgp.Decodable { return used(k, 2) }, b, func(d msgp.Decodable) bool { return fmt.Sprint(k.nums(d.(packed))) == fmt.Sprint(v) })
				}},
				{Name: "addresses", About: "addresses of every kind", Body: func(c *engine.Ctx) {
					a, err := address.Generate("anexbm"[c.Pick(6)], []byte(fmt.Sprint("data of an address", c.Pick(20))))
					c.Check(err == nil, "generate", "%v", err)
					b := append([]byte{0x91, 0xd9, 48}, a.String()...)
					mp.Write(c, "address", a, b)
					mp.Read(c, "address", func() msgp.Decodable { return new(address.Address) }, b, func(d msgp.Decodable) bool { return *d.(*address.Address) == a })
				}},
				{Name: "containers", About: fmt.Sprintf("containers of keys and signatures with 0..%d bytes and algorithm ids", 4*n), Body: func(c *engine.Ctx) {
					id := signature.AlgorithmID([]byte{0, 1, 2, 127, 128, 255}[c.Pick(6)])
					data := bytes.Repeat([]byte{0xa5}, c.Pick(4*n+1))
					b := []byte{0x92, byte(id)}
					if id > 127 {
						b = []byte{0x92, 0xcc, byte(id)}
					}
					mp.Write(c, "id", id, b[1:])
					mp.Read(c, "id", func() msgp.Decodable { return new(signature.AlgorithmID) }, b[1:], func(d msgp.Decodable) bool { return *d.(*signature.AlgorithmID) == id })
					b = append(b, 0xc4, byte(len(data)))
					if len(data) > 255 {
						b = append(b[:len(b)-2], 0xc5, 1, byte(len(data)))
					}
					b = append(b, data...)
					mp.Write(c, "container", &signature.IdentifiedData{Algorithm: id, Data: data}, b)
					mp.Read(c, "container", func() msgp.Decodable { return &signature.IdentifiedData{Algorithm: 3, Data: []byte{1, 2, 3}} }, b, func(d msgp.Decodable) bool {
						y := d.(*signature.IdentifiedData)
						return y.Algorithm == id && bytes.Equal(y.Data, data)
					})
				}},
			}
		}})
}
