package main

import (
	"bytes"
	"crypto/sha256"
	_ "embed"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
	"verif/mc/engine"
)

// wordList is BIP-39's English list, from a copy of it here
var wordList []string
var wordIndex map[string]int

//go:embed bip39.txt
var bip39 string

func loadWords() {
	if wordList == nil {
		wordList = strings.Fields(bip39)
		wordIndex = map[string]int{}
		for i, w := range wordList {
			wordIndex[w] = i
		}
	}
}

func refCRC8(b []byte) int {
	crc := 0
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := int(x>>uint(i)) & 1
			top := crc >> 7 & 1
			crc = crc << 1 & 0xff
			if bit != top {
				crc ^= 0x1D
			}
		}
	}
	return crc
}

// refEncode: the bytes as one big number, followed by the low 4 to 14 bits of
// the crc (zeros above its 8 bits), cut into groups of 11
func refEncode(b []byte) []int {
	n := len(b) * 8
	total := (n + 4 + 10) / 11 * 11
	k := uint(total - n)
	v := new(big.Int).SetBytes(b)
	v.Lsh(v, k)
	v.Or(v, big.NewInt(int64(refCRC8(b)&(1<<k-1))))
	out := make([]int, total/11)
	for i := len(out) - 1; i >= 0; i-- {
		out[i] = int(new(big.Int).And(v, big.NewInt(2047)).Int64())
		v.Rsh(v, 11)
	}
	return out
}

// refDecode gives every byte string which encodes to exactly these words, shortest first
func refDecode(ix []int) [][]byte {
	var out [][]byte
	v := new(big.Int)
	for _, i := range ix {
		v.Lsh(v, 11)
		v.Or(v, big.NewInt(int64(i)))
	}
	total := len(ix) * 11
	for n := 0; n*8 <= total; n++ {
		if (n*8+4+10)/11*11 != total {
			continue
		}
		x := new(big.Int).Rsh(v, uint(total-n*8))
		b := x.FillBytes(make([]byte, n))
		if fmt.Sprint(refEncode(b)) == fmt.Sprint(ix) {
			out = append(out, b)
		}
	}
	return out
}

func toWords(ix []int) []string {
	s := make([]string, len(ix))
	for i, x := range ix {
		s[i] = wordList[x]
	}
	return s
}

// checkDecode compares ToBytes on a list of word indices with the reference
func checkDecode(c *engine.Ctx, ix []int) {
	ws := toWords(ix)
	keep := append([]string{}, ws...)
	roomy := append(append([]string{}, ws...), "next", "words")
	ws = roomy[:len(ws)]
	want := refDecode(ix)
	c.NoPanic("panic", func() {
		got, err := words.ToBytes("en", ws)
		if len(want) == 0 {
			if err == nil {
				c.Fail("unsound", "ToBytes accepted %d words %v as %x, which has another encoding: %v", len(ws), ws, got, toWords(refEncode(got)))
			}
			c.Check(got == nil, "unsound", "ToBytes failed and returned bytes")
			return
		}
		if err != nil {
			c.Fail("refused", "ToBytes(%v): %v; it encodes %x", ws, err, want[0])
		}
		c.Check(bytes.Equal(got, want[0]), "value", "ToBytes(%v)=%x, want %x", ws, got, want[0])
		c.Check(fmt.Sprint(ws) == fmt.Sprint(keep), "input", "ToBytes changed its argument")
		c.Check(roomy[len(ws)] == "next" && roomy[len(ws)+1] == "words", "input", "ToBytes wrote behind its argument")
	})
}

// checkRound encodes and decodes
func checkRound(c *engine.Ctx, b []byte) []int {
	keep := append([]byte{}, b...)
	want := refEncode(b)
	c.NoPanic("panic", func() {
		b := spare(b)
		ws, err := words.FromBytes("en", b)
		c.Check(err == nil, "encode", "FromBytes(%x): %v", b, err)
		c.Check(intact(b), "input", "FromBytes wrote behind its argument")
		c.Check(fmt.Sprint(ws) == fmt.Sprint(toWords(want)), "encode", "FromBytes(%x)=%v, want %v", b, ws, toWords(want))
		c.Check(bytes.Equal(b, keep), "input", "FromBytes changed its argument")
		again := append([]string{}, ws...)
		back, err := words.ToBytes("en", ws)
		c.Check(fmt.Sprint(ws) == fmt.Sprint(again), "input", "ToBytes changed its argument")
		c.Check(err == nil, "decode", "ToBytes(FromBytes(%x)): %v", b, err)
		if alts := refDecode(want); len(alts) > 1 {
			// the format is ambiguous here: two byte strings have these very words (see
			// "ambiguous"); the shorter one must come out
			c.Check(bytes.Equal(back, alts[0]), "decode", "ToBytes(FromBytes(%x))=%x; candidates %x", b, back, alts)
			return
		}
		c.Check(bytes.Equal(back, b), "decode", "ToBytes(FromBytes(%x))=%x", b, back)
	})
	c.State(string(b))
	return want
}

func init() {
	register(&engine.Property{ID: "W01", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		loadWords()
		maxLen := 48
		if tier == "thorough" {
			maxLen = 200
		}
		return []engine.Harness{
			{Name: "wordlist", About: "the list is BIP-39's: 2048 words, sorted, distinct, by hash", Body: func(c *engine.Ctx) {
				c.Check(len(wordList) == 2048, "list", "%d words", len(wordList))
				h := sha256.Sum256([]byte(strings.Join(wordList, "\n") + "\n"))
				c.Check(fmt.Sprintf("%x", h) == "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", "list", "the list hashes to %x, BIP-39's does not", h)
				for i := 1; i < len(wordList); i++ {
					c.Check(wordList[i-1] < wordList[i], "list", "%q %q", wordList[i-1], wordList[i])
				}
				// the code's own list, one word at a time: 11 bits of data, and 5 for the checksum
				for i := range wordList {
					b := []byte{byte(i >> 3), byte(i<<5) | 1}
					ws, err := words.FromBytes("en", b)
					c.Check(err == nil && len(ws) == 2 && ws[0] == wordList[i], "list", "word %d is %q, not %q (%v)", i, ws, wordList[i], err)
				}
			}},
			{Name: "short", About: "every byte string of length 0, 1, 2, and of length 3 over edge bytes", Body: func(c *engine.Ctx) {
				n := c.Pick(4)
				b := make([]byte, n)
				e := []byte{0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 170, 192, 200, 240, 254, 255}
				for i := range b {
					if n < 3 {
						b[i] = byte(c.Pick(256))
					} else {
						b[i] = e[c.Pick(len(e))]
					}
				}
				c.Logf("%x", b)
				checkRound(c, b)
			}},
			{Name: "lengths", About: fmt.Sprintf("every length 0..%d, each byte in turn taking every value, over 3 backgrounds", maxLen), Body: func(c *engine.Ctx) {
				n := c.Pick(maxLen + 1)
				b := testData(n, c.Pick(3))
				if n > 0 {
					pos := c.Pick(n)
					if tier != "thorough" && n > 16 && n < 32 && pos > 2 && pos < n-3 {
						c.Stop()
					}
					v := byte(c.Pick(256))
					b[pos] = v
				}
				c.Logf("%x", b)
				checkRound(c, b)
			}},
			{Name: "sizes", About: "lengths within 3 of every power of two, and of one and a half of it, to 4099, and every length to 520, in 8 fills", Body: func(c *engine.Ctx) {
				l := bigSizes(9, 12)
				i := c.Pick(520 + len(l))
				n := i
				if i >= 520 {
					n = l[i-520]
				}
				checkRound(c, testData(n, c.Pick(8)))
			}},
			{Name: "tails", About: "16-byte seeds: every value of the last two bytes over backgrounds (every place where the two lengths of a 12-word list could be confused)", Body: func(c *engine.Ctx) {
				n := 16
				if c.Bool() {
					n = 32
				}
				b := testData(n, c.Pick(4))
				b[n-2], b[n-1] = byte(c.Pick(256)), byte(c.Pick(256))
				checkRound(c, b)
			}},
			{Name: "ambiguous", About: "seeds whose word list is also that of a shorter byte string", Body: func(c *engine.Ctx) {
				// (found by the harness "tails"; these three are kept by value)
				in := [][]byte{make([]byte, 16), make([]byte, 24)}
				s := testData(16, 2)
				s[15] = byte(refCRC8(s[:15]) >> 4)
				for i := 0; i < 256 && len(refDecode(refEncode(s))) < 2; i++ {
					s[0] = byte(i)
					s[15] = byte(refCRC8(s[:15]) >> 4)
				}
				in = append(in, s)
				b := in[c.Pick(len(in))]
				ws, err := words.FromBytes("en", b)
				c.Check(err == nil, "encode", "%v", err)
				back, err := words.ToBytes("en", ws)
				c.Check(err == nil && bytes.Equal(back, b), fmt.Sprintf("ambiguous:%x", b), "ToBytes(FromBytes(%x)) = %x: the words stand for two byte strings", b, back)
			}},
			{Name: "language", About: "unknown languages are refused by every function", Body: func(c *engine.Ctx) {
				l := []string{"", "EN", "e", "en ", "fr", "english", "en\x00"}[c.Pick(7)]
				_, err := words.FromBytes(l, []byte{1, 2, 3})
				c.Check(err != nil, "language", "FromBytes accepted %q", l)
				_, err = words.ToBytes(l, []string{"abandon", "amount", "mom"})
				c.Check(err != nil, "language", "ToBytes accepted %q", l)
				c.Check(words.FromPrefix(l, "a", 0) == "", "language", "FromPrefix accepted %q", l)
			}},
		}
	}})
	register(&engine.Property{ID: "W02", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		loadWords()
		edge := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 1535, 1536, 1791, 2040, 2046, 2047}
		return []engine.Harness{
			{Name: "all-short", About: "every list of 0, 1 and 2 words (4.2 million): accepted exactly when some bytes encode to it", Body: func(c *engine.Ctx) {
				n := c.Pick(3)
				ix := make([]int, n)
				for i := range ix {
					ix[i] = c.Pick(2048)
				}
				checkDecode(c, ix)
			}},
			{Name: "counts", About: "every word count 0..40: constant lists of every word, and lists ending in every word", Body: func(c *engine.Ctx) {
				n := c.Pick(41)
				w := c.Pick(2048)
				ix := make([]int, n)
				mode := c.Pick(3)
				for i := range ix {
					switch mode {
					case 0:
						ix[i] = w
					case 1:
						ix[i] = (i * 331) & 2047
					case 2:
						ix[i] = 2047
					}
				}
				if n > 0 {
					ix[n-1] = w
				}
				c.Logf("%v", ix)
				checkDecode(c, ix)
				c.State(fmt.Sprint(ix))
			}},
			{Name: "corrupt", About: "encodings of 1..33 bytes with one word replaced by each other word", Body: func(c *engine.Ctx) {
				n := 1 + c.Pick(33)
				if tier != "thorough" && n > 17 && n < 32 {
					c.Stop()
				}
				ix := refEncode(testData(n, 3))
				pos := c.Pick(len(ix))
				ix[pos] = c.Pick(2048)
				checkDecode(c, ix)
				c.State(fmt.Sprint(ix))
			}},
			{Name: "reorder", About: "encodings with two words swapped, one dropped, one doubled, the list reversed", Body: func(c *engine.Ctx) {
				n := 1 + c.Pick(40)
				ix := refEncode(testData(n, 1+c.Pick(5)))
				i, j := c.Pick(len(ix)), c.Pick(len(ix))
				switch c.Pick(4) {
				case 0:
					ix[i], ix[j] = ix[j], ix[i]
				case 1:
					ix = append(ix[:i], ix[i+1:]...)
				case 2:
					ix = append(ix[:i+1], ix[i:]...)
				case 3:
					for a, b := 0, len(ix)-1; a < b; a, b = a+1, b-1 {
						ix[a], ix[b] = ix[b], ix[a]
					}
				}
				checkDecode(c, ix)
				c.State(fmt.Sprint(ix))
			}},
			{Name: "long", About: "lists of 41 to 380 words, and about 2000, encodings and not: a word of another place changed, one dropped, one doubled, two swapped", Body: func(c *engine.Ctx) {
				n := c.Pick(480) + 41
				if n > 512 {
					n = 2500 + n
				}
				ix := refEncode(testData(n, 2+c.Pick(3)))
				p := []int{0, 1, len(ix) / 2, len(ix) - 2, len(ix) - 1}[c.Pick(5)]
				switch c.Pick(6) {
				case 0:
				case 1:
					ix[p] ^= 1
				case 2:
					ix[p] ^= 1024
				case 3:
					ix = append(ix[:p], ix[p+1:]...)
				case 4:
					ix = append(ix[:p+1], ix[p:]...)
				case 5:
					ix[p], ix[0] = ix[0], ix[p]
				}
				checkDecode(c, ix)
			}},
			{Name: "triples", About: "every list of 3 words over edge words, and of 4 in thorough", Body: func(c *engine.Ctx) {
				n := 3
				if tier == "thorough" {
					n = 3 + c.Pick(2)
				}
				ix := make([]int, n)
				for i := range ix {
					ix[i] = edge[c.Pick(len(edge))]
				}
				checkDecode(c, ix)
				c.State(fmt.Sprint(ix))
			}},
			{Name: "not-words", About: "every word with a letter changed, dropped or added, and other non-words, at every place of a valid list", Body: func(c *engine.Ctx) {
				ws := toWords(refEncode(testData(16, 2)))
				pos := c.Pick(len(ws))
				w := wordList[c.Pick(2048)]
				var bad string
				switch c.Pick(8) {
				case 0:
					bad = w[:len(w)-1]
				case 1:
					bad = w + "a"
				case 2:
					bad = w[1:]
				case 3:
					bad = " " + w
				case 4:
					bad = w + " "
				case 5:
					bad = w + "\x00"
				case 6:
					bad = ""
				case 7:
					bad = w[:1] + "\xff" + w[1:]
				}
				if _, ok := wordIndex[bad]; ok {
					c.Stop()
				}
				ws[pos] = bad
				c.Logf("%q", ws)
				c.NoPanic("panic", func() {
					b, err := words.ToBytes("en", ws)
					c.Check(err != nil && b == nil, "nonword", "ToBytes accepted the non-word %q: %x", bad, b)
				})
			}},
		}
	}})
	register(&engine.Property{ID: "W03", Level: "model_checking", Harnesses: func(tier string) []engine.Harness {
		loadWords()
		return []engine.Harness{
			{Name: "prefixes", About: "every prefix of every word, the word extended, every string of up to 2 bytes; every limit from -1 to 12 and beyond", Body: func(c *engine.Ctx) {
				var p string
				switch c.Pick(3) {
				case 0:
					w := wordList[c.Pick(2048)]
					p = (w + "z")[:c.Pick(len(w)+2)]
				case 1:
					p = string([]byte{byte(c.Pick(256))})
				case 2:
					p = string([]byte{byte(c.Pick(256)), byte(c.Pick(256))})
				}
				limits := []int{-1, 0, 1, 2, 3, 5, 12, 2047, 2048, 2049, math.MaxInt, math.MinInt}
				max := limits[c.Pick(len(limits))]
				var want []string
				for _, w := range wordList {
					if strings.HasPrefix(w, p) {
						want = append(want, w)
					}
				}
				if max > 0 && len(want) > max {
					want = want[:max]
				}
				c.Logf("%q %d", p, max)
				c.NoPanic("panic", func() {
					got := words.FromPrefix("en", p, max)
					c.Check(got == strings.Join(want, " "), "prefix", "FromPrefix(%q, %d)=%q, want %q", p, max, got, strings.Join(want, " "))
				})
				c.State(p)
			}},
		}
	}})
}
