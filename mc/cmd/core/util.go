package main

import (
	"sort"
	"strings"
	"sync"
	"unicode"
)

func sortStrings(s []string) { sort.Strings(s) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func newMemo() *sync.Map { return new(sync.Map) }

// spare is the bytes in a slice with room behind them: an append to it by the code
// under test writes into that room, which belongs to someone else
func spare(b []byte) []byte {
	buf := make([]byte, len(b)+80)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xC3
	}
	return buf[:len(b)]
}

// intact tells whether the room behind a slice made by spare is as it was
func intact(b []byte) bool {
	for _, x := range b[len(b):cap(b)] {
		if x != 0xC3 {
			return false
		}
	}
	return cap(b) == len(b)+80
}

// foreignRunes is every character outside ASCII which some letter-case function makes one of ASCII,
// and a few others: full width letters, combining ones, the replacement character
var foreignRunes = sync.OnceValue(func() (l []rune) {
	for r := rune(0x80); r <= unicode.MaxRune; r++ {
		a := []rune{unicode.ToLower(r), unicode.ToUpper(r), unicode.ToTitle(r)}
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			a = append(a, f)
		}
		a = append(a, []rune(strings.ToLower(string(r)))...)
		for _, x := range a {
			if x < 0x80 {
				l = append(l, r)
				break
			}
		}
	}
	return append(l, 0x80, 0xff41, 0xff21, 0xff12, 0x301, 0x200d, 0xfeff, 0xfffd, 0x1d41a, 0x661)
})
