// Package mp injects faults into message pack streams: readers which deliver
// in portions and fail, writers which fail for once or for good.
package mp

import (
	"bytes"
	"errors"
	"io"

	"github.com/tinylib/msgp/msgp"
	"verif/mc/engine"
)

var errFault = errors.New("fault")

type writer struct {
	got     []byte
	n       int // writes so far
	failAt  int
	forever bool
	part    int // bytes accepted by the failing write
}

func (w *writer) Write(p []byte) (int, error) {
	w.n++
	if w.n-1 == w.failAt || w.forever && w.n-1 > w.failAt {
		k := w.part
		if k > len(p) {
			k = len(p)
		}
		w.got = append(w.got, p[:k]...)
		return k, errFault
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// Write writes a value after 0..18 bytes with the smallest buffer there is, so that the buffer is written out
// at every place of the value, to a writer which fails in its first, second or a later turn, once or for good,
// or never.  Written without an error it must be written completely.
func Write(c *engine.Ctx, sig string, e msgp.Encodable, want []byte) {
	for pre := 0; pre <= 18; pre++ {
		for mode := 0; mode < 9; mode++ {
			w := &writer{failAt: mode / 2, forever: mode%2 == 1, part: pre % 3}
			if mode == 8 {
				w.failAt = -1
			}
			mw := msgp.NewWriterSize(w, 18)
			if pre > 0 {
				if err := mw.Append(bytes.Repeat([]byte{'x'}, pre)...); err != nil {
					continue
				}
			}
			var err error
			c.NoPanic(sig, func() { err = e.EncodeMsg(mw) })
			if err == nil {
				err = mw.Flush()
			}
			c.Step()
			full := append(bytes.Repeat([]byte{'x'}, pre), want...)
			if err == nil && !bytes.Equal(w.got, full) {
				c.Fail(sig, "written without an error as %x instead of %x; write %d failed (for good: %v)", w.got, full, w.failAt, w.forever)
				return
			}
			if err != nil && (w.failAt < 0 || w.n <= w.failAt) {
				c.Fail(sig, "error %v though nothing failed", err)
				return
			}
		}
	}
}

type reader struct {
	b     []byte
	chunk int
	at    int // fails after so many bytes, -1: ends at the end
	with  bool
	pos   int
}

func (r *reader) Read(p []byte) (int, error) {
	end := len(r.b)
	if r.at >= 0 && r.at < end {
		end = r.at
	}
	n := r.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (n == 0 || r.with) {
		if r.at >= 0 {
			return n, errFault
		}
		return n, io.EOF
	}
	return n, nil
}

// Read reads a value which was written as b in portions of several sizes, from readers which fail after any number
// of bytes, alone or with the last ones.  It is the value, or an error if not all bytes came.
func Read(c *engine.Ctx, sig string, fresh func() msgp.Decodable, b []byte, same func(msgp.Decodable) bool) {
	for _, chunk := range []int{1, 2, 3, 5, 8, 1 << 20} {
		for at := -1; at <= len(b); at++ {
			for with := 0; with < 2; with++ {
				q := fresh()
				var err error
				c.NoPanic(sig, func() {
					err = q.DecodeMsg(msgp.NewReaderSize(&reader{b: b, chunk: chunk, at: at, with: with == 1}, 18))
				})
				c.Step()
				// a failure together with the last byte may be reported or not
				whole := at < 0 || at == len(b)
				if whole && (err != nil && at < 0 || err == nil && !same(q)) {
					c.Fail(sig, "%x read in portions of %d gives %v, %v", b, chunk, q, err)
					return
				}
				if !whole && err == nil {
					c.Fail(sig, "%d of %x's bytes read in portions of %d give %v", at, b, chunk, q)
					return
				}
			}
		}
	}
}
