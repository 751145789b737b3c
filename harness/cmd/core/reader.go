package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz/dec"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

// anySource is a source of one of all the kinds, seekable ones included; those that say they can
// seek but cannot (pipes) are left out.
func anySource(c *mon.Case, src []byte) source {
	none := func() {}
	sp := spy.Reader{Data: src, R: c.R, Max: []int{0, 0, 1, 5}[c.R.IntN(4)], Early: c.R.IntN(3) == 0, Empty: c.R.IntN(6) == 0, Runaway: 1 << 22}
	switch c.R.IntN(6) {
	case 0:
		return source{"spy.Reader", &sp, none}
	case 1, 2:
		return source{"spy.Seekable", &spy.Seekable{Reader: sp}, none}
	case 3:
		return source{"spy.Rich", &spy.Rich{Reader: sp}, none}
	}
	for {
		if s := concrete(c, src); s.name != "os.Pipe" {
			return s
		} else {
			s.close()
		}
	}
}

// step does one thing with a reader that has the bytes src before it, of which it is to give no
// more than the first span. It tells how many bytes were taken, and whether all went well.
func step(c *mon.Case, dr *dec.DecodingReader, src []byte, depth int) (took int, ok bool, what, wrong string) {
	at, span := dr.Index(), dr.GetBytesSpan()
	want := uint64(c.R.IntN(12))
	switch c.R.IntN(8) {
	case 0:
		want = uint64(c.R.IntN(len(src) + 3))
	case 1:
		want = min(span, uint64(len(src)+1))
	case 2:
		want = min(span, uint64(len(src))) + 1
	}
	var got []byte
	n := -1
	var err error
	op := c.R.IntN(9)
	switch op {
	case 0, 1:
		what = "Read"
		got = bytes.Repeat([]byte{0xA5}, int(want))
		n, err = dr.Read(got)
	case 2:
		what, want = "ReadByte", 1
		var b byte
		b, err = dr.ReadByte()
		got = []byte{b}
	case 3:
		what, want = "ReadUint16", 2
		var b uint16
		b, err = dr.ReadUint16()
		got = binary.LittleEndian.AppendUint16(nil, b)
	case 4:
		what, want = "ReadUint32", 4
		var b uint32
		b, err = dr.ReadUint32()
		got = binary.LittleEndian.AppendUint32(nil, b)
	case 5:
		what, want = "ReadUint64", 8
		var b uint64
		b, err = dr.ReadUint64()
		got = binary.LittleEndian.AppendUint64(nil, b)
	case 6:
		what, want = "ReadOffset", 4
		var b uint64
		b, err = dr.ReadOffset()
		if b >= 1<<32 {
			return 0, false, what, fmt.Sprintf("offset %d", b)
		}
		got = binary.LittleEndian.AppendUint32(nil, uint32(b))
	case 7:
		what = "Skip"
		if c.R.IntN(20) == 0 {
			want = []uint64{1 << 31, 1<<32 - 1, 1 << 40, 1<<63 - 1, 1 << 63, ^uint64(0) - uint64(c.R.IntN(3))}[c.R.IntN(6)]
		}
		n, err = dr.Skip(want)
	case 8:
		what = "Scope"
		in, err := dr.Scope(want)
		switch {
		case want > span && err == nil:
			return 0, false, what, fmt.Sprintf("scope of %d bytes with %d left", want, span)
		case want > span:
			if dr.Index() != at {
				return 0, false, what, fmt.Sprintf("refused scope moves from %d to %d", at, dr.Index())
			}
			return 0, true, what + " refused", ""
		case err != nil:
			return 0, false, what, fmt.Sprintf("scope of %d bytes with %d left: %v", want, span, err)
		case in.Index() != 0 || in.Max() != want || in.GetBytesSpan() != want:
			return 0, false, what, fmt.Sprintf("scope of %d bytes is at %d of %d", want, in.Index(), in.Max())
		}
		ok = true
		for i := c.R.IntN(5); i > 0 && ok && depth < 4; i-- {
			var t int
			var w string
			t, ok, w, wrong = step(c, in, src[took:], depth+1)
			what += " " + w
			took += t
			if wrong != "" {
				return took, ok, what, wrong
			}
		}
		if ok && in.Index() != uint64(took) {
			return took, ok, what, fmt.Sprintf("scope at %d after %d bytes", in.Index(), took)
		}
		if dr.Index() != at {
			return took, ok, what, fmt.Sprintf("outer reader moves from %d to %d with the scope", at, dr.Index())
		}
		dr.UpdateIndexFromScoped(in)
		if ok && dr.Index() != at+uint64(took) {
			return took, ok, what, fmt.Sprintf("at %d after %d bytes from %d", dr.Index(), took, at)
		}
		return took, ok, what, ""
	}
	what = fmt.Sprintf("%s(%d)", what, want)
	c.Count("steps: " + []string{"Read", "Read", "ReadByte", "ReadUint16", "ReadUint32", "ReadUint64", "ReadOffset", "Skip"}[op])
	switch {
	case want > span:
		if err == nil {
			return 0, false, what, fmt.Sprintf("succeeds with %d left in the scope", span)
		}
		if n > 0 || dr.Index() != at {
			return 0, false, what, fmt.Sprintf("beyond the scope (%d left): count %d, moved from %d to %d: %v", span, n, at, dr.Index(), err)
		}
		c.Count("beyond the scope")
		return 0, true, what + " refused", ""
	case want > uint64(len(src)):
		if err == nil {
			return 0, false, what, fmt.Sprintf("succeeds with %d bytes left in the source (count %d)", len(src), n)
		}
		if n > len(src) || n < -1 {
			return 0, false, what, fmt.Sprintf("count %d with %d bytes left in the source: %v", n, len(src), err)
		}
		c.Count("beyond the end of the source")
		if op == 7 {
			c.Count("beyond the end of the source: Skip")
		}
		return 0, false, what, ""
	case err != nil:
		return 0, false, what, fmt.Sprintf("fails with %d bytes left in the scope and %d in the source: %v", span, len(src), err)
	case n >= 0 && uint64(n) != want:
		return 0, false, what, fmt.Sprintf("count %d", n)
	case dr.Index() != at+want:
		return 0, false, what, fmt.Sprintf("moves from %d to %d", at, dr.Index())
	case dr.GetBytesSpan() != span-want:
		return 0, false, what, fmt.Sprintf("%d left of %d", dr.GetBytesSpan(), span)
	case op != 7 && !bytes.Equal(got, src[:want]):
		return 0, false, what, fmt.Sprintf("gives %x, not %x", got, src[:want])
	}
	return int(want), true, what, ""
}

// readers runs readers on their own, over sources of all kinds, against a model of them.
func readers(r *mon.Run) {
	r.Phase("readers on their own", r.N(20000, 400000), "random steps of a reader over sources of all kinds, the source often ending before the steps do", func(c *mon.Case) {
		src := make([]byte, []int{0, 1, 7, 30, 33, 100, 5000}[c.R.IntN(7)]+c.R.IntN(30))
		if c.R.IntN(40) == 0 { // steps of more than 16 bits
			src = make([]byte, 1<<16+c.R.IntN(1<<18))
		}
		gen.FillBytes(c.R, src)
		s := anySource(c, src)
		defer s.close()
		var log []string
		p := sut.Do(func() {
			dr := dec.NewDecodingReader(s.rd)
			if dr.Index() != 0 || dr.Max() != ^uint64(0) || dr.IsFuzzMode() {
				c.Fail("reader", "new reader at %d of %d, fuzz mode %v", dr.Index(), dr.Max(), dr.IsFuzzMode())
				return
			}
			left, all := src, true
			for i := 0; i < 60; i++ {
				took, ok, what, wrong := step(c, dr, left, 0)
				log = append(log, what)
				if wrong != "" {
					c.Fail("reader", "reader over %s of %d bytes, %d left: %s: %s\nsteps %v", s.name, len(src), len(left), what, wrong, log)
					return
				}
				if !ok {
					all = false
					break
				}
				left = left[took:]
			}
			// what is left is still there
			if all {
				rest, err := io.ReadAll(s.rd)
				if err != nil || !bytes.Equal(rest, left) {
					c.Fail("reader", "reader over %s of %d bytes: %d bytes are left after the steps, not %d (%v)\nsteps %v", s.name, len(src), len(rest), len(left), err, log)
				}
			}
		})
		if p != nil {
			c.Fail("panics", "reader over %s of %d bytes: %v\nsteps %v", s.name, len(src), p, log)
		}
		c.Eval(mon.Hash("reader", s.name, fmt.Sprint(log), mon.HashBytes(src)))
		c.Count("sources: " + s.name)
		c.CountN("steps of readers on their own", int64(len(log)))
	})
	r.Need("beyond the end of the source: Skip", 100)
	r.Need("beyond the scope", 500)
}

// ownReaders decodes and dry checks fixed-size types straight from a reader without a scope.
func ownReaders(r *mon.Run, es []*uni.Entry) {
	es = uni.Filter(es, func(e *uni.Entry) bool { return e.N.Fixed() && e.T.Size() < 1<<14 })
	perType(r, "own reader", es, r.N(3, 30), "fixed-size types decoded and dry checked by their definition's own functions from a reader over a source that may end early", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		v := value(c, e, k, budget(c, 40, 300))
		enc := e.N.Encode(v)
		c.Eval(mon.Hash("own reader", e.Name, mon.HashBytes(enc)))
		for _, at := range append(positions(c, len(enc), 12), len(enc)) {
			src := enc[:at]
			for op := opDecode; op <= opDry; op++ {
				s := anySource(c, src)
				dr := dec.NewDecodingReader(s.rd)
				w := reflect.New(e.T)
				var err error
				p := sut.Do(func() {
					if op == opDry {
						err = d.S.DryCheck(dr)
					} else {
						err = d.S.Decode(dr, unsafe.Pointer(w.Pointer()))
					}
				})
				s.close()
				what := fmt.Sprintf("%s: %s of its %d bytes straight from a reader over %s that has %d", e.Name, opNames[op], len(enc), s.name, at)
				switch {
				case p != nil:
					c.Fail("panics", "%s: %v", what, p)
				case at < len(enc) && err == nil:
					c.Fail("passed-as-success", "%s: reported as success\nencoding %s", what, hx(enc))
				case at == len(enc) && err != nil:
					c.Fail("own-reader", "%s: %v\nencoding %s", what, err, hx(enc))
				case at == len(enc) && dr.Index() != uint64(at):
					c.Fail("own-reader", "%s: reader is at %d\nencoding %s", what, dr.Index(), hx(enc))
				case at == len(enc) && op == opDecode && !e.N.Equal(w.Elem(), v):
					c.Fail("own-reader", "%s: gives another value\nencoding %s", what, hx(enc))
				}
				if c.Failed() {
					return
				}
				c.Count("straight from a reader: " + opNames[op])
			}
		}
	})
	r.Need("straight from a reader: dry check", 5000)
}
