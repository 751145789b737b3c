package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime/debug"

	"verif/harness/mon"
	"verif/harness/sut"
)

// Values of gigabytes: sizes and counts beyond 31 and 32 bits, nearly all of their bytes zero.

type giantBytes []byte

func (giantBytes) Limit() uint64 { return 1 << 34 }

type giant struct {
	A uint8
	B giantBytes
	C uint16
}

type giant2 struct {
	giant
	D giantBytes
}

// sparse is the encoding of a giant or giant2 with the given bytes in it
type sparse struct {
	n    uint64 // of B
	at   map[uint64]byte
	head []byte
	tail []byte // of giant2: D
}

func makeSparse(r *rand.Rand, n uint64, two bool) *sparse {
	s := &sparse{n: n, at: map[uint64]byte{}}
	for i := 0; i < 12; i++ {
		x := r.Uint64N(n)
		switch i {
		case 0:
			x = n - 1
		case 1:
			x = 0
		case 2:
			x = n - 1 - r.Uint64N(600)
		case 3:
			x = 1<<31 - 1
		}
		s.at[x] = byte(1 + r.IntN(255))
	}
	s.head = make([]byte, 7, 11)
	s.head[0] = byte(r.IntN(256))
	binary.LittleEndian.PutUint32(s.head[1:], 7)
	binary.LittleEndian.PutUint16(s.head[5:], uint16(r.IntN(1<<16)))
	if two {
		binary.LittleEndian.PutUint32(s.head[1:], 11)
		s.head = binary.LittleEndian.AppendUint32(s.head, uint32(11+n))
		s.tail = make([]byte, r.IntN(20))
		for i := range s.tail {
			s.tail[i] = byte(r.IntN(256))
		}
	}
	return s
}

func (s *sparse) len() uint64 { return uint64(len(s.head)) + s.n + uint64(len(s.tail)) }

// fill gives the bytes from a position
func (s *sparse) fill(p []byte, pos uint64) {
	clear(p)
	put := func(x uint64, b byte) {
		if x >= pos && x-pos < uint64(len(p)) {
			p[x-pos] = b
		}
	}
	h := uint64(len(s.head))
	for i, b := range s.head {
		put(uint64(i), b)
	}
	for x, b := range s.at {
		put(h+x, b)
	}
	for i, b := range s.tail {
		put(h+s.n+uint64(i), b)
	}
}

// source delivers the first bytes of the encoding
type giantSource struct {
	s        *sparse
	pos, end uint64
}

func (g *giantSource) Read(p []byte) (int, error) {
	if g.pos == g.end {
		return 0, io.EOF
	}
	p = p[:min(uint64(len(p)), g.end-g.pos)]
	g.s.fill(p, g.pos)
	g.pos += uint64(len(p))
	return len(p), nil
}

// giantSink compares what it gets with the encoding
type giantSink struct {
	s     *sparse
	pos   uint64
	fail  uint64 // position from which writing fails, if not 0
	bad   bool
	blind bool // only counts
	buf   [1 << 16]byte
}

var errGiant = errors.New("this is enough")

func (g *giantSink) Write(p []byte) (int, error) {
	var err error
	n := len(p)
	if g.fail != 0 && g.pos+uint64(n) > g.fail {
		n, err = int(g.fail-g.pos), errGiant
	}
	for i := 0; i < n && !g.blind; i += len(g.buf) {
		b := g.buf[:min(n-i, len(g.buf))]
		g.s.fill(b, g.pos+uint64(i))
		if !bytes.Equal(b, p[i:i+len(b)]) {
			g.bad = true
		}
	}
	g.pos += uint64(n)
	return n, err
}

func giantDef(c *mon.Case, x any) *sut.Def {
	d, err, p := sut.Get(reflect.TypeOf(x))
	if err != nil || p != nil {
		c.Fail("construct", "%T: %v %v", x, err, p)
		return nil
	}
	return d
}

func (s *sparse) note(c *mon.Case) {
	c.Eval(mon.Hash("giant", s.n, s.head, len(s.at)))
	c.CountMax("longest encoding, bytes", int64(s.len()))
}

// giantRoundTrip: decoded and encoded again
func giantRoundTrip(r *mon.Run) {
	if r.Config != "plain" {
		return
	}
	r.Serial("gigabytes", 1, "a value of more than 2 GiB decoded and encoded again", func(c *mon.Case) {
		d := giantDef(c, giant2{})
		if d == nil {
			return
		}
		defer debug.FreeOSMemory()
		s := makeSparse(c.R, 1<<31+c.R.Uint64N(1<<20), true)
		s.note(c)
		var v giant2
		if err, p := sut.DecodeFrom(&giantSource{s, 0, s.len()}, s.len(), &v, d.S); err != nil || p != nil {
			c.Fail("decode-fails", "decoding a value with a list of %d bytes: %v %v", s.n, err, p)
			return
		}
		if v.A != s.head[0] || v.C != binary.LittleEndian.Uint16(s.head[5:]) || uint64(len(v.B)) != s.n || !bytes.Equal(v.D, s.tail) {
			c.Fail("not-equal", "decoded a value with a list of %d bytes as %d %d, a list of %d bytes", s.n, v.A, v.C, len(v.B))
			return
		}
		w := &giantSink{s: s}
		n, err, p := sut.EncodeTo(w, &v, d.S)
		if err != nil || p != nil || uint64(n) != s.len() || w.pos != s.len() || w.bad {
			c.Fail("reencode", "encoding a decoded value of %d bytes: count %d, %d bytes written, others than before: %v, %v %v", s.len(), n, w.pos, w.bad, err, p)
		}
	})
}

// giantDry: dry checks of complete and truncated encodings
func giantDry(r *mon.Run) {
	if r.Config != "plain" {
		return
	}
	r.Serial("gigabytes", 3, "dry checks of encodings of more than 2 and 4 GiB, complete and not", func(c *mon.Case) {
		d, n := giantDef(c, giant2{}), 1<<31+c.R.Uint64N(1<<20)
		switch c.Idx {
		case 1: // the largest offsets there are
			n = 1<<32 - 1 - 11 - c.R.Uint64N(2)*c.R.Uint64N(100)
		case 2:
			d, n = giantDef(c, giant{}), 1<<32+c.R.Uint64N(1<<20)
		}
		if d == nil {
			return
		}
		s := makeSparse(c.R, n, c.Idx < 2)
		s.note(c)
		if err, p := sut.DryFrom(&giantSource{s, 0, s.len()}, s.len(), d.S); err != nil || p != nil {
			c.Fail("dry-rejects", "dry check of a value with a list of %d bytes: %v %v", s.n, err, p)
			return
		}
		short := s.len() - 1 - c.R.Uint64N(1000)
		if err, p := sut.DryFrom(&giantSource{s, 0, short}, s.len(), d.S); err == nil || p != nil {
			c.Fail("dry-accepts", "dry check of %d of %d bytes: %v %v", short, s.len(), err, p)
			return
		}
		if c.Idx < 2 { // an offset that is off
			o := binary.LittleEndian.Uint32(s.head[7:])
			o ^= 1 << []int{0, 1, 30, 31, 31}[c.R.IntN(5)]
			binary.LittleEndian.PutUint32(s.head[7:], o)
			// byte lists of other lengths: right as long as it lies within
			if err, p := sut.DryFrom(&giantSource{s, 0, s.len()}, s.len(), d.S); p != nil || (err == nil) != (uint64(o) >= 11 && uint64(o) <= s.len()) {
				c.Fail("dry-offset", "dry check of %d bytes with a last offset of %d: %v %v", s.len(), o, err, p)
			}
		}
	})
}

// giantWrites: sizes and counts
func giantWrites(r *mon.Run) {
	if r.Config != "plain" {
		return
	}
	r.Serial("gigabytes", 4, "sizes and counts beyond 2 and 4 GiB, also of writers that fail there", func(c *mon.Case) {
		defer debug.FreeOSMemory()
		n := uint64(1)<<(31+c.Idx%2) + c.R.Uint64N(1000)
		var d *sut.Def
		var v any
		want := n
		if c.Idx < 2 {
			b := make(giantBytes, n)
			d, v = giantDef(c, b), &b
		} else { // in a container, the last one
			d, v = giantDef(c, giant{}), &giant{B: make(giantBytes, n)}
			want = n + 7
		}
		if d == nil {
			return
		}
		c.Eval(mon.Hash("giant", want))
		c.CountMax("longest encoding, bytes", int64(want))
		if got, p := sut.SizeOf(v, d.S); p != nil || got != want {
			c.Fail("size", "%T of %d bytes: size %d %v", v, want, got, p)
		}
		w := &giantSink{blind: true}
		if got, err, p := sut.EncodeTo(w, v, d.S); err != nil || p != nil || uint64(got) != want || w.pos != want {
			c.Fail("count", "%T of %d bytes: count %d, %d bytes written, %v %v", v, want, got, w.pos, err, p)
		}
		w = &giantSink{blind: true, fail: want - 1 - c.R.Uint64N(900)}
		if got, err, p := sut.EncodeTo(w, v, d.S); err != errGiant || p != nil || uint64(got) != w.fail || w.pos != w.fail {
			c.Fail("count", "%T of %d bytes to a writer that takes %d: count %d, %d bytes written, %v %v", v, want, w.fail, got, w.pos, err, p)
		}
	})
}
