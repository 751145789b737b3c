package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"sort"
	"unsafe"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() { props["C32"] = c32 }

const (
	obey   = iota // takes exactly its bytes, and tries to get more at the end
	short         // one part takes fewer
	greedy        // one part takes, or tries to take, more
	skip          // takes its bytes by skipping some of them (dry checks only)
)

// script is what the probed parts of a value do during one operation, and what they saw.
type script struct {
	r      *rand.Rand
	mode   int
	target int // which of the parts misbehaves
	seen   int
	parts  [][]byte
	wrong  string
	did    bool // the misbehaviour took place
	fuzz   bool
	counts map[string]int
}

func (s *script) bad(f string, a ...any) {
	if s.wrong == "" {
		s.wrong = fmt.Sprintf(f, a...)
	}
}

type probe struct {
	types.SSZ
	s **script
}

// probeC is a probe of a container, which may have to be squashed.
type probeC struct {
	probe
	sq types.SquashableFields
}

func (p probeC) SquashFields() []types.ContainerField { return p.sq.SquashFields() }

// errGreedy is how a part ends that got an error when it tried to take more.
type errGreedy struct{ err error }

func (e errGreedy) Error() string { return e.err.Error() }

// over tries to take more than there is, in one of the ways there are.
func (s *script) over(dr *dec.DecodingReader) error {
	span, at := dr.GetBytesSpan(), dr.Index()
	more := span + 1 + uint64(s.r.IntN(9))
	buf := bytes.Repeat([]byte{0xA5}, int(more))
	huge := ^uint64(0) - uint64(s.r.IntN(40))
	var err error
	n := 0
	what := ""
	k := s.r.IntN(12)
	if (k == 2 && span >= 1) || (k == 3 && span >= 2) || ((k == 4 || k == 11) && span >= 4) || (k == 5 && span >= 8) {
		k = 0
	}
	switch k {
	case 0:
		what = "Read"
		n, err = dr.Read(buf)
	case 1:
		what = "io.ReadFull"
		n, err = io.ReadFull(dr, buf)
	case 2:
		what = "ReadByte"
		_, err = dr.ReadByte()
	case 3:
		what = "ReadUint16"
		_, err = dr.ReadUint16()
	case 4:
		what = "ReadUint32"
		_, err = dr.ReadUint32()
	case 5:
		what = "ReadUint64"
		_, err = dr.ReadUint64()
	case 6:
		what = "Skip"
		n, err = dr.Skip(more)
	case 7:
		what, more = "Skip", huge
		n, err = dr.Skip(more)
	case 8:
		what = "Scope"
		_, err = dr.Scope(more)
	case 9:
		what, more = "Scope", huge
		_, err = dr.Scope(more)
	case 10:
		what, more = "Skip", uint64(1)<<63+uint64(s.r.IntN(2))-1
		n, err = dr.Skip(more)
	case 11:
		what = "ReadOffset"
		_, err = dr.ReadOffset()
	}
	s.counts["tried to take more: "+what]++
	switch {
	case err == nil:
		s.bad("%s of %d bytes succeeds with %d bytes left (at %d)", what, more, span, at)
	case n < 0 || uint64(n) > span:
		s.bad("%s of %d bytes fails, but reports %d taken with %d bytes left (at %d)", what, more, n, span, at)
	case span == 0 && (dr.Index() != at || !bytes.Equal(buf, bytes.Repeat([]byte{0xA5}, len(buf)))):
		s.bad("%s of %d bytes with nothing left moves from %d to %d, buffer %.40x", what, more, at, dr.Index(), buf)
	case dr.Index() > at+span:
		s.bad("%s of %d bytes fails, but moves from %d to %d", what, more, at, dr.Index())
	}
	return err
}

// read takes n bytes in a mixture of ways.
func (s *script) read(dr *dec.DecodingReader, n uint64, depth int) (out []byte, err error) {
	start, span := dr.Index(), dr.GetBytesSpan()
	for uint64(len(out)) < n && s.wrong == "" {
		left := n - uint64(len(out))
		k := 1 + s.r.Uint64N(left)
		if s.r.IntN(3) == 0 {
			k = min(left, 1+s.r.Uint64N(9))
		}
		b := make([]byte, k)
		how := ""
		m := int(k)
		switch x := s.r.IntN(11); {
		case x == 0:
			how = "Read of nothing"
			m, err = dr.Read(nil)
			b, k = nil, 0
		case x == 1:
			how = "ReadByte"
			k, m, b = 1, 1, b[:1]
			b[0], err = dr.ReadByte()
		case x == 2 && left >= 2:
			how = "ReadUint16"
			var v uint16
			v, err = dr.ReadUint16()
			k, m, b = 2, 2, binary.LittleEndian.AppendUint16(nil, v)
		case x == 3 && left >= 4:
			how = "ReadUint32"
			var v uint32
			v, err = dr.ReadUint32()
			k, m, b = 4, 4, binary.LittleEndian.AppendUint32(nil, v)
		case x == 4 && left >= 8:
			how = "ReadUint64"
			var v uint64
			v, err = dr.ReadUint64()
			k, m, b = 8, 8, binary.LittleEndian.AppendUint64(nil, v)
		case x == 5 && left >= 4:
			how = "ReadOffset"
			var v uint64
			v, err = dr.ReadOffset()
			if v>>32 != 0 {
				s.bad("ReadOffset gives %x", v)
			}
			k, m, b = 4, 4, binary.LittleEndian.AppendUint32(nil, uint32(v))
		case x == 6 && depth > 0:
			how = "Scope"
			var sc *dec.DecodingReader
			sc, err = dr.Scope(k)
			if err != nil {
				break
			}
			if sc.GetBytesSpan() != k || sc.Index() != 0 || sc.Max() != k {
				s.bad("a scope of %d bytes has a span of %d, an index of %d and a maximum of %d", k, sc.GetBytesSpan(), sc.Index(), sc.Max())
				return
			}
			if s.r.IntN(4) == 0 { // not all of it
				k = s.r.Uint64N(k + 1)
			}
			b, err = s.read(sc, k, depth-1)
			if err == nil && k == sc.Max() && s.r.IntN(2) == 0 {
				s.over(sc)
			}
			dr.UpdateIndexFromScoped(sc)
			m = int(k)
		case x == 7 && s.mode == skip:
			how = "Skip"
			m, err = dr.Skip(k)
			b = nil
			out = append(out, make([]byte, k)...)
		case x == 8:
			how = "io.ReadFull"
			m, err = io.ReadFull(dr, b)
		default:
			how = "Read"
			m, err = dr.Read(b)
		}
		if s.wrong != "" {
			return
		}
		out = append(out, b...)
		s.counts["taken by "+how]++
		if err != nil {
			s.bad("%s of %d bytes fails with %d bytes left: %v", how, k, span-(uint64(len(out))-k), err)
			return
		}
		if uint64(m) != k || dr.Index() != start+uint64(len(out)) || dr.GetBytesSpan() != span-uint64(len(out)) {
			s.bad("%s of %d bytes reports %d; index %d, span %d after %d bytes from %d with %d", how, k, m, dr.Index(), dr.GetBytesSpan(), len(out), start, span)
			return
		}
	}
	return
}

// take is what a part does with its reader.
func (p probe) take(dr *dec.DecodingReader) (in *dec.DecodingReader, l uint64, err error) {
	s := *p.s
	me := s.seen
	s.seen++
	if dr.IsFuzzMode() != s.fuzz {
		s.bad("a part gets a reader whose fuzz mode is %v", dr.IsFuzzMode())
	}
	l = dr.GetBytesSpan()
	fixed := p.SSZ.IsFixed()
	if fixed {
		if l < p.SSZ.FixedLen() {
			if !s.did {
				s.bad("a part of %d bytes gets only %d", p.SSZ.FixedLen(), l)
			}
			return nil, 0, fmt.Errorf("%d bytes where %d are needed", l, p.SSZ.FixedLen())
		}
		l = p.SSZ.FixedLen()
	}
	if l > 1<<22 {
		s.bad("a part gets %d bytes", l)
		return
	}
	n := l
	if s.mode == short && me == s.target && l > 0 {
		n = s.r.Uint64N(l)
		s.did = true
	}
	if s.mode == greedy && me == s.target {
		if fixed && l < dr.GetBytesSpan() {
			n = l + 1 + s.r.Uint64N(min(8, dr.GetBytesSpan()-l))
			s.did = true
		} else if !fixed && l > 0 {
			if _, err = s.read(dr, s.r.Uint64N(l), 1); err != nil {
				return
			}
			if err = s.over(dr); err != nil {
				s.did = true
				err = errGreedy{err}
			}
			return
		}
	}
	b, err := s.read(dr, n, 2)
	if err != nil || s.wrong != "" {
		return
	}
	if n >= l {
		b = b[:l]
	} else {
		b = append(b, make([]byte, l-n)...)
	}
	s.parts = append(s.parts, b)
	if !fixed && s.mode != short {
		for i := 0; i < 2; i++ {
			s.over(dr)
		}
	}
	in, err = dec.NewDecodingReader(bytes.NewReader(b)).Scope(l)
	return
}

func (p probe) Decode(dr *dec.DecodingReader, at unsafe.Pointer) error {
	s := *p.s
	if s.fuzz {
		s.seen++
		if !dr.IsFuzzMode() {
			s.bad("a part gets a reader without fuzz mode")
		}
		if dr.GetBytesSpan() < p.SSZ.FuzzMinLen() {
			s.bad("a part that needs %d bytes in fuzz mode gets only %d", p.SSZ.FuzzMinLen(), dr.GetBytesSpan())
		}
		return p.SSZ.Decode(dr, at)
	}
	in, l, err := p.take(dr)
	if err != nil || s.wrong != "" {
		return err
	}
	if s.did { // what it has is not its encoding
		return nil
	}
	if err := p.SSZ.Decode(in, at); err != nil {
		return err
	}
	if in.Index() != l {
		return fmt.Errorf("%d bytes of %d taken", in.Index(), l)
	}
	return nil
}

func (p probe) DryCheck(dr *dec.DecodingReader) error {
	s := *p.s
	in, l, err := p.take(dr)
	if err != nil || s.wrong != "" || s.did || s.mode == skip {
		return err
	}
	if err := p.SSZ.DryCheck(in); err != nil {
		return err
	}
	if in.Index() != l {
		return fmt.Errorf("%d bytes of %d taken", in.Index(), l)
	}
	return nil
}

func (p probe) Encode(ew *enc.EncodingWriter, at unsafe.Pointer) error {
	s := *p.s
	s.seen++
	var b bytes.Buffer
	if err := p.SSZ.Encode(enc.NewEncodingWriter(&b), at); err != nil {
		return err
	}
	s.parts = append(s.parts, append([]byte(nil), b.Bytes()...))
	start, n := ew.Written(), b.Len()
	for b.Len() > 0 {
		var err error
		if s.r.IntN(3) == 0 {
			c, _ := b.ReadByte()
			err = ew.WriteByte(c)
			s.counts["written by WriteByte"]++
		} else {
			err = ew.Write(b.Next(s.r.IntN(b.Len() + 1)))
			s.counts["written by Write"]++
		}
		if err != nil {
			return err
		}
	}
	if ew.Written() != start+n {
		s.bad("a part wrote %d bytes, the writer counts %d", n, ew.Written()-start)
	}
	return nil
}

// encodings collects the encodings of the parts of type t of a value.
func encodings(n *ref.Node, v reflect.Value, ts map[reflect.Type]bool, out *[][]byte) {
	if ts[n.T] {
		*out = append(*out, n.Encode(v))
		return
	}
	switch n.K {
	case ref.KPtr:
		encodings(n.Elem, v.Elem(), ts, out)
	case ref.KVector, ref.KList:
		for i := 0; i < v.Len() && !n.Elem.IsBasic(); i++ {
			encodings(n.Elem, v.Index(i), ts, out)
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			encodings(f.Node, ref.Sub(v, f.Index), ts, out)
		}
	}
}

func sameParts(a, b [][]byte) string {
	less := func(x [][]byte) func(i, j int) bool {
		return func(i, j int) bool { return bytes.Compare(x[i], x[j]) < 0 }
	}
	a, b = append([][]byte(nil), a...), append([][]byte(nil), b...)
	sort.Slice(a, less(a))
	sort.Slice(b, less(b))
	if len(a) != len(b) {
		return fmt.Sprintf("%d parts instead of %d", len(a), len(b))
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return fmt.Sprintf("a part gets %s instead of %s", hx(a[i]), hx(b[i]))
		}
	}
	return ""
}

func c32(r *mon.Run) {
	es := universe(r)
	perType(r, "parts", es, r.N(12, 100), "one type in a type is replaced by one that takes its bytes in its own way", func(c *mon.Case, e *uni.Entry, k int) {
		all := map[reflect.Type]bool{}
		parts(e.T, all)
		var ts []reflect.Type
		for t := range all {
			ts = append(ts, t)
		}
		if len(ts) == 0 {
			return
		}
		sortTypes(ts)
		t := ts[c.R.IntN(len(ts))]
		only := map[reflect.Type]bool{t: true}
		v := gen.New(c.R, mode(k), budget(c, 60, 300, 1500)).Value(e.N)
		want := e.N.Encode(v)
		if len(want) > 1<<21 {
			return
		}
		var own [][]byte
		encodings(e.N, v, only, &own)
		var cur *script
		var f types.SSZFactoryFn
		f = func(x reflect.Type) (types.SSZ, error) {
			s, err := types.DefaultSSZFactory(f, x)
			if x != t || err != nil {
				return s, err
			}
			p := probe{s, &cur}
			if sq, ok := s.(types.SquashableFields); ok {
				return probeC{p, sq}, nil
			}
			return p, nil
		}
		s, err, p := sut.NewWith(f, e.T)
		what := fmt.Sprintf("%s with its own way of taking %s", e.Name, typeName(t))
		if s == nil || err != nil || p != nil {
			c.Fail("construct", "%s: %v %v", what, err, p)
			return
		}
		c.Eval(mon.Hash("confine", what, mon.HashBytes(want)))
		begin := func(mode int) *script {
			cur = &script{r: c.R, mode: mode, counts: map[string]int{}}
			if len(own) > 0 {
				cur.target = c.R.IntN(len(own))
			}
			return cur
		}
		end := func(op string, p *sut.Panic) bool {
			for k, n := range cur.counts {
				c.CountN(k, int64(n))
			}
			if p != nil {
				c.Fail("panics", "%s: %s: %v\nencoding %s", what, op, p, hx(want))
			} else if cur.wrong != "" {
				c.Fail("reader", "%s: %s: %s\nencoding %s", what, op, cur.wrong, hx(want))
			}
			return !c.Failed()
		}
		// encoding
		begin(obey)
		got, n, err, p := sut.Encode(ptr(v), s)
		if !end("encoding", p) {
			return
		}
		if err != nil || n != len(want) || !bytes.Equal(got, want) {
			c.Fail("encode", "%s: %v, count %d, %s", what, err, n, firstDiff(got, want))
			return
		}
		if x := sameParts(cur.parts, own); x != "" {
			c.Fail("encode-parts", "%s: encoding: %s", what, x)
			return
		}
		// decoding and dry checks of parts that take what is theirs
		for i := 0; i < 2; i++ {
			begin(obey)
			w := reflect.New(e.T).Elem()
			err, p := sut.Decode(want, ptr(w), s)
			if !end("decoding", p) {
				return
			}
			if err != nil || !e.N.Equal(w, v) {
				c.Fail("decode", "%s: %v, equal: %v\nencoding %s", what, err, err == nil, hx(want))
				return
			}
			if x := sameParts(cur.parts, own); x != "" {
				c.Fail("parts", "%s: decoding: %s\nencoding %s", what, x, hx(want))
				return
			}
			begin(obey)
			err, p = sut.Dry(want, s)
			if !end("dry check", p) {
				return
			}
			if err != nil {
				c.Fail("dry", "%s: %v\nencoding %s", what, err, hx(want))
				return
			}
			if x := sameParts(cur.parts, own); x != "" {
				c.Fail("parts", "%s: dry check: %s\nencoding %s", what, x, hx(want))
				return
			}
			begin(skip)
			err, p = sut.Dry(want, s)
			if !end("dry check with skips", p) {
				return
			}
			if err != nil || len(cur.parts) != len(own) {
				c.Fail("dry", "%s: with skips: %v, %d parts of %d\nencoding %s", what, err, len(cur.parts), len(own), hx(want))
				return
			}
			c.CountN("parts that took what is theirs", int64(3*len(own)))
		}
		// parts that take less or more
		for i := 0; i < 6 && len(own) > 0; i++ {
			begin(short + i%2)
			w := reflect.New(e.T).Elem()
			op := "decoding"
			if i%3 == 0 {
				op = "dry check"
				err, p = sut.Dry(want, s)
			} else {
				err, p = sut.Decode(want, ptr(w), s)
			}
			did := cur.did
			if !end(op, p) {
				return
			}
			name := []string{"", "takes less", "takes or wants more"}[cur.mode]
			if did && err == nil {
				c.Fail("unnoticed", "%s: %s succeeds though part %d %s than it has\nencoding %s", what, op, cur.target, name, hx(want))
				return
			}
			if !did && err != nil {
				c.Fail("decode", "%s: %s: %v\nencoding %s", what, op, err, hx(want))
				return
			}
			if did {
				c.Count("a part " + name)
			}
		}
		// fuzz mode
		l, _ := sut.LensOf(s)
		if l.FuzzMin < 1<<14 {
			begin(obey).fuzz = true
			in := fuzzInput(c, int(l.FuzzMin)+c.R.IntN(80))
			_, err, p := sut.FuzzFrom(bytes.NewReader(in), uint64(len(in)), ptr(reflect.New(e.T).Elem()), s)
			if !end("fuzz decoding", p) {
				return
			}
			if err != nil {
				c.Fail("fuzz", "%s: fuzz decoding: %v\ninput %s", what, err, hx(in))
				return
			}
			c.CountN("parts decoded in fuzz mode", int64(cur.seen))
		}
		c.Sample("%s: %d parts, encoding %.60s", what, len(own), hx(want))
	})
	readers(r)
	r.Need("parts that took what is theirs", 10000)
	r.Need("a part takes less", 3000)
	r.Need("a part takes or wants more", 3000)
	r.Need("tried to take more: Skip", 1000)
	r.Need("tried to take more: io.ReadFull", 1000)
	r.Need("parts decoded in fuzz mode", 3000)
}
