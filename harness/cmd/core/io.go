package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C18"] = c18
	props["C19"] = c19
	props["C20"] = c20
}

// outcome of one reading of a source
type outcome struct {
	ok  bool
	n   uint64 // fuzz mode
	enc []byte // what was decoded
	err error
	p   *sut.Panic
}

func (a outcome) diff(b outcome) string {
	switch {
	case a.p != nil || b.p != nil:
		return fmt.Sprintf("panics: %v, %v", a.p, b.p)
	case a.ok != b.ok:
		return fmt.Sprintf("outcomes: %v, %v", a.err, b.err)
	case a.ok && a.n != b.n:
		return fmt.Sprintf("counts: %d, %d", a.n, b.n)
	case !bytes.Equal(a.enc, b.enc):
		return "values: " + firstDiff(a.enc, b.enc)
	}
	return ""
}

const (
	opDecode = iota
	opDry
	opFuzz
)

var opNames = []string{"decode", "dry check", "fuzz decode"}

func take(op int, rd io.Reader, l uint64, e *uni.Entry, d *sut.Def) (o outcome) {
	v := reflect.New(e.T).Elem()
	switch op {
	case opDecode:
		o.err, o.p = sut.DecodeFrom(rd, l, ptr(v), d.S)
	case opDry:
		o.err, o.p = sut.DryFrom(rd, l, d.S)
	case opFuzz:
		o.n, o.err, o.p = sut.FuzzFrom(rd, l, ptr(v), d.S)
	}
	o.ok = o.err == nil && o.p == nil
	if o.ok && op != opDry {
		o.enc = e.N.Encode(v)
	}
	return
}

// counted tells how much was taken from a source that may read ahead no further than asked.
type counted struct {
	r io.Reader
	n int
}

func (c *counted) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func c18(r *mon.Run) {
	es := universe(r)
	perType(r, "sources", es, r.N(10, 90), "the same bytes from sources of every kind", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		op := c.R.IntN(3)
		var in []byte
		kind := "valid"
		switch {
		case op == opFuzz:
			l, _ := sut.LensOf(d.S)
			in = fuzzInput(c, int(min(l.FuzzMin, 1<<20))+c.R.IntN(100))
			kind = "fuzz"
		case c.R.IntN(2) == 0:
			in, kind = gen.Hostile(c.R, e.N, budget(c, 80))
		default:
			in = e.N.Encode(value(c, e, k, budget(c, 40, 200, 900)))
		}
		l := len(in)
		if c.R.IntN(6) == 0 && op != opFuzz {
			l = max(0, l+c.R.IntN(7)-3)
		}
		src := in
		if c.R.IntN(2) == 0 || l > len(in) { // bytes that belong to something else
			more := make([]byte, 1+c.R.IntN(40))
			gen.FillBytes(c.R, more)
			src = append(append([]byte(nil), in...), more...)
		}
		base := take(op, bytes.NewReader(src), uint64(l), e, d)
		if base.p != nil {
			c.Fail("panics", "%s (%s): %s: %v\ninput %s", e.Name, kind, opNames[op], base.p, hx(src))
			return
		}
		c.Eval(mon.Hash(e.Name, op, l, mon.HashBytes(src)))
		c.Count(map[bool]string{true: "baseline succeeds: ", false: "baseline fails: "}[base.ok] + opNames[op])
		for s := 0; s < 8; s++ {
			var rd io.Reader
			var pos func() int
			name := ""
			sp := &spy.Reader{Data: src, R: c.R, Runaway: 1 << 22}
			pos = func() int { return sp.Pos }
			rd = sp
			switch x := c.R.IntN(15); x {
			case 0:
				name, sp.Max = "one byte at a time", 1
			case 1:
				name, sp.Max = "small chunks", 2+c.R.IntN(9)
			case 2:
				name, sp.Empty = "empty reads", true
			case 3:
				name, sp.Empty, sp.Max = "empty reads and one byte", true, 1
			case 4:
				name, sp.Early = "end with the last bytes", true
			case 5:
				name, sp.Early, sp.Max, sp.Empty = "end with the last bytes, in chunks, empty reads", true, 1+c.R.IntN(6), true
			case 6:
				sk := &spy.Seekable{Reader: *sp}
				name, rd, pos = "seekable", sk, func() int { return sk.Pos }
			case 7:
				sk := &spy.Seekable{Reader: *sp}
				sk.Max = 3
				name, rd, pos = "seekable, small chunks", sk, func() int { return sk.Pos }
			case 8:
				ct := &counted{r: iotest.HalfReader(bytes.NewReader(src))}
				name, rd, pos = "iotest.HalfReader", ct, func() int { return ct.n }
			case 9:
				ct := &counted{r: iotest.DataErrReader(bytes.NewReader(src))}
				name, rd, pos = "iotest.DataErrReader", ct, func() int { return ct.n }
			case 10:
				ct := &counted{r: bufio.NewReaderSize(bytes.NewReader(src), 16)}
				name, rd, pos = "bufio.Reader", ct, func() int { return ct.n }
			case 11:
				m := c.R.IntN(len(src) + 1)
				ct := &counted{r: io.MultiReader(bytes.NewReader(src[:m]), strings.NewReader(string(src[m:])))}
				name, rd, pos = "io.MultiReader", ct, func() int { return ct.n }
			case 12:
				b := bytes.NewBuffer(append([]byte(nil), src...))
				name, rd, pos = "bytes.Buffer", b, func() int { return len(src) - b.Len() }
			case 14:
				x := &spy.Rich{Reader: *sp}
				x.Max, x.Empty, x.Early = c.R.IntN(4), c.R.IntN(2) == 0, c.R.IntN(2) == 0
				name, rd, pos = "optional methods", x, func() int { return x.Pos }
			case 13:
				pr, pw := io.Pipe()
				go func() {
					for rest := src; len(rest) > 0; {
						n := min(len(rest), 1+len(src)/3)
						if _, err := pw.Write(rest[:n]); err != nil {
							return
						}
						rest = rest[n:]
					}
					pw.Close()
				}()
				ct := &counted{r: pr}
				defer pr.Close()
				name, rd, pos = "io.Pipe", ct, func() int { return ct.n }
			}
			if c.R.IntN(2) == 0 { // as it is, not looked at while it is read
				x := concrete(c, src)
				if c.R.IntN(2) == 0 {
					x = wrapped(c, &spy.Reader{Data: src, R: c.R, Max: c.R.IntN(5), Empty: c.R.IntN(4) == 0, Early: c.R.IntN(2) == 0}, true)
				}
				name, rd = x.name, x.rd
				pos = func() int {
					defer x.close()
					rest, err := io.ReadAll(rd)
					if err != nil || !bytes.HasSuffix(src, rest) {
						c.Fail("rest", "%s (%s): after %s of %d bytes from %q the rest of the source is %v, %s\nsource %s", e.Name, kind, opNames[op], l, name, err, hx(rest), hx(src))
					}
					return len(src) - len(rest)
				}
			}
			got := take(op, rd, uint64(l), e, d)
			c.Count("source: " + name)
			if x := base.diff(got); x != "" {
				c.Fail("source-matters", "%s (%s): %s of %d bytes from %q: %s\nsource %s", e.Name, kind, opNames[op], l, name, x, hx(src))
				return
			}
			taken := pos()
			if taken > l {
				c.Fail("took-more", "%s (%s): %s of %d bytes from %q took %d\nsource %s", e.Name, kind, opNames[op], l, name, taken, hx(src))
				return
			}
			if got.ok && op != opFuzz && taken != l {
				c.Fail("took-other", "%s (%s): %s of %d bytes from %q succeeded after taking %d\nsource %s", e.Name, kind, opNames[op], l, name, taken, hx(src))
				return
			}
			if got.ok && op == opFuzz && uint64(taken) != got.n {
				c.Fail("took-other", "%s: fuzz decode of %d bytes from %q reports %d, took %d\nsource %s", e.Name, l, name, got.n, taken, hx(src))
				return
			}
		}
		c.Sample("%s: %s of %d bytes: the same from all sources (%v)", e.Name, opNames[op], l, base.err)
	})
	r.Phase("streams", r.N(2500, 25000), "messages of several types behind one another in one stream", func(c *mon.Case) {
		type msg struct {
			e *uni.Entry
			b []byte
		}
		var ms []msg
		var all []byte
		for i := 0; i < 2+c.R.IntN(6); i++ {
			e := es[c.R.IntN(len(es))]
			b := e.N.Encode(gen.New(c.R, mode(c.R.IntN(7)), 150).Value(e.N))
			ms = append(ms, msg{e, b})
			all = append(all, b...)
		}
		var rd io.Reader
		sp := spy.Reader{Data: all, R: c.R, Max: []int{0, 1, 7, 100}[c.R.IntN(4)], Empty: c.R.IntN(3) == 0, Early: c.R.IntN(2) == 0}
		switch c.R.IntN(4) {
		case 0:
			rd = &spy.Seekable{Reader: sp}
		case 1:
			rd = &sp
		case 2:
			x := wrapped(c, &sp, true)
			rd = x.rd
			c.Count("stream: " + x.name)
		case 3:
			x := concrete(c, all)
			defer x.close()
			rd = x.rd
			c.Count("stream: " + x.name)
		}
		c.Eval(mon.Hash("stream", mon.HashBytes(all)))
		for i, m := range ms {
			d := def(c, m.e)
			if d == nil {
				return
			}
			op := c.R.IntN(2)
			o := take(op, rd, uint64(len(m.b)), m.e, d)
			if !o.ok || (op == opDecode && !bytes.Equal(o.enc, m.b)) {
				c.Fail("stream", "message %d of %d (%s, %d bytes): %s: %v %v, %s", i, len(ms), m.e.Name, len(m.b), opNames[op], o.err, o.p, firstDiff(o.enc, m.b))
				return
			}
			c.Count("messages taken from streams")
		}
	})
	r.Need("baseline succeeds: decode", 500)
	r.Need("baseline fails: decode", 300)
	r.Need("baseline succeeds: fuzz decode", 500)
	r.Need("messages taken from streams", 5000)
}

// positions to fail at: all of them, or around everything of interest in long inputs
func positions(c *mon.Case, n, most int) []int {
	var out []int
	if n <= most {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for i := 0; i < 24; i++ {
		add(i)
		add(n - 1 - i)
	}
	for len(out) < most {
		add(c.R.IntN(n))
	}
	return out
}

// faultValues picks values with short encodings for exhaustive injection, and some long ones.
func faultValues(r *mon.Run, es []*uni.Entry, name string, rep int, f func(c *mon.Case, e *uni.Entry, d *sut.Def, v reflect.Value, enc []byte)) {
	perType(r, name, es, rep, "every failing position of encodings up to 160 bytes, 160 positions of longer ones", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		b := budget(c, 30, 60, 120)
		if c.R.IntN(8) == 0 {
			b = 2000
		}
		m := gen.Random
		if k%4 == 3 {
			m = gen.Full
		}
		v := gen.New(c.R, m, b).Value(e.N)
		alias(c, e, v)
		f(c, e, d, v, e.N.Encode(v))
	})
}

func c19(r *mon.Run) {
	es := universe(r)
	errs := spy.Errors(false)
	fail := func(c *mon.Case, e *uni.Entry, d *sut.Def, op int, in []byte, l int, k int, want outcome, consumed int) bool {
		err := error(io.EOF)
		if c.R.IntN(4) > 0 {
			err = errs[c.R.IntN(len(errs))]
		}
		sp := &spy.Reader{Data: in[:k], R: c.R, Err: err, Max: []int{0, 0, 1, 5}[c.R.IntN(4)], Early: c.R.IntN(3) == 0, Empty: c.R.IntN(6) == 0, Runaway: 1 << 22}
		if err == io.EOF {
			sp.Err = nil
		} else if !sp.Early {
			// what somebody would get who reads on (an error that comes along with the last bytes
			// asked for may be dropped, as io.ReadFull and io.CopyN do: such a source stays failed)
			sp.After = append(append([]byte(nil), in[k:]...), 0, 0, 0, 0)
		}
		var rd io.Reader = sp
		kind := "plain"
		switch c.R.IntN(4) {
		case 0:
			x := &spy.Rich{Reader: *sp}
			kind, rd, sp = "with optional methods", x, &x.Reader
		case 1:
			x := &spy.Seekable{Reader: *sp}
			kind, rd, sp = "seekable", x, &x.Reader
		case 2:
			if !sp.Early { // a reader in between may keep a failure for later
				x := wrapped(c, sp, false)
				kind, rd = x.name, x.rd
			}
		case 3:
			if err == io.EOF && c.R.IntN(4) == 0 {
				x := concrete(c, in[:k])
				defer x.close()
				kind, rd = x.name, x.rd
			}
		}
		o := take(op, rd, uint64(l), e, d)
		c.Evals(1)
		c.Count("failures injected: " + opNames[op])
		c.Count(fmt.Sprintf("failures of kind %T", err))
		what := fmt.Sprintf("%s: %s of %d bytes, source (%s) fails at byte %d with %T %v (early=%v, chunks=%d)", e.Name, opNames[op], l, kind, k, err, err, sp.Early, sp.Max)
		if o.p != nil {
			c.Fail("panics", "%s: %v\nsource %s", what, o.p, hx(in))
			return false
		}
		if o.ok {
			c.Fail("passed-as-success", "%s: reported as success\nsource %s", what, hx(in))
			return false
		}
		if sp.CallsAfter > 0 && len(sp.After)+sp.TakenAfter > 0 {
			c.Fail("read-on", "%s: read on after the failure %d times, took %d more bytes\nsource %s", what, sp.CallsAfter, sp.TakenAfter, hx(in))
			return false
		}
		if sp.CallsAfter > 4 {
			c.Fail("read-on", "%s: read %d times after the end\nsource %s", what, sp.CallsAfter, hx(in))
			return false
		}
		if spy.Same(o.err, err) {
			c.Count("the source's own error came out")
		}
		return true
	}
	faultValues(r, es, "valid", r.N(3, 24), func(c *mon.Case, e *uni.Entry, d *sut.Def, v reflect.Value, enc []byte) {
		c.Eval(evid(e, enc))
		for op := opDecode; op <= opDry; op++ {
			for _, k := range positions(c, len(enc), 160) {
				if !fail(c, e, d, op, enc, len(enc), k, outcome{}, len(enc)) {
					return
				}
			}
		}
		c.Sample("%s: %d-byte encoding cut and failed at every byte", e.Name, len(enc))
	})
	perType(r, "fuzz", es, r.N(3, 24), "fuzz mode, the source failing at every byte it needs", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		l, _ := sut.LensOf(d.S)
		in := fuzzInput(c, int(min(l.FuzzMin, 1<<20))+c.R.IntN(80))
		base := take(opFuzz, bytes.NewReader(in), uint64(len(in)), e, d)
		if !base.ok {
			c.Fail("fuzz-fails", "%s: %v %v\ninput %s", e.Name, base.err, base.p, hx(in))
			return
		}
		c.Eval(evid(e, in))
		for _, k := range positions(c, int(base.n), 100) {
			if !fail(c, e, d, opFuzz, in, len(in), k, base, int(base.n)) {
				return
			}
		}
	})
	// hostile inputs whose source fails too: still no success, no panic, no reading on
	perType(r, "hostile", es, r.N(4, 30), "hostile inputs from failing sources", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		in, _ := gen.Hostile(c.R, e.N, budget(c, 60))
		c.Eval(evid(e, in))
		for _, k := range positions(c, len(in), 24) {
			for op := opDecode; op <= opDry; op++ {
				if !fail(c, e, d, op, in, len(in), k, outcome{}, 0) {
					return
				}
			}
		}
	})
	ownReaders(r, es)
	r.Need("failures injected: decode", 50000)
	r.Need("failures injected: dry check", 50000)
	r.Need("failures injected: fuzz decode", 10000)
}

type writeErr struct{ pos int }

func (w *writeErr) Error() string { return fmt.Sprintf("device full at %d", w.pos) }

func c20(r *mon.Run) {
	es := universe(r)
	errs := spy.Errors(true)
	faultValues(r, es, "writers", r.N(6, 48), func(c *mon.Case, e *uni.Entry, d *sut.Def, v reflect.Value, enc []byte) {
		c.Eval(evid(e, enc))
		for _, k := range positions(c, len(enc), 160) {
			style := (k + c.Idx) % 3
			if c.R.IntN(4) == 0 {
				style = c.R.IntN(3)
			}
			var werr error = &writeErr{k}
			if c.R.IntN(3) > 0 {
				werr = errs[c.R.IntN(len(errs))]
			}
			w := &spy.Writer{Limit: k, Style: style, Err: werr, After: c.R.IntN(3) == 0}
			var to io.Writer = w
			if c.R.IntN(2) == 0 {
				x := &spy.RichWriter{Writer: *w}
				to, w = x, &x.Writer
				c.Count("failing writers with optional methods")
			}
			n, err, p := sut.EncodeTo(to, ptr(v), d.S)
			c.Evals(1)
			c.Count(fmt.Sprintf("failures injected, style %d", style))
			what := fmt.Sprintf("%s: writer (%T) fails at byte %d of %d (style %d) with %T %v", e.Name, to, k, len(enc), style, werr, werr)
			switch {
			case p != nil:
				c.Fail("panics", "%s: %v\nencoding %s", what, p, hx(enc))
			case !w.Failed():
				c.Fail("not-written", "%s: encoding never got there: %d bytes written, err %v\nencoding %s", what, len(w.Buf), err, hx(enc))
			case err == nil:
				c.Fail("swallowed", "%s: no error reported\nencoding %s", what, hx(enc))
			case !spy.Same(err, werr):
				c.Fail("other-error", "%s: another error is reported: %v\nencoding %s", what, err, hx(enc))
			case n != len(w.Buf):
				c.Fail("count", "%s: reports %d bytes, the writer accepted %d\nencoding %s", what, n, len(w.Buf), hx(enc))
			case !bytes.HasPrefix(enc, w.Buf):
				c.Fail("no-prefix", "%s: what was written is no prefix of the encoding: %s", what, firstDiff(w.Buf, enc))
			case w.BytesAfter > 0:
				c.Fail("wrote-on", "%s: %d more bytes written after the failure\nencoding %s", what, w.BytesAfter, hx(enc))
			}
			if c.Failed() {
				return
			}
		}
		// a writer that holds exactly the encoding never fails
		for _, lim := range []int{len(enc), -1} {
			w := &spy.Writer{Limit: lim, Err: spy.ErrInjected}
			var to io.Writer = w
			if c.R.IntN(2) == 0 {
				x := &spy.RichWriter{Writer: *w}
				to, w = x, &x.Writer
			}
			n, err, p := sut.EncodeTo(to, ptr(v), d.S)
			if err != nil || p != nil || n != len(enc) || !bytes.Equal(w.Buf, enc) {
				c.Fail("fails-anyway", "%s: writer with room for all %d bytes: count %d, err=%v %v, %s", e.Name, len(enc), n, err, p, firstDiff(w.Buf, enc))
				return
			}
			c.Count("writers that do not fail")
		}
		c.Sample("%s: %d-byte encoding into writers failing at every byte", e.Name, len(enc))
	})
	perType(r, "writers of the standard library", es, r.N(4, 40), "files, pipes, connections, buffers and builders that hold something already, several values behind one another", func(c *mon.Case, e *uni.Entry, k int) {
		before := make([]byte, c.R.IntN(3)*c.R.IntN(40))
		gen.FillBytes(c.R, before)
		x := newTarget(c, before)
		want := append([]byte(nil), before...)
		for i := 0; i <= c.R.IntN(3); i++ {
			if i > 0 {
				e = es[c.R.IntN(len(es))]
			}
			d := def(c, e)
			if d == nil {
				x.got()
				return
			}
			v := value(c, e, k+i, budget(c, 40, 200, 900))
			enc := e.N.Encode(v)
			c.Eval(evid(e, enc))
			want = append(want, enc...)
			n, err, p := sut.EncodeTo(x.w, ptr(v), d.S)
			if err != nil || p != nil || n != len(enc) {
				c.Fail("fails-anyway", "%s: encoding to a %s: count %d of %d, err=%v %v\nencoding %s", e.Name, x.name, n, len(enc), err, p, hx(enc))
			}
		}
		got, err := x.got()
		if c.Failed() {
			return
		}
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("arrived", "%s: what arrived in a %s after %d bytes is something else: %v, %s\ngot  %s\nwant %s", e.Name, x.name, len(before), err, firstDiff(got, want), hx(got), hx(want))
			return
		}
		c.Count("writer: " + x.name)
		// a pipe whose other end goes away after so many bytes
		if !slow && c.R.IntN(3) == 0 {
			d := def(c, e)
			v := value(c, e, k, budget(c, 40, 200))
			enc := e.N.Encode(v)
			if d == nil || len(enc) == 0 {
				return
			}
			k := c.R.IntN(len(enc))
			werr := errs[c.R.IntN(len(errs))]
			r, w := io.Pipe()
			var took []byte
			done := make(chan struct{})
			go func() {
				defer close(done)
				took, _ = io.ReadAll(io.LimitReader(r, int64(k)))
				r.CloseWithError(werr)
			}()
			n, err, p := sut.EncodeTo(w, ptr(v), d.S)
			r.Close()
			<-done
			if p != nil || !spy.Same(err, werr) || n != k || !bytes.Equal(took, enc[:k]) {
				c.Fail("pipe", "%s: encoding to a pipe closed with %v after %d of %d bytes: count %d, err=%v %v", e.Name, werr, k, len(enc), n, err, p)
			}
			c.Count("pipes closed by the other end")
		}
	})
	giantWrites(r)
	if !slow {
		r.Need("pipes closed by the other end", 200)
	}
	r.Need("failures injected, style 0", 20000)
	r.Need("failures injected, style 1", 20000)
	r.Need("failures injected, style 2", 20000)
}
