package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C21"] = c21
	props["C31"] = c31
}

func c21(r *mon.Run) {
	es := universe(r)
	perType(r, "histories", es, r.N(14, 130), "one destination through a series of valid, hostile, failing and fuzz decodes, each compared with a fresh destination", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		used := reflect.New(e.T).Elem()
		hist := "zero value"
		if c.R.IntN(2) == 0 {
			g := gen.New(c.R, mode(k), budget(c, 40, 200, 600))
			g.NilPtr, g.Slack = true, true
			g.Fill(e.N, used)
			if c.R.IntN(2) == 0 {
				gen.Slacken(c.R, e.N, used)
			}
			gen.FillOmitted(c.R, used)
			hist = "filled value"
		}
		for i := 0; i < 8; i++ {
			fresh := reflect.New(e.T).Elem()
			var in []byte
			kind := ""
			l := -1
			fuzz, cut := false, -1
			switch c.R.IntN(7) {
			case 0, 1, 2:
				kind = "valid"
				in = e.N.Encode(gen.New(c.R, mode(c.R.IntN(7)), budget(c, 20, 60, 300)).Value(e.N))
			case 3, 4:
				in, kind = gen.Hostile(c.R, e.N, budget(c, 100))
			case 5:
				kind = "fuzz"
				fuzz = true
				x, _ := sut.LensOf(d.S)
				in = fuzzInput(c, int(min(x.FuzzMin, 1<<20))+c.R.IntN(80))
			case 6:
				kind = "cut off"
				in = e.N.Encode(gen.New(c.R, gen.Random, 200).Value(e.N))
				if len(in) > 0 {
					cut = c.R.IntN(len(in))
				}
			}
			l = len(in)
			src := func() io.Reader {
				b := in
				if cut >= 0 {
					b = in[:cut]
				}
				if c.R.IntN(2) == 0 {
					return bytes.NewReader(b)
				}
				return &spy.Reader{Data: b, R: c.R, Max: 1 + c.R.IntN(30)}
			}
			var n1, n2 uint64
			var err1, err2 error
			var p1, p2 *sut.Panic
			if fuzz {
				n1, err1, p1 = sut.FuzzFrom(src(), uint64(l), ptr(used), d.S)
				n2, err2, p2 = sut.FuzzFrom(src(), uint64(l), ptr(fresh), d.S)
			} else {
				err1, p1 = sut.DecodeFrom(src(), uint64(l), ptr(used), d.S)
				err2, p2 = sut.DecodeFrom(src(), uint64(l), ptr(fresh), d.S)
			}
			c.Eval(mon.Hash(e.Name, i, hist, mon.HashBytes(in)))
			what := fmt.Sprintf("%s: decode %d (%s) after %s", e.Name, i, kind, hist)
			if p1 != nil || p2 != nil {
				c.Fail("panics", "%s: used %v, fresh %v\ninput %s", what, p1, p2, hx(in))
				return
			}
			if (err1 == nil) != (err2 == nil) {
				c.Fail("acceptance", "%s: used destination says %v, fresh one %v\ninput %s", what, err1, err2, hx(in))
				return
			}
			if err1 == nil {
				if err := e.N.Valid(used); err != nil {
					c.Fail("invalid", "%s: used destination holds no valid value: %v\ninput %s", what, err, hx(in))
					return
				}
				if n1 != n2 || !e.N.Equal(used, fresh) {
					c.Fail("remains", "%s: used and fresh destination differ (counts %d, %d)\ninput %s\nused  %s\nfresh %s", what, n1, n2, hx(in), hx(e.N.Encode(used)), hx(e.N.Encode(fresh)))
					return
				}
				if !fuzz {
					if b, _, err, p := sut.Encode(ptr(used), d.S); err != nil || p != nil || !bytes.Equal(b, in) {
						c.Fail("remains", "%s: used destination encodes to something else: %v %v %s\ninput %s", what, err, p, firstDiff(b, in), hx(in))
						return
					}
				}
				c.Count("accepted: " + coarse(kind))
				hist = "a successful decode"
			} else {
				c.Count("rejected: " + coarse(kind))
				hist = "a failed decode"
			}
			if i == 7 {
				c.Sample("%s: 8 decodes into one destination, as into fresh ones", e.Name)
			}
		}
	})
	r.Need("accepted: valid", 5000)
	r.Need("accepted: fuzz", 3000)
	r.Need("rejected: cut off", 3000)
}

type panicReader struct {
	b []byte
	n int
}

func (p *panicReader) Read(b []byte) (int, error) {
	if p.n <= 0 || len(p.b) == 0 {
		panic("injected: source panics")
	}
	n := copy(b, p.b[:min(len(p.b), p.n)])
	p.b, p.n = p.b[n:], p.n-n
	return n, nil
}

type panicWriter struct{ n int }

func (p *panicWriter) Write(b []byte) (int, error) {
	if p.n -= len(b); p.n < 0 {
		panic("injected: writer panics")
	}
	return len(b), nil
}

type unsupported struct {
	A uint8
	B *struct{ C []int }
}

// historyOp does one operation, and says what came out, as text. The randomness is drawn before.
func historyOp(c *mon.Case, e *uni.Entry) (name string, do func(d *sut.Def) string) {
	g := gen.New(c.R, mode(c.R.IntN(7)), budget(c, 30, 200, 600))
	x := c.R.IntN(16)
	show := func(a ...any) string {
		for i := range a {
			switch y := a[i].(type) {
			case *sut.Panic:
				a[i] = "no panic"
				if y != nil {
					a[i] = fmt.Sprintf("panic: %v", y.Val)
				}
			case error:
				if !errors.Is(y, spy.ErrInjected) {
					a[i] = "error"
				}
			}
		}
		return fmt.Sprint(a...)
	}
	switch x {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		v := g.Value(e.N)
		if x == 7 {
			g.NilPtr = true
			v = g.Value(e.N)
		}
		alias(c, e, v)
		enc := 0
		if x == 6 {
			enc = c.R.IntN(len(e.N.Encode(v)) + 1)
		}
		k := c.R.IntN(30)
		over := c.R.IntN(3)
		switch x {
		case 0:
			return "encode", func(d *sut.Def) string {
				b, n, err, p := sut.Encode(ptr(v), d.S)
				if want := e.N.Encode(v); err != nil || p != nil || !bytes.Equal(b, want) {
					c.Fail("history-model", "%s: encoding amid a history: %v %v %s", e.Name, err, p, firstDiff(b, want))
				}
				return show(hx2(b), n, err, p)
			}
		case 1:
			return "size", func(d *sut.Def) string { n, p := sut.SizeOf(ptr(v), d.S); return show(n, p) }
		case 2:
			return "root", func(d *sut.Def) string {
				b, p := sut.Root(sha, ptr(v), d.S)
				if want := e.N.Root(ref.Sha, v); p != nil || b != want {
					c.Fail("history-model", "%s: root amid a history: %x %v, instead of %x", e.Name, b, p, want)
				}
				return show(b, p)
			}
		case 3:
			return "signing root", func(d *sut.Def) string {
				s, ok := d.S.(signed)
				if !ok {
					return "none"
				}
				b, p := sut.SigningRoot(sha, ptr(v), s)
				return show(b, p)
			}
		case 4:
			return "pretty", func(d *sut.Def) string { s, p := sut.Pretty(" ", ptr(v), d.S); return show(s, p) }
		case 5:
			return "panicking root", func(d *sut.Def) string {
				n := k
				b, p := sut.Root(panicHash{&n}, ptr(v), d.S)
				return show(b, p)
			}
		case 6:
			return "failing or panicking encode", func(d *sut.Def) string {
				if over == 0 {
					_, err, p := sut.EncodeTo(&panicWriter{enc}, ptr(v), d.S)
					return show(err, p)
				}
				w := &spy.Writer{Limit: enc, Style: over, Err: spy.ErrInjected}
				n, err, p := sut.EncodeTo(w, ptr(v), d.S)
				return show(hx2(w.Buf), n, err, p)
			}
		default:
			return "reading a value with nil pointers", func(d *sut.Def) string {
				s, p := sut.Pretty("\t", ptr(v), d.S)
				if e.N.Valid(v) != nil { // nil pointers: whatever these do, they only have to leave no trace
					sut.Encode(ptr(v), d.S)
					sut.Root(sha, ptr(v), d.S)
					sut.SizeOf(ptr(v), d.S)
				}
				return show(s, p)
			}
		}
	case 8, 9, 10, 11, 12, 13:
		in, _ := gen.Hostile(c.R, e.N, budget(c, 100))
		if x >= 10 {
			in = e.N.Encode(g.Value(e.N))
		}
		k := c.R.IntN(len(in) + 1)
		dec := func(d *sut.Def, f func(v reflect.Value) (error, *sut.Panic)) string {
			v := reflect.New(e.T).Elem()
			err, p := f(v)
			if err != nil || p != nil {
				return show(err, p)
			}
			return show("value ", hx2(e.N.Encode(v)))
		}
		switch x {
		case 8:
			return "decode", func(d *sut.Def) string {
				return dec(d, func(v reflect.Value) (error, *sut.Panic) { return sut.Decode(in, ptr(v), d.S) })
			}
		case 10:
			return "decode", func(d *sut.Def) string {
				got := dec(d, func(v reflect.Value) (error, *sut.Panic) { return sut.Decode(in, ptr(v), d.S) })
				if want := show("value ", hx2(in)); got != want {
					c.Fail("history-model", "%s: decoding a valid encoding amid a history: %s, instead of %s", e.Name, got, want)
				}
				return got
			}
		case 9:
			return "dry check", func(d *sut.Def) string { err, p := sut.Dry(in, d.S); return show(err, p) }
		case 11:
			return "dry check", func(d *sut.Def) string {
				err, p := sut.Dry(in, d.S)
				if err != nil || p != nil {
					c.Fail("history-model", "%s: dry check of a valid encoding amid a history: %v %v\ninput %s", e.Name, err, p, hx(in))
				}
				return show(err, p)
			}
		case 12:
			return "failing decode", func(d *sut.Def) string {
				return dec(d, func(v reflect.Value) (error, *sut.Panic) {
					return sut.DecodeFrom(&spy.Reader{Data: in[:k], Err: spy.ErrInjected}, uint64(len(in)), ptr(v), d.S)
				})
			}
		default:
			return "panicking decode", func(d *sut.Def) string {
				return dec(d, func(v reflect.Value) (error, *sut.Panic) {
					return sut.DecodeFrom(&panicReader{append([]byte(nil), in...), k}, uint64(len(in)), ptr(v), d.S)
				})
			}
		}
	case 14:
		in, extra := fuzzInput(c, 4000), c.R.IntN(3)*c.R.IntN(100)
		return "fuzz decode", func(d *sut.Def) string {
			l, _ := sut.LensOf(d.S)
			in := in[:min(uint64(len(in)), l.FuzzMin+uint64(extra))]
			v := reflect.New(e.T).Elem()
			n, err, p := sut.FuzzFrom(bytes.NewReader(in), uint64(len(in)), ptr(v), d.S)
			if err != nil || p != nil {
				return show(err, p)
			}
			return show(n, hx2(e.N.Encode(v)))
		}
	}
	return "length bounds", func(d *sut.Def) string { l, p := sut.LensOf(d.S); return show(fmt.Sprintf("%+v", l), p) }
}

// coarse names an input kind without its further damage
func coarse(kind string) string {
	switch kind {
	case "valid", "fuzz", "cut off":
		return kind
	}
	return "hostile"
}

func hx2(b []byte) string { return fmt.Sprintf("%d bytes, %x: %s", len(b), mon.HashBytes(b), hx(b)) }

func c31(r *mon.Run) {
	es := universe(r)
	perType(r, "histories", es, r.N(3, 30), "long random histories on one definition, every result compared with that of a definition made for it alone", func(c *mon.Case, e *uni.Entry, k int) {
		s, err, p := sut.New(e.T)
		if err != nil || p != nil {
			c.Fail("construct", "%s: %v %v", e.Name, err, p)
			return
		}
		d := &sut.Def{T: e.T, S: s}
		shared := def(c, e) // used by all cases of the type, in parallel
		if shared == nil {
			return
		}
		other := es[c.R.IntN(len(es))]
		var log []string
		var past []func(*sut.Def) string
		var results []string
		for i := 0; i < 40; i++ {
			if c.R.IntN(6) == 0 { // something with another definition, or a failing construction
				if c.R.IntN(4) == 0 {
					sut.New(reflect.TypeOf(unsupported{}))
				} else if od := def(c, other); od != nil {
					_, f := historyOp(c, other)
					f(od)
				}
			}
			name, f := historyOp(c, e)
			if len(past) > 0 && c.R.IntN(4) == 0 { // again, later
				j := c.R.IntN(len(past))
				if got := past[j](d); got != results[j] {
					c.Fail("history", "%s: operation %d of the history gives another result when repeated after %s\nfirst %.1200s\nlater %.1200s", e.Name, j, strings.Join(log[j:], ", "), results[j], got)
					return
				}
				c.Count("repeated later")
			}
			fs, err, p := sut.New(e.T)
			if err != nil || p != nil {
				c.Fail("construct", "%s: constructing again: %v %v", e.Name, err, p)
				return
			}
			want := f(&sut.Def{T: e.T, S: fs})
			got := f(d)
			got2 := f(shared)
			c.Eval(mon.Hash(e.Name, name, want))
			if got != want || got2 != want {
				c.Fail("history", "%s: %s gives another result after a history than with a new definition\nhistory: %s\nnew definition  %.1000s\nafter history   %.1000s\nshared          %.1000s", e.Name, name, strings.Join(log, ", "), want, got, got2)
				return
			}
			c.Count("op: " + name)
			if strings.Contains(want, "panic:") {
				c.Count("operations that panicked")
			} else if strings.Contains(want, "error") || strings.Contains(want, "injected") {
				c.Count("operations that failed")
			}
			log = append(log, name)
			past = append(past, f)
			results = append(results, want)
		}
		c.Sample("%s: %s", e.Name, strings.Join(log[:10], ", "))
	})
	// a value that changes in place between the operations: what they say is about what it is now
	perType(r, "in place", es, r.N(6, 50), "one value, changed in place between operations on it, against the model", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		s, isContainer := d.S.(signed)
		v := value(c, e, k, budget(c, 60, 300, 1200))
		for i := 0; i < 10; i++ {
			switch c.R.IntN(8) {
			case 0:
			case 1: // new contents, perhaps where the old ones were
				in := e.N.Encode(gen.New(c.R, mode(c.R.IntN(7)), 200).Value(e.N))
				if err, p := sut.Decode(in, ptr(v), d.S); err != nil || p != nil {
					c.Fail("in-place", "%s: decoding into it: %v %v\ninput %s", e.Name, err, p, hx(in))
					return
				}
			default:
				gen.Perturb(gen.New(c.R, gen.Random, 100), e.N, v)
			}
			enc := e.N.Encode(v)
			c.Eval(evid(e, enc))
			bad := ""
			switch op := c.R.IntN(6); op {
			case 0, 1:
				b, n, err, p := sut.Encode(ptr(v), d.S)
				if err != nil || p != nil || n != len(enc) || !bytes.Equal(b, enc) {
					bad = fmt.Sprintf("encoding: %v %v, count %d, %s", err, p, n, firstDiff(b, enc))
				}
			case 2:
				if n, p := sut.SizeOf(ptr(v), d.S); p != nil || n != uint64(len(enc)) {
					bad = fmt.Sprintf("size: %d %v, want %d", n, p, len(enc))
				}
			case 3:
				if x, p := sut.Root(sha, ptr(v), d.S); p != nil || x != e.N.Root(ref.Sha, v) {
					bad = fmt.Sprintf("root %x %v", x, p)
				}
			case 4:
				if isContainer {
					if x, p := sut.SigningRoot(sha, ptr(v), s); p != nil || x != e.N.SigningRoot(ref.Sha, v) {
						bad = fmt.Sprintf("signing root %x %v", x, p)
					}
				}
			case 5:
				if len(enc) < 3000 {
					out, p := sut.Pretty(" ", ptr(v), d.S)
					got, want := ref.Tokens(out), e.N.PrettyTokens(v)
					if p != nil || len(got) != len(want) || firstTokenIndex(got, want) < len(want) {
						bad = fmt.Sprintf("printed: %v, %s", p, firstToken(got, want))
					}
				}
			}
			if bad != "" {
				c.Fail("in-place", "%s: operation %d on a value that changed in place: %s\nvalue %s", e.Name, i, bad, hx(enc))
				return
			}
			c.Count("operations on values changed in place")
		}
	})
	// operations under way while others are done by their reader, writer or hash function, or at the other end of a pipe
	perType(r, "within", es, r.N(3, 25), "operations within the reader, writer or hash function of another operation on the same definition", func(c *mon.Case, e *uni.Entry, k int) {
		s, err, p := sut.New(e.T)
		if err != nil || p != nil {
			c.Fail("construct", "%s: %v %v", e.Name, err, p)
			return
		}
		d := &sut.Def{T: e.T, S: s}
		other := es[c.R.IntN(len(es))]
		v := value(c, e, k, budget(c, 60, 300))
		enc := e.N.Encode(v)
		bad, calls, inner := "", 0, 0
		every := 1 + c.R.IntN(8)
		// done from within
		nested := func() {
			calls++
			if calls%every != 0 || inner > 12 || bad != "" {
				return
			}
			inner++
			x, def2 := e, d
			if c.R.IntN(5) == 0 {
				if od := def(c, other); od != nil {
					x, def2 = other, od
				}
			}
			fs, err, p := sut.New(x.T)
			if err != nil || p != nil {
				bad = fmt.Sprintf("constructing within an operation: %v %v", err, p)
				return
			}
			name, f := historyOp(c, x)
			want := f(&sut.Def{T: x.T, S: fs})
			if got := f(def2); got != want {
				bad = fmt.Sprintf("%s within an operation gives another result than with a new definition\nnew definition %.1000s\nwithin         %.1000s", name, want, got)
			}
			c.Count("operations within operations")
		}
		c.Eval(evid(e, enc))
		what := ""
		fail := func(f string, a ...any) {
			if bad == "" {
				bad = what + " with others going on within it: " + fmt.Sprintf(f, a...)
			}
		}
		w := &inWriter{f: nested}
		rd := func(in []byte) io.Reader { return &inReader{b: in, f: nested, step: 1 + c.R.IntN(40)} }
		fresh := reflect.New(e.T).Elem()
		switch op := c.R.IntN(8); op {
		case 0, 1:
			what = "encoding"
			n, err, p := sut.EncodeTo(w, ptr(v), d.S)
			if err != nil || p != nil || n != len(enc) || !bytes.Equal(w.Bytes(), enc) {
				fail("%v %v, count %d, %s", err, p, n, firstDiff(w.Bytes(), enc))
			}
		case 2:
			what = "decoding"
			if err, p := sut.DecodeFrom(rd(enc), uint64(len(enc)), ptr(fresh), d.S); err != nil || p != nil || !e.N.Equal(v, fresh) {
				fail("%v %v\n%s", err, p, hx(e.N.Encode(fresh)))
			}
		case 3:
			what = "a dry check"
			in, _ := gen.Hostile(c.R, e.N, budget(c, 100))
			want := e.N.Decode(in, reflect.New(e.T).Elem())
			if err, p := sut.DryFrom(rd(in), uint64(len(in)), d.S); p != nil || (err == nil) != (want == nil) {
				fail("%v %v, want %v\ninput %s", err, p, want, hx(in))
			}
		case 4:
			what = "decoding in fuzz mode"
			in := fuzzInput(c, 2000)
			l, _ := sut.LensOf(d.S)
			in = in[:min(uint64(len(in)), l.FuzzMin+50)]
			want := reflect.New(e.T).Elem()
			wn, werr, _ := sut.FuzzFrom(bytes.NewReader(in), uint64(len(in)), ptr(want), d.S)
			n, err, p := sut.FuzzFrom(rd(in), uint64(len(in)), ptr(fresh), d.S)
			if p != nil || n != wn || (err == nil) != (werr == nil) || err == nil && !e.N.Equal(want, fresh) {
				fail("count %d, %v %v; otherwise %d, %v\ninput %s", n, err, p, wn, werr, hx(in))
			}
		case 5:
			what = "hashing"
			if x, p := sut.Root(inHash{nested}, ptr(v), d.S); p != nil || x != e.N.Root(ref.Sha, v) {
				fail("root %x %v", x, p)
			}
		case 6:
			what = "printing"
			if len(enc) < 3000 {
				p := sut.PrettyTo(w, " ", ptr(v), d.S)
				got, want := ref.Tokens(w.String()), e.N.PrettyTokens(v)
				if p != nil || len(got) != len(want) || firstTokenIndex(got, want) < len(want) {
					fail("%v, %s", p, firstToken(got, want))
				}
			}
		case 7: // both ends of a pipe
			if slow {
				return
			}
			what = "a transfer by a pipe"
			pr, pw := io.Pipe()
			var n int
			var werr error
			var wp *sut.Panic
			done := make(chan struct{})
			go func() {
				defer close(done)
				n, werr, wp = sut.EncodeTo(pw, ptr(v), d.S)
				pw.CloseWithError(werr)
			}()
			err, p := sut.DecodeFrom(pr, uint64(len(enc)), ptr(fresh), d.S)
			if err != nil || p != nil {
				pr.Close()
			}
			io.Copy(io.Discard, pr) // writes of no bytes may still come
			<-done
			if len(enc) > 0 && (n != len(enc) || werr != nil) || wp != nil || err != nil || p != nil || !e.N.Equal(v, fresh) {
				fail("encoding: count %d of %d, %v %v; decoding: %v %v", n, len(enc), werr, wp, err, p)
			}
			c.Count("transfers by pipe")
		}
		if bad != "" {
			c.Fail("within", "%s: %s\nvalue %s", e.Name, bad, hx(enc))
		}
	})
	// absolute reference: after everything above, the definitions still agree with the model
	perType(r, "afterwards", es, r.N(2, 8), "the definitions used by all histories, against the model", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		v := value(c, e, k, 200)
		enc := encodes(c, e, d, v)
		if c.Failed() {
			return
		}
		w := reflect.New(e.T).Elem()
		if err, p := sut.Decode(enc, ptr(w), d.S); err != nil || p != nil || !e.N.Equal(v, w) {
			c.Fail("afterwards", "%s: %v %v", e.Name, err, p)
		}
		if x, p := sut.Root(sha, ptr(v), d.S); p != nil || x != e.N.Root(ref.Sha, v) {
			c.Fail("afterwards", "%s: root %x %v", e.Name, x, p)
		}
	})
	r.Need("operations that failed", 5000)
	r.Need("operations that panicked", 2000)
	r.Need("repeated later", 5000)
	r.Need("operations on values changed in place", 10000)
	r.Need("operations within operations", 3000)
}

// inWriter, inReader and inHash do something else whenever they are used

type inWriter struct {
	bytes.Buffer
	f func()
}

func (w *inWriter) Write(b []byte) (int, error) { w.f(); return w.Buffer.Write(b) }

type inReader struct {
	b    []byte
	f    func()
	step int
}

func (r *inReader) Read(p []byte) (int, error) {
	r.f()
	if len(r.b) == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.step)], r.b)
	r.b = r.b[n:]
	return n, nil
}

type inHash struct{ f func() }

func (h inHash) Combi(a, b [32]byte) [32]byte        { h.f(); return sha.Combi(a, b) }
func (h inHash) MixIn(a [32]byte, i uint64) [32]byte { h.f(); return sha.MixIn(a, i) }
