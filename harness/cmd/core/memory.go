package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"verif/harness/gen"
	"verif/harness/mem"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C06"] = c06
	props["C16"] = c16
	props["C25"] = c25
}

const canaryLen = 72

// arena is a destination between two canaries.
func arena(e *uni.Entry) (all, v reflect.Value) {
	t := reflect.StructOf([]reflect.StructField{
		{Name: "Pre", Type: reflect.TypeOf([canaryLen]byte{})},
		{Name: "V", Type: e.T},
		{Name: "Post", Type: reflect.TypeOf([canaryLen]byte{})},
	})
	all = reflect.New(t).Elem()
	for i := 0; i < canaryLen; i++ {
		all.Field(0).Index(i).SetUint(uint64(0xA0 + i))
		all.Field(2).Index(i).SetUint(uint64(0x50 + i))
	}
	return all, all.Field(1)
}

// small types only: dynamic struct types are never freed
func compact(es []*uni.Entry) []*uni.Entry {
	return uni.Filter(es, func(e *uni.Entry) bool { return e.T.Size() < 6000 })
}

func c06(r *mon.Run) {
	es := compact(uni.All(r.Seed, r.N(60, 400)))
	if r.Config != "plain" {
		es = uni.All(r.Seed, r.N(60, 400))
	}
	perType(r, "decode", es, r.N(14, 90), "fresh and filled destinations between canaries, with spare capacity and neighbours behind every list", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		all, v := arena(e)
		var arrays []reflect.Value
		if k%3 != 0 {
			gen.New(c.R, mode(k), budget(c, 30, 150)).Fill(e.N, v)
			arrays = gen.Slacken(c.R, e.N, v)
			c.Count("filled destination")
		} else {
			c.Count("fresh destination")
		}
		gen.FillOmitted(c.R, v)
		var before []mem.Range
		before = mem.Allowed(e.N, v, before)
		s := mem.Snap(all, arrays...)
		c.CountN("blocks watched", int64(s.Blocks()))
		c.CountN("bytes watched", int64(s.Bytes()))
		fuzz := c.R.IntN(6) == 0
		var in []byte
		kind := "valid"
		if fuzz {
			l, _ := sut.LensOf(d.S)
			in = make([]byte, min(int(l.FuzzMin)+c.R.IntN(80), 3000))
			gen.FillBytes(c.R, in)
			kind = "fuzz mode"
		} else if c.R.IntN(2) == 0 {
			in = e.N.Encode(gen.New(c.R, mode(c.R.IntN(7)), budget(c, 30, 150, 400)).Value(e.N))
		} else {
			in, kind = gen.Hostile(c.R, e.N, budget(c, 120))
		}
		keep := append([]byte(nil), in...)
		rd := &spy.Reader{Data: in, R: c.R}
		if c.R.IntN(3) == 0 {
			rd.Max = 5
		}
		var err error
		var p *sut.Panic
		if fuzz {
			_, err, p = sut.FuzzFrom(rd, uint64(len(in)), ptr(v), d.S)
		} else {
			err, p = sut.DecodeFrom(rd, uint64(len(in)), ptr(v), d.S)
		}
		c.Eval(evid(e, keep))
		if p != nil {
			c.Fail("panics", "%s (%s): %v\ninput %s", e.Name, kind, p, hx(in))
			return
		}
		allowed := mem.Allowed(e.N, v, nil)
		if err != nil {
			allowed = append(allowed, before...)
			c.Count("after a failed decode")
		} else {
			c.Count("after a successful decode")
		}
		if x := s.Changed(allowed); x != "" {
			c.Fail("stray-write", "%s (%s, err=%v): memory outside the destination's own fields: %s\ninput %s", e.Name, kind, err, x, hx(keep))
			return
		}
		if !bytes.Equal(in, keep) {
			c.Fail("input-changed", "%s (%s): the input was changed", e.Name, kind)
		}
		runtime.KeepAlive(arrays)
		c.Sample("%s (%s): err=%v, %d blocks with %d bytes watched, no stray write", e.Name, kind, err, s.Blocks(), s.Bytes())
	})
	// the dry check has no destination at all: it only has to leave the input alone
	perType(r, "dry", es, r.N(1, 4), "dry check leaves the input alone", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		in, _ := gen.Hostile(c.R, e.N, budget(c, 120))
		keep := append([]byte(nil), in...)
		_, p := sut.Dry(in, d.S)
		c.Eval(evid(e, keep))
		if p != nil || !bytes.Equal(in, keep) {
			c.Fail("dry", "%s: dry check panics or changes its input: %v", e.Name, p)
		}
	})
	r.Need("after a successful decode", 3000)
	r.Need("after a failed decode", 2000)
	r.Need("filled destination", 3000)
}

// results of the reading operations, for comparison
type readings struct {
	enc    []byte
	encN   int
	size   uint64
	root   [32]byte
	sign   [32]byte
	pretty string
}

func (a readings) diff(b readings) string {
	switch {
	case !bytes.Equal(a.enc, b.enc):
		return "encoding: " + firstDiff(a.enc, b.enc)
	case a.encN != b.encN:
		return fmt.Sprintf("count: %d and %d", a.encN, b.encN)
	case a.size != b.size:
		return fmt.Sprintf("size: %d and %d", a.size, b.size)
	case a.root != b.root:
		return fmt.Sprintf("root: %x and %x", a.root, b.root)
	case a.sign != b.sign:
		return fmt.Sprintf("signing root: %x and %x", a.sign, b.sign)
	case a.pretty != b.pretty:
		return "pretty: " + firstDiff([]byte(a.pretty), []byte(b.pretty))
	}
	return ""
}

func readAll(val any, d *sut.Def) (x readings, p *sut.Panic) {
	var err error
	if x.enc, x.encN, err, p = sut.Encode(val, d.S); p != nil {
		return
	}
	if err != nil {
		p = &sut.Panic{Val: err}
		return
	}
	if x.size, p = sut.SizeOf(val, d.S); p != nil {
		return
	}
	if x.root, p = sut.Root(sha, val, d.S); p != nil {
		return
	}
	if s, ok := d.S.(signed); ok {
		if x.sign, p = sut.SigningRoot(sha, val, s); p != nil {
			return
		}
	}
	x.pretty, p = sut.Pretty(" ", val, d.S)
	return
}

func c16(r *mon.Run) {
	es := compact(universe(r))
	perType(r, "read", es, r.N(12, 90), "memory snapshot around random sequences of reading operations", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		all, v := arena(e)
		gen.New(c.R, mode(k), budget(c, 40, 200, 700)).Fill(e.N, v)
		arrays := gen.Slacken(c.R, e.N, v)
		alias(c, e, v)
		gen.FillOmitted(c.R, v)
		s := mem.Snap(all, arrays...)
		c.CountN("bytes watched", int64(s.Bytes()))
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		first, p := readAll(ptr(v), d)
		if p != nil {
			c.Fail("panics", "%s: %v", e.Name, p)
			return
		}
		look := func(what string) bool {
			if x := s.Changed(nil); x != "" {
				c.Fail("value-changed", "%s: %s changed memory of the value: %s\nvalue %s", e.Name, what, x, hx(enc))
				return false
			}
			return true
		}
		if !look("encode, size, root, signing root or pretty") {
			return
		}
		for i := 0; i < 6; i++ {
			what := ""
			bad := ""
			switch c.R.IntN(7) {
			case 0:
				what = "failing encode"
				w := &spy.Writer{Limit: c.R.IntN(len(enc) + 1), Style: c.R.IntN(3), Err: spy.ErrInjected}
				sut.EncodeTo(w, ptr(v), d.S)
				if w.Failed() {
					c.Count("encodings failed part-way")
				}
			case 1:
				what = "encode"
				b, n, err, p := sut.Encode(ptr(v), d.S)
				if err != nil || p != nil || n != first.encN || !bytes.Equal(b, first.enc) {
					bad = fmt.Sprint(err, p, firstDiff(b, first.enc))
				}
			case 2:
				what = "size"
				n, p := sut.SizeOf(ptr(v), d.S)
				if n != first.size || p != nil {
					bad = fmt.Sprint(n, p)
				}
			case 3:
				what = "root"
				x, p := sut.Root(sha, ptr(v), d.S)
				if x != first.root || p != nil {
					bad = fmt.Sprintf("%x %v", x, p)
				}
			case 4:
				what = "pretty"
				x, p := sut.Pretty(" ", ptr(v), d.S)
				if x != first.pretty || p != nil {
					bad = fmt.Sprint(firstDiff([]byte(x), []byte(first.pretty)), p)
				}
			case 5:
				what = "signing root"
				if sg, ok := d.S.(signed); ok {
					x, p := sut.SigningRoot(sha, ptr(v), sg)
					if x != first.sign || p != nil {
						bad = fmt.Sprintf("%x %v", x, p)
					}
				}
			case 6:
				what = "failing root"
				n := c.R.IntN(20)
				_, p := sut.Root(panicHash{&n}, ptr(v), d.S)
				if p != nil {
					c.Count("roots failed part-way")
				}
			}
			if bad != "" {
				c.Fail("not-repeatable", "%s: %s gave another result than the first time: %s\nvalue %s", e.Name, what, bad, hx(enc))
				return
			}
			c.Count("op: " + what)
			if !look(what) {
				return
			}
		}
		runtime.KeepAlive(arrays)
		c.Sample("%s: %d bytes watched, unchanged", e.Name, s.Bytes())
	})
	brims(r, "brim", r.N(60, 600), func(c *mon.Case, e *uni.Entry, v reflect.Value) {
		d := def(c, e)
		if d == nil {
			return
		}
		s := mem.Snap(v)
		c.CountN("bytes watched", int64(s.Bytes()))
		c.Eval(evid(e, e.N.Encode(v)))
		b, n, err, p := sut.Encode(ptr(v), d.S)
		sz, p2 := sut.SizeOf(ptr(v), d.S)
		x, p3 := sut.Root(sha, ptr(v), d.S)
		if err != nil || p != nil || p2 != nil || p3 != nil {
			c.Fail("panics", "%s: %v %v %v %v", e.Name, err, p, p2, p3)
			return
		}
		if x := s.Changed(nil); x != "" {
			c.Fail("value-changed", "%s (large): encode, size or root changed memory of the value: %s", e.Name, x)
			return
		}
		b2, n2, err, _ := sut.Encode(ptr(v), d.S)
		x2, _ := sut.Root(sha, ptr(v), d.S)
		if err != nil || n2 != n || !bytes.Equal(b, b2) || x != x2 || sz != uint64(n) {
			c.Fail("not-repeatable", "%s (large): the second time other results: %v, counts %d and %d, size %d, roots %x and %x; %s", e.Name, err, n, n2, sz, x, x2, firstDiff(b, b2))
		}
	})
	if !strings.HasPrefix(r.Config, "mips") { // no memory protection there
		frozen(r, universe(r))
	}
	r.Need("encodings failed part-way", 1000)
	r.Need("roots failed part-way", 500)
}

// frozen puts values into memory that cannot be written, even for a moment.
func frozen(r *mon.Run, es []*uni.Entry) {
	perType(r, "frozen", es, r.N(6, 40), "reading operations on values in write-protected memory that ends at an inaccessible page", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		v := reflect.New(e.T).Elem()
		gen.New(c.R, mode(k), budget(c, 40, 200, 700)).Fill(e.N, v)
		gen.FillOmitted(c.R, v)
		f, err := mem.Freeze(c.R, v) // before anything has read the value, and so could have changed it
		if err != nil {
			panic(err)
		}
		defer f.Release()
		want, p := readAll(ptr(v), d)
		c.Eval(evid(e, want.enc))
		if p != nil {
			c.Fail("panics", "%s: %v", e.Name, p)
			return
		}
		c.CountN("bytes write-protected", int64(f.Bytes()))
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		got, p := readAll(ptr(f.V), d)
		if p == nil {
			w := &spy.Writer{Limit: c.R.IntN(len(want.enc) + 1), Style: c.R.IntN(3), Err: spy.ErrInjected}
			_, _, p = sut.EncodeTo(w, ptr(f.V), d.S)
		}
		if p == nil {
			n := c.R.IntN(20)
			if _, q := sut.Root(panicHash{&n}, ptr(f.V), d.S); q != nil {
				if _, ok := q.Val.(string); !ok {
					p = q
				}
			}
		}
		if p != nil {
			at := ""
			if x, ok := p.Val.(interface{ Addr() uintptr }); ok {
				at = " at an address " + f.Where(x.Addr())
			}
			c.Fail("write-protected", "%s: a reading operation on a value in write-protected memory fails%s: %v\nvalue %s", e.Name, at, p, hx(want.enc))
			return
		}
		if x := want.diff(got); x != "" {
			c.Fail("not-repeatable", "%s: other results for a copy of the value: %s\nvalue %s", e.Name, x, hx(want.enc))
			return
		}
		runtime.KeepAlive(v)
		c.Sample("%s: %d write-protected bytes, never written", e.Name, f.Bytes())
	})
}

// panicHash fails (by panicking) after a number of uses.
type panicHash struct{ left *int }

func (h panicHash) Combi(a, b [32]byte) [32]byte { h.use(); return sha.Combi(a, b) }
func (h panicHash) MixIn(a [32]byte, i uint64) [32]byte {
	h.use()
	return sha.MixIn(a, i)
}
func (h panicHash) use() {
	if *h.left--; *h.left < 0 {
		panic("injected: hash function fails")
	}
}

var sink atomic.Pointer[[]byte]

func c25(r *mon.Run) {
	es := universe(r)
	perType(r, "disjoint", es, r.N(8, 60), "address ranges of several decoded values and the input; overwriting the input; changing one value", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		in := e.N.Encode(value(c, e, k, budget(c, 60, 300)))
		keep := append([]byte(nil), in...)
		var vs []reflect.Value
		var rs []mem.Range
		if len(in) > 0 {
			rs = append(rs, mem.Range{Lo: reflect.ValueOf(in).Pointer(), Hi: reflect.ValueOf(in).Pointer() + uintptr(cap(in))})
		}
		for i := 0; i < 3; i++ {
			v := reflect.New(e.T).Elem()
			var err error
			var p *sut.Panic
			switch i {
			case 0:
				err, p = sut.Decode(in, ptr(v), d.S)
			case 1: // a source that hands out its memory where it can
				err, p = sut.DecodeFrom(bytes.NewBuffer(in), uint64(len(in)), ptr(v), d.S)
			default:
				err, p = sut.DecodeFrom(&spy.Reader{Data: in, R: c.R, Max: 7}, uint64(len(in)), ptr(v), d.S)
			}
			if err != nil || p != nil {
				c.Fail("decode", "%s: %v %v\ninput %s", e.Name, err, p, hx(in))
				return
			}
			vs = append(vs, v)
			if e.T.Size() > 0 {
				rs = append(rs, mem.Own(v))
			}
			rs = mem.Reach(e.N, v, rs)
		}
		c.Eval(evid(e, in))
		c.CountN("ranges compared", int64(len(rs)))
		if a, b, found := mem.Overlap(rs); found {
			c.Fail("shared-memory", "%s: two parts of decoded values (or the input) share memory: %x-%x and %x-%x\ninput %s", e.Name, a.Lo, a.Hi, b.Lo, b.Hi, hx(in))
			return
		}
		for i := range in {
			in[i] ^= 0xff
		}
		// change the first value everywhere, and decode something else with the same definition
		other := gen.New(c.R, gen.Random, 200).Value(e.N)
		ob := e.N.Encode(other)
		scramble(vs[0], e.N)
		sut.Decode(ob, ptr(vs[0]), d.S)
		sut.Decode(ob, ptr(reflect.New(e.T).Elem()), d.S)
		for i := 1; i < 3; i++ {
			if b := e.N.Encode(vs[i]); !bytes.Equal(b, keep) {
				c.Fail("value-disturbed", "%s: value %d changed after overwriting the input, changing another value, decoding again: %s\ninput %s", e.Name, i, firstDiff(b, keep), hx(keep))
				return
			}
		}
		c.Sample("%s: %d address ranges of 3 decoded values and the input are disjoint", e.Name, len(rs))
	})
	// values kept across collections, while garbage is made and freed memory is overwritten
	// (the driver sets GODEBUG=clobberfree=1 and a small GOGC for this configuration)
	if r.Config == "gc" {
		stop := make(chan struct{})
		done := make(chan struct{})
		var cycles atomic.Int64
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
					cycles.Add(1)
					runtime.Gosched()
				}
			}
		}()
		type kept struct {
			e   *uni.Entry
			v   reflect.Value
			enc []byte
		}
		ring := make([][]kept, r.Workers)
		check := func(c *mon.Case, k kept) bool {
			if b := k.e.N.Encode(k.v); !bytes.Equal(b, k.enc) {
				c.Fail("lost-memory", "%s: a decoded value changed while it was only kept: %s\nencoding %s", k.e.Name, firstDiff(b, k.enc), hx(k.enc))
				return false
			}
			return true
		}
		perType(r, "collections", es, r.N(8, 60), "decoded values kept and re-read across forced collections", func(c *mon.Case, e *uni.Entry, k int) {
			d := def(c, e)
			if d == nil {
				return
			}
			enc := e.N.Encode(gen.New(c.R, mode(k), budget(c, 60, 300, 1000)).Value(e.N))
			v := reflect.New(e.T).Elem()
			rd := &spy.Reader{Data: enc, R: c.R, GC: c.R.IntN(20) == 0, Yield: true, Max: 64}
			err, p := sut.DecodeFrom(rd, uint64(len(enc)), ptr(v), d.S)
			c.Eval(evid(e, enc))
			if err != nil || p != nil {
				c.Fail("decode", "%s: %v %v\ninput %s", e.Name, err, p, hx(enc))
				return
			}
			for i := 0; i < 20; i++ { // garbage of the same sizes
				x := make([]byte, 8<<c.R.IntN(8))
				for j := range x {
					x[j] = 0xdb
				}
				sink.Store(&x)
			}
			ring[c.Worker] = append(ring[c.Worker], kept{e, v, enc})
			if len(ring[c.Worker]) > 64 {
				i := c.R.IntN(len(ring[c.Worker]))
				old := ring[c.Worker][i]
				if !check(c, old) {
					return
				}
				c.Count("kept values re-read")
				// reading operations while everything else is collected
				b, _, err, p := sut.EncodeTo2(&spy.Writer{Limit: -1, R: c.R, GC: c.R.IntN(20) == 0, Yield: true}, ptr(old.v), defOf(old.e).S)
				if err != nil || p != nil || !bytes.Equal(b, old.enc) {
					c.Fail("lost-memory", "%s: encoding a kept value: %v %v %s", old.e.Name, err, p, firstDiff(b, old.enc))
					return
				}
				ring[c.Worker][i] = ring[c.Worker][len(ring[c.Worker])-1]
				ring[c.Worker] = ring[c.Worker][:len(ring[c.Worker])-1]
			}
			// temporaries that only the library holds while it works
			b, _, err, p := sut.EncodeTo2(&spy.Writer{Limit: -1, R: c.R, Yield: true}, temp(e, enc), d.S)
			if err != nil || p != nil || !bytes.Equal(b, enc) {
				c.Fail("lost-memory", "%s: encoding a temporary: %v %v %s", e.Name, err, p, firstDiff(b, enc))
				return
			}
			root, p := sut.Root(sha, temp(e, enc), d.S)
			if p != nil || root != e.N.Root(ref.Sha, v) {
				c.Fail("lost-memory", "%s: root of a temporary %v", e.Name, p)
			}
		})
		close(stop)
		<-done
		r.Count("forced collections", cycles.Load())
		r.Need("forced collections", 50)
		r.Need("kept values re-read", 1000)
	}
}

func defOf(e *uni.Entry) *sut.Def {
	d, _, _ := sut.Get(e.T)
	return d
}

// temp decodes with the reference into a value nobody else refers to.
func temp(e *uni.Entry, enc []byte) any {
	v := reflect.New(e.T)
	if err := e.N.Decode(enc, v.Elem()); err != nil {
		panic(err)
	}
	return v.Interface()
}

// scramble overwrites everything a value holds, in place, up to the capacities.
func scramble(v reflect.Value, n *ref.Node) {
	switch n.K {
	case ref.KBool:
		v.SetBool(!v.Bool())
	case ref.KUint:
		v.SetUint(^v.Uint() & (^uint64(0) >> (64 - 8*n.Size)))
	case ref.KPtr:
		if !v.IsNil() {
			scramble(v.Elem(), n.Elem)
		}
	case ref.KBitvector:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(v.Index(i).Uint() ^ 0xff)
		}
	case ref.KBitlist:
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(v.Index(i).Uint() ^ 0xff)
		}
	case ref.KList:
		l := v.Len()
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			if i < l || n.Elem.IsBasic() {
				scramble(v.Index(i), n.Elem)
			}
		}
	case ref.KVector:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), n.Elem)
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			scramble(ref.Sub(v, f.Index), f.Node)
		}
	}
}
