package main

import (
	"bytes"
	"encoding/binary"
	"reflect"
	"runtime"
	"syscall"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C05"] = c05
	props["C13"] = c13
}

// nodes of a type, vectors counted with their lengths: the work that does not depend on the input
func weight(n *ref.Node) int {
	w := 1
	switch n.K {
	case ref.KVector:
		if n.Elem.IsBasic() {
			return 1 + int(n.N)
		}
		w += int(n.N) * weight(n.Elem)
	case ref.KPtr:
		w += weight(n.Elem)
	case ref.KContainer:
		for _, f := range n.Fields {
			w += weight(f.Node)
		}
	}
	return min(w, 1<<24)
}

// mem per encoded byte at worst: the Go sizes of everything below a list
func memFactor(n *ref.Node) int {
	f := 0
	n.Walk(func(m *ref.Node) {
		if m.K == ref.KList || m.K == ref.KBitlist || m.K == ref.KPtr {
			f += int(m.T.Elem().Size()) + 32
		}
	})
	return 128 + 4*f
}

type hostileCall struct {
	what string
	err  error
	p    *sut.Panic
	rd   *spy.Reader
}

// callHostile does one of the decoding operations on a claimed length and a source.
func callHostile(op int, e *uni.Entry, d *sut.Def, src []byte, claim uint64, dst reflect.Value) (h hostileCall) {
	h.rd = &spy.Reader{Data: src, Runaway: 256 + 8*len(src) + 8*weight(e.N)}
	switch op {
	case 0:
		h.what = "decode"
		h.err, h.p = sut.DecodeFrom(h.rd, claim, ptr(dst), d.S)
	case 1:
		h.what = "dry check"
		h.err, h.p = sut.DryFrom(h.rd, claim, d.S)
	case 2:
		h.what = "fuzz decode"
		_, h.err, h.p = sut.FuzzFrom(h.rd, claim, ptr(dst), d.S)
	}
	return
}

func threadCPU() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec) + float64(u.Utime.Usec)/1e6 + float64(u.Stime.Sec) + float64(u.Stime.Usec)/1e6
}

// claims a hostile length for a source of the given size
func claims(c *mon.Case, e *uni.Entry, have int) uint64 {
	small := e.N.MaxLen().BitLen() <= 20
	switch x := c.R.IntN(8); {
	case x == 0:
		return uint64(c.R.IntN(have + 1))
	case x == 1:
		return uint64(have + 1 + c.R.IntN(16))
	case x == 2:
		return uint64(c.R.IntN(1 << 16))
	case x == 3 && e.N.MaxLen().BitLen() <= 22:
		return e.N.MaxLen().Uint64() + uint64(c.R.IntN(3))
	case x <= 5 && small:
		return []uint64{1 << 26, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 4, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 8, ^uint64(0) - 7, ^uint64(0) - 3, ^uint64(0) - 1, ^uint64(0)}[c.R.IntN(14)]
	case x == 6:
		return uint64(have)
	}
	return uint64(1) << c.R.IntN(24)
}

func c05(r *mon.Run) {
	es := universe(r)
	judge := func(c *mon.Case, e *uni.Entry, h hostileCall, in []byte, claim uint64) bool {
		c.Count("calls: " + h.what)
		c.CountMax("most source reads in one call", int64(h.rd.Calls))
		if h.err == nil && h.p == nil {
			c.Count("results: accepted")
		} else {
			c.Count("results: error")
		}
		if h.p != nil {
			if _, ok := h.p.Val.(spy.ErrRunaway); ok {
				c.Fail("runaway-reads", "%s: %s of %d bytes (claimed %d) reads without end: %v\ninput %s", e.Name, h.what, len(in), claim, h.p, hx(in))
			} else {
				c.Fail("panics", "%s: %s of %d bytes (claimed %d) panics: %v\ninput %s", e.Name, h.what, len(in), claim, h.p, hx(in))
			}
			return false
		}
		return true
	}
	used := func(c *mon.Case, e *uni.Entry) reflect.Value {
		v := reflect.New(e.T).Elem()
		if c.R.IntN(3) == 0 {
			g := gen.New(c.R, gen.Random, 60)
			g.NilPtr = true
			g.Slack = true
			g.Fill(e.N, v)
		}
		return v
	}
	// long valid-looking inputs: quadratic behaviour or memory far above the input shows here
	long := bigTypes(uni.Filter(es, func(e *uni.Entry) bool { return e.T.Name() != "" }), 1<<16)
	runtime.GC()
	r.Serial("memory", len(es)*r.N(6, 40), "allocated bytes, thread CPU time and reads of single calls, one at a time", func(c *mon.Case) {
		e := es[c.Idx%len(es)]
		budget := budget(c, 20, 60, 300)
		if c.R.IntN(40) == 0 {
			e, budget = long[c.R.IntN(len(long))], 100000
		}
		d := def(c, e)
		if d == nil {
			return
		}
		var in []byte
		switch c.R.IntN(4) {
		case 0: // offsets and lengths as large as they get
			in = make([]byte, min(int(e.N.MinLen().Uint64()), 4096)+c.R.IntN(budget+1))
			for i := range in {
				in[i] = 0xff
			}
			if len(in) >= 4 && c.R.IntN(2) == 0 {
				copy(in[c.R.IntN(len(in)-3):], []byte{0xfc, 0xff, 0xff, byte(c.R.IntN(256))})
			}
		default:
			in, _ = gen.Hostile(c.R, e.N, budget)
		}
		claim := uint64(len(in))
		if c.R.IntN(2) == 0 {
			claim = claims(c, e, len(in))
			// a first offset in line with the claim makes element counts as large as they get
			if !e.N.Fixed() && len(in) >= 4 && claim < 1<<32 && c.R.IntN(2) == 0 {
				o := uint32(claim) &^ 3
				in[0], in[1], in[2], in[3] = byte(o), byte(o>>8), byte(o>>16), byte(o>>24)
			}
		}
		c.Eval(mon.Hash(e.Name, claim, mon.HashBytes(in)))
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		for op := 0; op < 3; op++ {
			dst := reflect.New(e.T).Elem()
			need := claim
			if op == 2 {
				if l, p := sut.LensOf(d.S); p == nil && l.FuzzMax < need && e.N.MaxLen().BitLen() < 56 {
					need = l.FuzzMax
				}
			} else if e.N.MaxLen().IsUint64() && e.N.MaxLen().Uint64() < need {
				need = e.N.MaxLen().Uint64()
			}
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			t0 := threadCPU()
			h := callHostile(op, e, d, in, claim, dst)
			t1 := threadCPU()
			runtime.ReadMemStats(&b)
			if !judge(c, e, h, in, claim) {
				return
			}
			got := b.TotalAlloc - a.TotalAlloc
			// what is claimed may be kept in memory, what is read may be read with a buffer for each part
			bound := 64<<10 + 4*uint64(e.T.Size()) + uint64(weight(e.N))*2048 + uint64(memFactor(e.N))*need + 1024*uint64(len(in))
			c.Count("allocations measured")
			c.CountMax("most bytes allocated by one call", int64(got))
			if bound > got {
				c.CountMax("closest to the bound, percent", int64(got*100/bound))
			}
			if got > bound {
				c.Fail("memory", "%s: %s of %d bytes (claimed %d) allocates %d bytes, more than %d (type size %d, longest encoding %v)\ninput %s", e.Name, h.what, len(in), claim, got, bound, e.T.Size(), e.N.MaxLen(), hx(in))
				return
			}
			if cpu := t1 - t0; cpu > 3 && need < 1<<22 {
				c.Fail("cpu", "%s: %s of %d bytes (claimed %d) takes %.1f s of CPU time\ninput %s", e.Name, h.what, len(in), claim, cpu, hx(in))
				return
			}
		}
	})
	heavies := heavyTypes()
	r.Serial("offsets of elements that cannot all be there", len(heavies)*r.N(40, 400), "lists of large elements of variable size whose bytes are too few for as many as there are offsets", func(c *mon.Case) {
		h := heavies[c.Idx%len(heavies)]
		d := def(c, h.e)
		if d == nil {
			return
		}
		// offsets only, in some of the ways that could get past checks of them alone
		n := 4 * (1 + c.R.IntN(4000))
		if c.R.IntN(3) == 0 {
			n = 4 * (1 + c.R.IntN(100))
		}
		in := make([]byte, 0, n+c.R.IntN(64))
		step := c.R.IntN(2) * c.R.IntN(8)
		for i := 0; i < n/4; i++ {
			in = binary.LittleEndian.AppendUint32(in, uint32(n+i*step))
		}
		if len(in) > 4 && c.R.IntN(2) == 0 {
			in = in[:len(in)-c.R.IntN(4)] // the last ones are missing
		}
		if m := c.R.IntN(3); m > 0 {
			in = append(in, make([]byte, c.R.IntN(n*m+1))...)
		}
		if h.nested { // within a container: an offset to it first
			in = append([]byte{4, 0, 0, 0}, in...)
		}
		claim := uint64(len(in))
		c.Eval(mon.Hash(h.e.Name, claim, mon.HashBytes(in)))
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		for op := 0; op < 2; op++ {
			dst := reflect.New(h.e.T).Elem()
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			x := callHostile(op, h.e, d, in, claim, dst)
			runtime.ReadMemStats(&b)
			if !judge(c, h.e, x, in, claim) {
				return
			}
			// elements that fit, three times over, and a few words for each byte
			fit := claim / uint64(h.min+4)
			got, bound := b.TotalAlloc-a.TotalAlloc, 256<<10+64*claim+uint64(h.mem)*(3*fit+8)
			c.Count("allocations measured")
			c.CountMax("closest to the bound of lists of large elements, percent", int64(got*100/bound))
			if got > bound {
				c.Fail("memory", "%s: %s of %d bytes, which hold no more than %d elements, allocates %d bytes, more than %d (an element takes %d)\ninput %s", h.e.Name, x.what, claim, fit, got, bound, h.mem, hx(in))
				return
			}
		}
	})
	if r.Violated() && !r.Replaying() {
		return // what allocates too much when called on its own ends the process when called by many
	}
	hostilePhases(r, es, r.N(12, 120), func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, kind string) {
		c.Eval(evid(e, in))
		for op := 0; op < 3; op++ {
			if kind == "exhaustive" && op != c.R.IntN(3) {
				continue
			}
			h := callHostile(op, e, d, in, uint64(len(in)), used(c, e))
			if !judge(c, e, h, in, uint64(len(in))) {
				return
			}
		}
	})
	perType(r, "claims", es, r.N(12, 120), "claimed lengths that are not the source's, up to 2^64-1", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		in, _ := gen.Hostile(c.R, e.N, budget(c, 20, 100))
		claim := claims(c, e, len(in))
		c.CountMax("largest claimed length, log2", int64(bitsOf(claim)))
		c.Eval(mon.Hash(e.Name, claim, mon.HashBytes(in)))
		for op := 0; op < 3; op++ {
			h := callHostile(op, e, d, in, claim, used(c, e))
			if !judge(c, e, h, in, claim) {
				return
			}
			if h.err == nil && h.rd.Pos > len(in) {
				c.Fail("overread", "%s: took %d of %d bytes", e.Name, h.rd.Pos, len(in))
			}
		}
		c.Sample("%s: %d bytes claimed to be %d: no panic", e.Name, len(in), claim)
	})
	r.Need("results: error", 30000)
	r.Need("results: accepted", 10000)
	r.Need("allocations measured", 3000)
}

func bitsOf(x uint64) int {
	n := 0
	for ; x > 0; x >>= 1 {
		n++
	}
	return n
}

// lists counts the non-empty lists in a value
func lists(n *ref.Node, v reflect.Value) (full int) {
	var ss []site
	sites(n, v, &ss)
	for _, s := range ss {
		if s.n.K == ref.KBitlist && s.v.Len() > 1 || s.n.K == ref.KList && s.v.Len() > 0 {
			full++
		}
	}
	return
}

func fuzzInput(c *mon.Case, n int) []byte {
	b := make([]byte, n)
	gen.FillBytes(c.R, b)
	switch c.R.IntN(8) {
	case 0:
		clear(b)
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3: // small numbers in many places
		for i := range b {
			if c.R.IntN(3) > 0 {
				b[i] = byte(c.R.IntN(4))
			}
		}
	case 4:
		for i := range b {
			if c.R.IntN(2) == 0 {
				b[i] = 0
			}
		}
	}
	return b
}

func c13(r *mon.Run) {
	es := universe(r)
	perType(r, "fuzz", es, r.N(40, 400), "inputs of the fuzz minimum length and longer", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		l, p := sut.LensOf(d.S)
		if p != nil {
			c.Fail("panic", "%s: %v", e.Name, p)
			return
		}
		if l.FuzzMin > 1<<20 {
			c.Fail("fuzz-min", "%s: fuzz minimum %d for a type of %d bytes in memory", e.Name, l.FuzzMin, e.T.Size())
			return
		}
		extra := []int{0, c.R.IntN(8), c.R.IntN(64), c.R.IntN(600), c.R.IntN(3000)}[c.R.IntN(5)]
		in := fuzzInput(c, int(l.FuzzMin)+extra)
		rd := &spy.Reader{Data: in, R: c.R, Runaway: 1 << 22}
		v := reflect.New(e.T).Elem()
		n, err, p := sut.FuzzFrom(rd, uint64(len(in)), ptr(v), d.S)
		c.Eval(evid(e, in))
		if p != nil || err != nil {
			c.Fail("fuzz-fails", "%s: %d bytes (fuzz minimum %d) fail: err=%v %v\ninput %s", e.Name, len(in), l.FuzzMin, err, p, hx(in))
			return
		}
		if n != uint64(rd.Pos) || n > uint64(len(in)) {
			c.Fail("fuzz-count", "%s: reports %d bytes consumed, took %d of %d\ninput %s", e.Name, n, rd.Pos, len(in), hx(in))
			return
		}
		if n < l.FuzzMin || (e.N.MaxLen().BitLen() <= 56 && n > l.FuzzMax) {
			c.Fail("fuzz-bounds", "%s: consumed %d, fuzz minimum %d, maximum %d\ninput %s", e.Name, n, l.FuzzMin, l.FuzzMax, hx(in))
			return
		}
		if n == l.FuzzMin {
			c.Count("consumed exactly the minimum")
		}
		if n == l.FuzzMax {
			c.Count("consumed exactly the maximum")
		}
		if err := e.N.Valid(v); err != nil {
			c.Fail("fuzz-invalid", "%s: not a valid value: %v\ninput %s", e.Name, err, hx(in))
			return
		}
		if f := lists(e.N, v); f > 0 {
			c.CountN("non-empty lists made", int64(f))
		}
		want := e.N.Encode(v)
		enc, _, err, p := sut.Encode(ptr(v), d.S)
		if p != nil || err != nil || !bytes.Equal(enc, want) {
			c.Fail("fuzz-encode", "%s: value from fuzz mode does not encode: %v %v %s", e.Name, err, p, firstDiff(enc, want))
			return
		}
		w := reflect.New(e.T).Elem()
		if err, p := sut.Decode(enc, ptr(w), d.S); err != nil || p != nil || !e.N.Equal(v, w) {
			c.Fail("fuzz-decode", "%s: value from fuzz mode does not survive encoding and decoding: %v %v\nencoding %s", e.Name, err, p, hx(enc))
			return
		}
		if root, p := sut.Root(sha, ptr(v), d.S); p != nil || root != e.N.Root(ref.Sha, v) {
			c.Fail("fuzz-root", "%s: value from fuzz mode does not hash: %x %v\nencoding %s", e.Name, root, p, hx(enc))
			return
		}
		c.Sample("%s: %d bytes, %d consumed, valid value of %d encoded bytes", e.Name, len(in), n, len(enc))
		// shorter input gives an error, whatever is in the source
		if l.FuzzMin > 0 {
			short := int(l.FuzzMin) - 1 - c.R.IntN(int(min(l.FuzzMin, 9)))
			src := in
			if c.R.IntN(2) == 0 {
				src = in[:max(short, 0)]
			}
			_, err, p := sut.FuzzFrom(bytes.NewReader(src), uint64(max(short, 0)), ptr(reflect.New(e.T).Elem()), d.S)
			c.Count("shorter inputs tried")
			if p != nil || err == nil {
				c.Fail("fuzz-short", "%s: %d bytes are accepted, fuzz minimum is %d (%v)", e.Name, short, l.FuzzMin, p)
			}
		}
	})
	dyn := uni.Filter(es, func(e *uni.Entry) bool {
		n := e.N
		for n.K == ref.KPtr {
			n = n.Elem
		}
		return (n.K == ref.KList || n.K == ref.KBitlist) && n.Limit >= 20
	})
	perType(r, "spread", dyn, 1, "the lengths that lists get from 40 random inputs", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		elem := uint64(1)
		v := reflect.New(e.T).Elem()
		n := e.N
		for n.K == ref.KPtr {
			n = n.Elem
		}
		if n.K == ref.KList {
			x, err, p := sut.New(n.Elem.T)
			if p != nil || err != nil || x == nil {
				return
			}
			elem = max(x.FuzzMinLen(), 1)
		}
		if elem > 1<<14 {
			return
		}
		seen := map[int]bool{}
		for i := 0; i < 40; i++ {
			in := make([]byte, 8+20*elem)
			gen.FillBytes(c.R, in)
			v.SetZero()
			if _, err, p := sut.FuzzFrom(bytes.NewReader(in), uint64(len(in)), ptr(v), d.S); err != nil || p != nil {
				c.Fail("fuzz-fails", "%s: %v %v\ninput %s", e.Name, err, p, hx(in))
				return
			}
			w := v
			for w.Kind() == reflect.Ptr {
				w = w.Elem()
			}
			l := w.Len()
			seen[l] = true
		}
		c.Eval(mon.Hash("spread", e.Name))
		if len(seen) < 2 {
			c.Fail("fuzz-spread", "%s: 40 random inputs all give lists of one length, %v", e.Name, seen)
		}
		c.Count("types whose lengths were collected")
		c.CountMax("most lengths of one type", int64(len(seen)))
	})
	r.Need("types whose lengths were collected", 100)
	r.Need("non-empty lists made", 20000)
	r.Need("shorter inputs tried", 10000)
	r.Need("consumed exactly the minimum", 1000)
	r.Need("consumed exactly the maximum", 1000)
}

type (
	heavyBytes []byte
	heavyA     struct {
		A [512]uint64
		B heavyBytes
	}
	heavyB struct {
		B heavyBytes
		A [1 << 16]byte
	}
	heavyD struct {
		A [40]uint64
		B [10]heavyE
		C heavyBytes
	}
	heavyE struct {
		A [3]uint16
		B *[100]uint64
		C *heavyBytes
	}
	heavyAs  []heavyA
	heavyBs  []heavyB
	heavyVs  [][100]heavyE
	heavyDs  []heavyD
	heavyIn  struct{ L heavyAs }
	heavyIn2 struct{ L heavyVs }
)

func (heavyBytes) Limit() uint64 { return 1 << 30 }
func (heavyAs) Limit() uint64    { return 1 << 40 }
func (heavyBs) Limit() uint64    { return 1 << 20 }
func (heavyVs) Limit() uint64    { return 1 << 32 }
func (heavyDs) Limit() uint64    { return 1 << 62 }

type heavyType struct {
	e        *uni.Entry
	min, mem int  // of an element: its shortest encoding, its memory
	nested   bool // in a container
}

func heavyTypes() (out []heavyType) {
	for _, x := range []any{heavyAs{}, heavyBs{}, heavyVs{}, heavyDs{}, heavyIn{}, heavyIn2{}} {
		t := reflect.TypeOf(x)
		n, err := ref.Of(t)
		if err != nil {
			panic(err)
		}
		h := heavyType{e: &uni.Entry{Name: t.Name(), T: t, N: n}}
		if n.K == ref.KContainer {
			h.nested, n = true, n.Fields[0].Node
		}
		h.min, h.mem = int(n.Elem.MinLen().Uint64()), int(n.Elem.T.Size())+pointeesMem(n.Elem)
		out = append(out, h)
	}
	return
}

// pointeesMem gives the memory of what pointers of a value point at, below no list
func pointeesMem(n *ref.Node) int {
	switch n.K {
	case ref.KPtr:
		return 32 + int(n.Elem.T.Size()) + pointeesMem(n.Elem)
	case ref.KVector:
		return int(n.N) * pointeesMem(n.Elem)
	case ref.KContainer:
		m := 0
		for _, f := range n.Fields {
			m += pointeesMem(f.Node)
		}
		return m
	}
	return 0
}
