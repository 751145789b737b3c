package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"

	"verif/harness/gen"
	"verif/harness/mem"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C14"] = c14
	props["C15"] = c15
}

// sameReadings compares what two definitions say about two values of the same meaning.
func sameReadings(v, w any, d, f *sut.Def) string {
	a, n1, err, p := sut.Encode(v, d.S)
	b, n2, err2, p2 := sut.Encode(w, f.S)
	if err != nil || err2 != nil || p != nil || p2 != nil {
		return fmt.Sprintf("encoding fails: %v %v, twin: %v %v", err, p, err2, p2)
	}
	if !bytes.Equal(a, b) || n1 != n2 {
		return fmt.Sprintf("encodings differ: %s (counts %d, %d)\n%s\n%s", firstDiff(a, b), n1, n2, hx(a), hx(b))
	}
	x, p := sut.SizeOf(v, d.S)
	y, p2 := sut.SizeOf(w, f.S)
	if x != y || p != nil || p2 != nil {
		return fmt.Sprintf("sizes differ: %d %v, twin %d %v", x, p, y, p2)
	}
	r, p := sut.Root(sha, v, d.S)
	s, p2 := sut.Root(sha, w, f.S)
	if r != s || p != nil || p2 != nil {
		return fmt.Sprintf("roots differ: %x %v, twin %x %v\n%s", r, p, s, p2, hx(a))
	}
	sd, ok := d.S.(signed)
	sf, ok2 := f.S.(signed)
	if ok && ok2 {
		r, p := sut.SigningRoot(sha, v, sd)
		s, p2 := sut.SigningRoot(sha, w, sf)
		if r != s || p != nil || p2 != nil {
			return fmt.Sprintf("signing roots differ: %x %v, twin %x %v\n%s", r, p, s, p2, hx(a))
		}
	}
	return ""
}

func sameLens(d, f *sut.Def, fuzz bool, max bool) string {
	a, p := sut.LensOf(d.S)
	b, p2 := sut.LensOf(f.S)
	if p != nil || p2 != nil {
		return fmt.Sprintf("length bounds: %v, twin %v", p, p2)
	}
	if !fuzz {
		a.FuzzMin, a.FuzzMax, b.FuzzMin, b.FuzzMax = 0, 0, 0, 0
	}
	if !max {
		a.Max, b.Max, a.FuzzMax, b.FuzzMax = 0, 0, 0, 0
	}
	if a != b {
		return fmt.Sprintf("length bounds differ: %+v, twin %+v", a, b)
	}
	return ""
}

func c14(r *mon.Run) {
	all := uni.All(r.Seed, r.N(400, 2500))
	for _, e := range uni.Wide() { // far-off fields
		if !slow || e.T.Size() < 1<<17 {
			all = append(all, e)
		}
	}
	nested := uni.Filter(all, func(e *uni.Entry) bool { return uni.Nested(e.T) })
	flat := make([]*uni.Entry, len(nested))
	for i, e := range nested {
		flat[i] = uni.Twin(e, uni.Flatten)
	}
	r.Count("types with squashed, embedded or omitted fields", int64(len(nested)))
	inside := uni.Filter(all, func(e *uni.Entry) bool {
		return e.N.Has(func(m *ref.Node) bool { return m.K == ref.KContainer && uni.Nested(m.T) })
	})
	r.Phase("flattened", len(nested)*r.N(24, 200), "the struct with the inner fields written out, as a type of its own", func(c *mon.Case) {
		e, t := nested[c.Idx%len(nested)], flat[c.Idx%len(nested)]
		d, f := def(c, e), def(c, t)
		if d == nil || f == nil {
			return
		}
		if c.Idx < len(nested) {
			if x := sameLens(d, f, true, e.N.MaxLen().BitLen() <= 63); x != "" {
				c.Fail("lengths", "%s (%s): %s", e.Name, t.Name, x)
				return
			}
			c.Count("length bounds compared")
		}
		v := value(c, e, c.Idx/len(nested), budget(c, 60, 300, 1000))
		w := reflect.New(t.T).Elem()
		uni.Morph(e.N, v, t.N, w)
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		if x := sameReadings(ptr(v), ptr(w), d, f); x != "" {
			c.Fail("differs", "%s (%s): %s", e.Name, t.Name, x)
			return
		}
		c.Count("values compared")
		// the same inputs are accepted, with the same result
		for i := 0; i < 3; i++ {
			in, kind := gen.Hostile(c.R, e.N, budget(c, 60))
			a, b := reflect.New(e.T).Elem(), reflect.New(t.T).Elem()
			err, p := sut.Decode(in, ptr(a), d.S)
			err2, p2 := sut.Decode(in, ptr(b), f.S)
			dry, dp := sut.Dry(in, d.S)
			if p != nil || p2 != nil || dp != nil || (err == nil) != (err2 == nil) || (dry == nil) != (err2 == nil) {
				c.Fail("acceptance", "%s (%s): input (%s): decode %v %v, dry check %v %v, twin %v %v\n%s", e.Name, t.Name, kind, err, p, dry, dp, err2, p2, hx(in))
				return
			}
			if err == nil {
				c.Count("inputs both accept")
				if x, y := e.N.Encode(a), t.N.Encode(b); !bytes.Equal(x, y) {
					c.Fail("decoded", "%s (%s): decoded values differ: %s\ninput %s", e.Name, t.Name, firstDiff(x, y), hx(in))
					return
				}
			} else {
				c.Count("inputs both reject")
			}
		}
		l, _ := sut.LensOf(d.S)
		fz := fuzzInput(c, int(min(l.FuzzMin, 1<<20))+c.R.IntN(120))
		a, b := reflect.New(e.T).Elem(), reflect.New(t.T).Elem()
		n, err, p := sut.FuzzFrom(bytes.NewReader(fz), uint64(len(fz)), ptr(a), d.S)
		n2, err2, p2 := sut.FuzzFrom(bytes.NewReader(fz), uint64(len(fz)), ptr(b), f.S)
		if p != nil || p2 != nil || (err == nil) != (err2 == nil) || n != n2 || (err == nil && !bytes.Equal(e.N.Encode(a), t.N.Encode(b))) {
			c.Fail("fuzz", "%s (%s): fuzz mode: %d %v %v, twin %d %v %v\n%s", e.Name, t.Name, n, err, p, n2, err2, p2, hx(fz))
		}
		c.Sample("%s equals %s", e.Name, t.Name)
	})
	// within lists too, against the model (which flattens on its own)
	perType(r, "omitted", inside, r.N(24, 200), "contents of omitted fields: without influence, and left alone by decoding", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		v := gen.New(c.R, mode(k), budget(c, 60, 300)).Value(e.N)
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		bare, p := readAll(ptr(v), d)
		if p != nil {
			c.Fail("panics", "%s: %v", e.Name, p)
			return
		}
		if !bytes.Equal(bare.enc, enc) || bare.root != e.N.Root(ref.Sha, v) {
			c.Fail("differs", "%s: encoding or root is not that of the flattened struct: %s, root %x\n%s", e.Name, firstDiff(bare.enc, enc), bare.root, hx(enc))
			return
		}
		gen.FillOmitted(c.R, v)
		filled, p := readAll(ptr(v), d)
		if p != nil {
			c.Fail("panics", "%s: with contents in omitted fields: %v", e.Name, p)
			return
		}
		if x := bare.diff(filled); x != "" {
			c.Fail("influence", "%s: contents of omitted fields change the output: %s", e.Name, x)
			return
		}
		c.Count("outputs compared with omitted fields filled")
		// decoding leaves them alone: everything that is not an included field is watched
		s := mem.Snap(v)
		allowed := mem.Allowed(e.N, v, nil)
		var in []byte
		if c.R.IntN(3) > 0 {
			in = e.N.Encode(gen.New(c.R, gen.Random, 100).Value(e.N))
		} else {
			in, _ = gen.Hostile(c.R, e.N, budget(c, 80))
		}
		err, p := sut.Decode(in, ptr(v), d.S)
		if p != nil {
			c.Fail("panics", "%s: %v", e.Name, p)
			return
		}
		if x := s.Changed(append(allowed, mem.Allowed(e.N, v, nil)...)); x != "" {
			c.Fail("omitted-changed", "%s: decoding (err=%v) changed memory outside the included fields: %s\ninput %s", e.Name, err, x, hx(in))
			return
		}
		c.Count("decodes with omitted fields watched")
	})
	r.Need("inputs both accept", 2000)
	r.Need("inputs both reject", 2000)
	r.Need("decodes with omitted fields watched", 2000)
}

// pointers outside lists, by path: their targets must survive a decode
func pointees(n *ref.Node, v reflect.Value, path string, out map[string]uintptr) {
	switch n.K {
	case ref.KPtr:
		if !v.IsNil() {
			out[path] = v.Pointer()
			pointees(n.Elem, v.Elem(), path+"*", out)
		}
	case ref.KVector:
		if !n.Elem.IsBasic() {
			for i := 0; i < v.Len(); i++ {
				pointees(n.Elem, v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			pointees(f.Node, ref.Sub(v, f.Index), path+"."+f.Name+fmt.Sprint(f.Index), out)
		}
	}
}

func c15(r *mon.Run) {
	base := uni.Filter(uni.All(r.Seed, r.N(60, 300)), func(e *uni.Entry) bool { return e.T.Size() < 3000 })
	rnd := r.Rand("twins")
	type pair struct{ e, t *uni.Entry }
	var ps []pair
	for i := 0; i < r.N(3, 8); i++ {
		for _, e := range base {
			t := uni.Twin(e, func(t reflect.Type) reflect.Type { return uni.Pointerize(rand.New(rand.NewPCG(rnd.Uint64(), 1)), t) })
			if t.T != e.T {
				ps = append(ps, pair{e, t})
			}
		}
	}
	r.Count("pairs of types", int64(len(ps)))
	r.Phase("pointers", len(ps)*r.N(6, 40), "the same type with pointers put in at random positions", func(c *mon.Case) {
		e, t := ps[c.Idx%len(ps)].e, ps[c.Idx%len(ps)].t
		d, f := def(c, e), def(c, t)
		if d == nil || f == nil {
			return
		}
		if c.Idx < len(ps) {
			if x := sameLens(d, f, false, e.N.MaxLen().BitLen() <= 63); x != "" {
				c.Fail("lengths", "%s (%s): %s", e.Name, t.Name, x)
				return
			}
			c.Count("length bounds compared")
		}
		v := gen.New(c.R, mode(c.Idx/len(ps)), budget(c, 60, 300, 1000)).Value(e.N)
		w := reflect.New(t.T).Elem()
		uni.Morph(e.N, v, t.N, w)
		enc := e.N.Encode(v)
		c.Eval(mon.Hash(e.Name, t.Name, mon.HashBytes(enc)))
		if x := sameReadings(ptr(v), ptr(w), d, f); x != "" {
			c.Fail("differs", "%s (%s): %s", e.Name, t.Name, x)
			return
		}
		c.Count("values compared")
		for i := 0; i < 4; i++ {
			in, kind := enc, "its encoding"
			if i > 0 {
				in, kind = gen.Hostile(c.R, e.N, budget(c, 60))
			}
			a, b := reflect.New(e.T).Elem(), reflect.New(t.T).Elem()
			// a destination with some pointers nil and others not
			had := map[string]uintptr{}
			if c.R.IntN(2) == 0 {
				g := gen.New(c.R, gen.Random, 80)
				g.NilPtr = true
				g.Fill(t.N, b)
				pointees(t.N, b, "", had)
			} else {
				c.Count("decodes into nil pointers")
			}
			err, p := sut.Decode(in, ptr(a), d.S)
			err2, p2 := sut.Decode(in, ptr(b), f.S)
			dry, dp := sut.Dry(in, f.S)
			if p != nil || p2 != nil || dp != nil || (err == nil) != (err2 == nil) || (dry == nil) != (err == nil) {
				c.Fail("acceptance", "%s (%s): input (%s): decode %v %v, twin decode %v %v, twin dry check %v %v\n%s", e.Name, t.Name, kind, err, p, err2, p2, dry, dp, hx(in))
				return
			}
			if err != nil {
				c.Count("inputs both reject")
				continue
			}
			c.Count("inputs both accept")
			if err := t.N.Valid(b); err != nil {
				c.Fail("nil-left", "%s: decoded value is not complete: %v\ninput %s", t.Name, err, hx(in))
				return
			}
			if x, y := e.N.Encode(a), t.N.Encode(b); !bytes.Equal(x, y) {
				c.Fail("decoded", "%s (%s): decoded values differ: %s\ninput %s", e.Name, t.Name, firstDiff(x, y), hx(in))
				return
			}
			now := map[string]uintptr{}
			pointees(t.N, b, "", now)
			for k, x := range had {
				if now[k] != x {
					c.Fail("pointee-replaced", "%s: the pointer at %q pointed somewhere before decoding, now to something else\ninput %s", t.Name, k, hx(in))
					return
				}
				c.Count("pointees filled in place")
			}
		}
		c.Sample("%s equals %s", e.Name, t.Name)
	})
	r.Need("inputs both accept", 3000)
	r.Need("inputs both reject", 3000)
	r.Need("pointees filled in place", 3000)
}
