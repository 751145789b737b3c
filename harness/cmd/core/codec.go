package main

import (
	"bytes"
	"github.com/protolambda/zssz/bitfields"
	"reflect"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C07"] = c07
	props["C10"] = c10
	props["C11"] = c11
	props["C12"] = c12
	props["C22"] = c22
}

// large runs f on large values: beyond 64 KiB, and (few) beyond 16 MiB.
func large(r *mon.Run, es []*uni.Entry, f func(c *mon.Case, e *uni.Entry, v reflect.Value)) {
	named := uni.Filter(es, func(e *uni.Entry) bool { return e.T.Name() != "" })
	mid := bigTypes(named, 1<<16)
	n := r.N(60, 400)
	r.Phase("large", n, "values beyond 64 KiB", func(c *mon.Case) {
		e := mid[c.R.IntN(len(mid))]
		g := gen.New(c.R, []gen.Mode{gen.Full, gen.Long, gen.Random}[c.Idx%3], 70000+c.R.IntN(200000))
		f(c, e, g.Value(e.N))
	})
	var huge []*uni.Entry
	for _, e := range bigTypes(named, 1<<25) {
		// types whose elements are cheap to generate
		k := e.N.K
		if k == ref.KContainer || (k == ref.KList && (e.N.IsBytes() || e.N.Elem.K == ref.KList || e.N.Elem.IsBytes())) {
			huge = append(huge, e)
		}
	}
	brims(r, "brim", r.N(150, 1500), f)
	past16(r, "past 2^16", f)
	r.Phase("huge", r.N(4, 24), "values beyond 16 MiB", func(c *mon.Case) {
		e := huge[c.R.IntN(len(huge))]
		g := gen.New(c.R, gen.Full, 17<<20)
		v := g.Value(e.N)
		f(c, e, v)
	})
}

func c01(r *mon.Run) {
	es := universe(r)
	one := func(c *mon.Case, e *uni.Entry, v reflect.Value) {
		d := def(c, e)
		if d == nil {
			return
		}
		b := encodes(c, e, d, v)
		if !c.Failed() {
			c.Sample("%s encodes to %d bytes as the reference does: %.64s", e.Name, len(b), hx(b))
		}
	}
	perType(r, "values", es, r.N(28, 250), "every type x generator modes", func(c *mon.Case, e *uni.Entry, k int) {
		reused(c, e, value(c, e, k, budget(c, 60, 300, 1500)), func(v reflect.Value) { one(c, e, v) })
	})
	large(r, es, one)
	r.Need("encodings: >=16 MiB", 1)
	r.Need("encodings: <16 MiB", 20)
}

func c02(r *mon.Run) {
	es := universe(r)
	one := func(c *mon.Case, e *uni.Entry, v reflect.Value) {
		d := def(c, e)
		if d == nil {
			return
		}
		enc, _, err, p := sut.Encode(ptr(v), d.S)
		c.Eval(evid(e, enc))
		count(c, e.N, enc)
		if p != nil || err != nil {
			c.Fail("encode-fails", "%s: encoding failed: %v %v", e.Name, err, p)
			return
		}
		w := reflect.New(e.T).Elem()
		in := append([]byte(nil), enc...)
		err, p = sut.Decode(in, ptr(w), d.S)
		if p != nil || err != nil {
			c.Fail("decode-fails", "%s: decoding its own encoding failed: err=%v %v\ninput %s", e.Name, err, p, hx(enc))
			return
		}
		if !e.N.Equal(v, w) {
			c.Fail("not-equal", "%s: decoded value differs\ninput %s\nre-encoded by the reference %s", e.Name, hx(enc), hx(e.N.Encode(w)))
			return
		}
		if err := e.N.Valid(w); err != nil {
			c.Fail("invalid", "%s: decoded value is not valid: %v", e.Name, err)
			return
		}
		again, _, err, p := sut.Encode(ptr(w), d.S)
		if p != nil || err != nil || !bytes.Equal(again, enc) {
			c.Fail("reencode", "%s: encoding the decoded value gives err=%v %v, %s", e.Name, err, p, firstDiff(again, enc))
			return
		}
		c.Sample("%s: %d bytes -> equal value -> same bytes", e.Name, len(enc))
	}
	perType(r, "values", es, r.N(24, 220), "every type x generator modes", func(c *mon.Case, e *uni.Entry, k int) {
		one(c, e, value(c, e, k, budget(c, 60, 300, 1500)))
	})
	large(r, es, one)
	giantRoundTrip(r)
	r.Need("encodings: >=16 MiB", 1)
}

// hostilePhases feeds f with inputs of all kinds for all types.
func hostilePhases(r *mon.Run, es []*uni.Entry, rep int, f func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, kind string)) {
	perType(r, "hostile", es, rep, "structural faults, damage, noise", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		for i := 0; i < 4; i++ {
			in, kind := gen.Hostile(c.R, e.N, budget(c, 20, 60, 200))
			f(c, e, d, in, kind)
			if c.Failed() {
				return
			}
		}
	})
	// every byte string of length 0 and 1, for all types
	perType(r, "tiny", es, 1, "all inputs of at most 1 byte, for every type", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		f(c, e, d, nil, "exhaustive")
		for i := 0; i < 256 && !c.Failed(); i++ {
			f(c, e, d, []byte{byte(i)}, "exhaustive")
		}
	})
	small := uni.Filter(es, func(e *uni.Entry) bool {
		return e.N.MinLen().IsUint64() && e.N.MinLen().Uint64() <= 2 && e.N.MaxLen().BitLen() < 8
	})
	if !r.Thorough() && len(small) > 24 {
		rnd := r.Rand("small")
		rnd.Shuffle(len(small), func(i, j int) { small[i], small[j] = small[j], small[i] })
		small = small[:24]
	}
	perType(r, "pairs", small, 1, "all inputs of 2 bytes, for small types", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		step := 1
		if slow {
			step = 7 // odd: all first bytes and all second bytes
		}
		for i := 0; i < 1<<16 && !c.Failed(); i += step {
			f(c, e, d, []byte{byte(i), byte(i >> 8)}, "exhaustive")
		}
	})
	// offset tables: for variable-size series and containers, all small offset words
	ofs := uni.Filter(es, func(e *uni.Entry) bool {
		return !e.N.Fixed() && e.N.MinLen().IsUint64() && e.N.MinLen().Uint64() <= 24 && e.N.Has(func(m *ref.Node) bool {
			return m.K == ref.KContainer || ((m.K == ref.KList || m.K == ref.KVector) && !m.Elem.Fixed())
		})
	})
	perType(r, "words", ofs, r.N(1, 6), "one word of a valid encoding swept over 0..len+4 and extremes", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		g := gen.New(c.R, gen.Random, 40)
		b := e.N.Encode(g.Value(e.N))
		if len(b) < 4 || len(b) > 120 {
			return
		}
		p := c.R.IntN(min(len(b)/4, 8)) * 4
		if c.R.IntN(3) == 0 {
			p = c.R.IntN(len(b) - 3)
		}
		vals := []uint32{1 << 8, 1 << 16, 1 << 24, 1 << 31, ^uint32(0), ^uint32(0) - 3, 1<<31 - 1, 1 << 30}
		for i := 0; i <= len(b)+4; i++ {
			vals = append(vals, uint32(i))
		}
		for _, x := range vals {
			m := append([]byte(nil), b...)
			m[p], m[p+1], m[p+2], m[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
			f(c, e, d, m, "word-sweep")
			if c.Failed() {
				return
			}
		}
	})
}

func firstFault(kind string) string {
	s, _, _ := strings.Cut(strings.TrimSuffix(kind, "+1"), "+")
	return s
}

func c03(r *mon.Run) {
	es := universe(r)
	hostilePhases(r, es, r.N(16, 160), func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, kind string) {
		want := reflect.New(e.T).Elem()
		wantErr := e.N.Decode(in, want)
		got := reflect.New(e.T).Elem()
		err, p := sut.Decode(in, ptr(got), d.S)
		c.Eval(evid(e, in))
		if p != nil {
			c.Fail("decode-panics", "%s (%s): %v\ninput %s", e.Name, kind, p, hx(in))
			return
		}
		switch {
		case err == nil && wantErr != nil:
			c.Count("wrongly accepted")
			c.Fail("accepts-noncanonical", "%s (%s): accepted, but it is not a canonical encoding (%v)\ninput %s", e.Name, kind, wantErr, hx(in))
		case err != nil && wantErr == nil:
			c.Fail("rejects-canonical", "%s (%s): rejected (%v), but it is the canonical encoding of a valid value\ninput %s", e.Name, kind, err, hx(in))
		case err == nil:
			c.Count("accepted")
			if !e.N.Equal(got, want) {
				c.Fail("wrong-value", "%s (%s): decoded to another value than the one encoded\ninput %s\nvalue encodes to %s", e.Name, kind, hx(in), hx(e.N.Encode(got)))
				return
			}
			re, _, err, p := sut.Encode(ptr(got), d.S)
			if err != nil || p != nil || !bytes.Equal(re, in) {
				c.Fail("not-reproduced", "%s (%s): accepted input is not reproduced: %v %v\ninput %s\noutput %s", e.Name, kind, err, p, hx(in), hx(re))
			}
		default:
			c.Count("rejected")
			c.Count("rejected: " + firstFault(kind))
			c.Sample("%s rejects (%s) %.60s: %v", e.Name, kind, hx(in), wantErr)
		}
	})
	r.Need("rejected", 10000)
	r.Need("accepted", 3000)
}

func c04(r *mon.Run) {
	es := universe(r)
	hostilePhases(r, es, r.N(20, 200), func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, kind string) {
		got := reflect.New(e.T).Elem()
		err, p := sut.Decode(in, ptr(got), d.S)
		derr, dp := sut.Dry(in, d.S)
		c.Eval(evid(e, in))
		if p != nil || dp != nil {
			c.Fail("panics", "%s (%s): decode: %v; dry check: %v\ninput %s", e.Name, kind, p, dp, hx(in))
			return
		}
		if (err == nil) != (derr == nil) {
			c.Fail("disagree", "%s (%s): decode says %v, dry check says %v\ninput %s", e.Name, kind, err, derr, hx(in))
			return
		}
		if err == nil {
			c.Count("both accept")
		} else {
			c.Count("both reject")
			c.Count("both reject: " + firstFault(kind))
		}
		c.Sample("%s (%s) %.60s: decode %v, dry check %v", e.Name, kind, hx(in), err, derr)
	})
	// limits are separate rules in the dry check
	overLimits(r, es, r.N(3, 20), func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, over bool) {
		err, p := sut.Decode(in, ptr(reflect.New(e.T).Elem()), d.S)
		derr, dp := sut.Dry(in, d.S)
		c.Eval(evid(e, in))
		if p != nil || dp != nil || (err == nil) != (derr == nil) {
			c.Fail("disagree", "%s (around a limit): decode says %v %v, dry check says %v %v\ninput %s", e.Name, err, p, derr, dp, hx(in))
		}
	})
	// an announced length that differs from what the source holds
	perType(r, "announced", es, r.N(4, 30), "announced length off from the encoding's length", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		b := e.N.Encode(gen.New(c.R, gen.Random, 60).Value(e.N))
		for _, dl := range []int{-5, -4, -2, -1, 1, 2, 3, 4, 8} {
			l := len(b) + dl
			if l < 0 {
				continue
			}
			src := append(append([]byte(nil), b...), make([]byte, c.R.IntN(10))...)
			err, p := sut.DecodeFrom(bytes.NewReader(src), uint64(l), ptr(reflect.New(e.T).Elem()), d.S)
			derr, dp := sut.DryFrom(bytes.NewReader(src), uint64(l), d.S)
			c.Eval(mon.Hash(e.Name, l, mon.HashBytes(src)))
			if p != nil || dp != nil || (err == nil) != (derr == nil) {
				c.Fail("disagree", "%s (announced %d of %d): decode says %v %v, dry check says %v %v\nsource %s", e.Name, l, len(src), err, p, derr, dp, hx(src))
				return
			}
		}
	})
	giantDry(r)
	r.Need("both reject", 10000)
	r.Need("both accept", 3000)
}

func c07(r *mon.Run) {
	es := universe(r)
	one := func(c *mon.Case, e *uni.Entry, v reflect.Value) {
		d := def(c, e)
		if d == nil {
			return
		}
		want := e.N.Root(ref.Sha, v)
		got, p := sut.Root(sha, ptr(v), d.S)
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		count(c, e.N, enc)
		if p != nil {
			c.Fail("root-panics", "%s: %v\nvalue %s", e.Name, p, hx(enc))
			return
		}
		if got != want {
			c.Fail("root-differs", "%s: root %x, want %x\nvalue %s", e.Name, got, want, hx(enc))
			return
		}
		c.Sample("%s root %x of %d-byte value", e.Name, got[:8], len(enc))
	}
	perType(r, "values", es, r.N(14, 130), "every type x generator modes", func(c *mon.Case, e *uni.Entry, k int) {
		reused(c, e, value(c, e, k, budget(c, 60, 300, 1500, 5000)), func(v reflect.Value) { one(c, e, v) })
	})
	// every bit length of the bitlists
	bl := uni.Filter(es, func(e *uni.Entry) bool { return e.N.K == ref.KBitlist })
	maxBits := 1300
	r.Phase("bitlists", len(bl)*(maxBits+1), "every bitlist type x every bit length up to 1300", func(c *mon.Case) {
		e := bl[c.Idx%len(bl)]
		l := c.Idx / len(bl)
		if uint64(l) > e.N.Limit {
			return
		}
		v := reflect.New(e.T).Elem()
		g := gen.New(c.R, gen.Random, 0)
		v.Set(gen.MakeBits(g, e.T, l))
		one(c, e, v)
		c.Count("bit lengths tried")
	})
	// every list length of the basic lists
	lb := uni.Filter(es, func(e *uni.Entry) bool { return e.N.K == ref.KList && e.N.Elem.IsBasic() && e.T.Name() != "" })
	r.Phase("lengths", len(lb)*r.N(140, 700), "every basic list type x every length", func(c *mon.Case) {
		e := lb[c.Idx%len(lb)]
		l := c.Idx / len(lb)
		if uint64(l) > e.N.Limit {
			return
		}
		v := reflect.New(e.T).Elem()
		gen.New(c.R, gen.Random, 1<<20).FillList(e.N, v, l)
		one(c, e, v)
		c.Count("list lengths tried")
	})
	// composite lists: every length up to 70
	lc := uni.Filter(es, func(e *uni.Entry) bool { return e.N.K == ref.KList && !e.N.Elem.IsBasic() && e.T.Name() != "" })
	r.Phase("composite-lengths", len(lc)*70, "every composite list type x every length up to 69", func(c *mon.Case) {
		e := lc[c.Idx%len(lc)]
		l := c.Idx / len(lc)
		if uint64(l) > e.N.Limit {
			return
		}
		v := reflect.New(e.T).Elem()
		gen.New(c.R, gen.Random, 300).FillList(e.N, v, l)
		one(c, e, v)
		c.Count("list lengths tried")
	})
	named := uni.Filter(es, func(e *uni.Entry) bool { return e.T.Name() != "" })
	mid := bigTypes(named, 1<<16)
	r.Phase("large", r.N(40, 300), "values beyond 64 KiB", func(c *mon.Case) {
		e := mid[c.R.IntN(len(mid))]
		one(c, e, gen.New(c.R, []gen.Mode{gen.Full, gen.Long, gen.Random}[c.Idx%3], 70000+c.R.IntN(200000)).Value(e.N))
	})
	brims(r, "brim", r.N(200, 2000), one)
	past16(r, "past 2^16", one)
	if r.Config == "plain" {
		r.Serial("billions of bits", 1, "a bitlist of more than 2^32 bits, few of them set", func(c *mon.Case) {
			d, err, p := sut.Get(reflect.TypeOf(wideBits(nil)))
			if err != nil || p != nil {
				c.Fail("construct", "bitlist with limit 2^40: %v %v", err, p)
				return
			}
			bits := uint64(1)<<32 + uint64(c.R.IntN(600)) - uint64(c.R.IntN(2)*c.R.IntN(300))
			b := make(wideBits, bits/8+1)
			set := map[uint64][32]byte{}
			for i := 0; i < 20; i++ {
				x := c.R.Uint64N(bits)
				if i < 4 {
					x = bits - 1 - uint64(c.R.IntN(400))
				}
				b[x/8] |= 1 << (x % 8)
				chunk := set[x/256]
				chunk[x%256/8] |= 1 << (x % 8)
				set[x/256] = chunk
			}
			b[bits/8] |= 1 << (bits % 8)
			for l := 0; l < 32; l++ { // limit of 2^40 bits: 2^32 chunks
				up := map[uint64][32]byte{}
				for i, x := range set {
					y, ok := set[i^1]
					if !ok {
						y = ref.Sha.Zero(l)
					}
					if i%2 == 1 {
						x, y = y, x
					}
					up[i/2] = ref.Sha.Pair(x, y)
				}
				set = up
			}
			want := ref.Sha.Mix(set[0], bits)
			c.Eval(mon.Hash("wide", bits, want))
			if got, p := sut.Root(sha, &b, d.S); p != nil || got != want {
				c.Fail("root-differs", "bitlist of %d bits: root %x, want %x %v", bits, got, want, p)
			}
			if n, p := sut.SizeOf(&b, d.S); p != nil || n != uint64(len(b)) {
				c.Fail("size", "bitlist of %d bits: size %d %v", bits, n, p)
			}
			c.CountMax("most bits in a bitlist", int64(bits))
		})
	}
	r.Need("bit lengths tried", 5000)
}

type wideBits []byte

func (wideBits) Limit() uint64    { return 1 << 40 }
func (b wideBits) BitLen() uint64 { return bitfields.BitlistLen(b) }

func c10(r *mon.Run) {
	es := universe(r)
	one := func(c *mon.Case, e *uni.Entry, v reflect.Value) {
		d := def(c, e)
		if d == nil {
			return
		}
		got, n, err, p := sut.Encode(ptr(v), d.S)
		c.Eval(evid(e, got))
		count(c, e.N, got)
		if p != nil || err != nil {
			c.Fail("encode-fails", "%s: %v %v", e.Name, err, p)
			return
		}
		sz, p := sut.SizeOf(ptr(v), d.S)
		if p != nil {
			c.Fail("size-panics", "%s: %v", e.Name, p)
			return
		}
		if sz != uint64(len(got)) || n != len(got) {
			c.Fail("size", "%s: size %d, count %d, %d bytes written\n%s", e.Name, sz, n, len(got), hx(got))
			return
		}
		if e.N.Fixed() {
			l, p := sut.LensOf(d.S)
			if p != nil || !l.IsFixed || l.Fixed != sz {
				c.Fail("fixed", "%s: fixed length %+v, size %d %v", e.Name, l, sz, p)
				return
			}
			c.Count("fixed sizes compared")
		}
		c.Sample("%s: size = count = %d bytes", e.Name, n)
	}
	perType(r, "values", es, r.N(30, 250), "every type x generator modes", func(c *mon.Case, e *uni.Entry, k int) {
		reused(c, e, value(c, e, k, budget(c, 60, 300, 1500)), func(v reflect.Value) { one(c, e, v) })
	})
	large(r, es, one)
	giantWrites(r)
}

// extreme builds a value with the shortest (or longest) encoding; ok is false if too large.
func extreme(n *ref.Node, v reflect.Value, longest bool, budget *int) bool {
	if *budget -= 1; *budget < 0 {
		return false
	}
	switch n.K {
	case ref.KPtr:
		p := reflect.New(n.T.Elem())
		v.Set(p.Convert(n.T))
		return extreme(n.Elem, p.Elem(), longest, budget)
	case ref.KBitlist:
		l := uint64(0)
		if longest {
			l = n.Limit
		}
		if l/8 > uint64(max(*budget, 0)) {
			return false
		}
		s := reflect.MakeSlice(n.T, int(l/8)+1, int(l/8)+1)
		s.Index(int(l / 8)).SetUint(1 << (l % 8))
		v.Set(s)
		*budget -= int(l / 8)
	case ref.KVector:
		if n.Elem.IsBasic() {
			return true
		}
		for i := 0; i < v.Len(); i++ {
			if !extreme(n.Elem, v.Index(i), longest, budget) {
				return false
			}
		}
	case ref.KList:
		if !longest {
			return true
		}
		if n.Limit > uint64(max(*budget, 0)) {
			return false
		}
		v.Set(reflect.MakeSlice(n.T, int(n.Limit), int(n.Limit)))
		if n.Elem.IsBasic() {
			*budget -= int(n.Limit)
			return true
		}
		for i := 0; i < v.Len(); i++ {
			if !extreme(n.Elem, v.Index(i), longest, budget) {
				return false
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			if !extreme(f.Node, ref.Sub(v, f.Index), longest, budget) {
				return false
			}
		}
	}
	return true
}

func c11(r *mon.Run) {
	es := uni.All(r.Seed, r.N(3000, 20000))
	perType(r, "types", es, 1, "reported lengths of every type against the model, extremes attained", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		l, p := sut.LensOf(d.S)
		if p != nil {
			c.Fail("panic", "%s: %v", e.Name, p)
			return
		}
		c.Eval(mon.Hash(e.Name))
		if l.IsFixed != e.N.Fixed() {
			c.Fail("is-fixed", "%s: IsFixed %v", e.Name, l.IsFixed)
			return
		}
		if l.Fixed != e.N.FixedLen() {
			c.Fail("fixed-len", "%s: FixedLen %d, want %d", e.Name, l.Fixed, e.N.FixedLen())
			return
		}
		if !e.N.MinLen().IsUint64() || e.N.MinLen().Uint64() != l.Min {
			c.Fail("min-len", "%s: MinLen %d, want %v", e.Name, l.Min, e.N.MinLen())
			return
		}
		mx, ok := e.N.MaxLen63()
		if ok {
			c.Count("maximum compared")
			if mx != l.Max {
				c.Fail("max-len", "%s: MaxLen %d, want %d", e.Name, l.Max, mx)
				return
			}
		} else {
			c.Count("maximum beyond 2^63, not compared")
		}
		for i, longest := range []bool{false, true} {
			budget := 200000
			v := reflect.New(e.T).Elem()
			if (longest && !ok) || !extreme(e.N, v, longest, &budget) {
				continue
			}
			b, _, err, p := sut.Encode(ptr(v), d.S)
			want := []uint64{l.Min, l.Max}[i]
			if err != nil || p != nil || uint64(len(b)) != want {
				c.Fail("not-attained", "%s: reported bound %d (longest=%v), but that value takes %d bytes (%v %v)", e.Name, want, longest, len(b), err, p)
				return
			}
			w := reflect.New(e.T).Elem()
			if err, p := sut.Decode(b, ptr(w), d.S); err != nil || p != nil {
				c.Fail("extreme-rejected", "%s: extreme encoding of %d bytes (longest=%v) is rejected: %v %v", e.Name, len(b), longest, err, p)
				return
			}
			c.Count([]string{"shortest attained", "longest attained"}[i])
		}
		c.Sample("%s: min %d max %d fixed %v %d", e.Name, l.Min, l.Max, l.IsFixed, l.Fixed)
	})
	r.Need("shortest attained", 500)
	r.Need("longest attained", 300)
	r.Need("maximum compared", 800)
}

func c12(r *mon.Run) {
	es := uni.Filter(append(uni.All(r.Seed, r.N(600, 4000)), uni.Wide()...), func(e *uni.Entry) bool { return e.N.K == ref.KContainer })
	one := func(c *mon.Case, e *uni.Entry, s signed, v reflect.Value) {
		want := e.N.SigningRoot(ref.Sha, v)
		got, p := sut.SigningRoot(sha, ptr(v), s)
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		if p != nil || got != want {
			c.Fail("signing-root", "%s: signing root %x, want %x %v\nvalue %s", e.Name, got, want, p, hx(enc))
			return
		}
		c.CountMax("most fields", int64(len(e.N.Fields)))
		if len(e.N.Fields) == 0 {
			return
		}
		// independent of the last field
		last := e.N.Fields[len(e.N.Fields)-1]
		w := reflect.New(e.T).Elem()
		e.N.Copy(w, v)
		gen.New(c.R, gen.Random, 100).Fill(last.Node, ref.Sub(w, last.Index))
		if got2, p := sut.SigningRoot(sha, ptr(w), s); p != nil || got2 != got {
			c.Fail("depends-on-last", "%s: signing root changes with the last field: %x, %x %v", e.Name, got, got2, p)
			return
		}
		// dependent on every other field
		if len(e.N.Fields) > 1 {
			i := c.R.IntN(len(e.N.Fields) - 1)
			f := e.N.Fields[i]
			e.N.Copy(w, v)
			gen.New(c.R, gen.Random, 100).Fill(f.Node, ref.Sub(w, f.Index))
			same := f.Node.Equal(ref.Sub(v, f.Index), ref.Sub(w, f.Index))
			got3, p := sut.SigningRoot(sha, ptr(w), s)
			if p != nil || (got3 == got) != same {
				c.Fail("ignores-field", "%s: signing root %x and %x although field %s is equal: %v %v", e.Name, got, got3, f.Name, same, p)
				return
			}
			if !same {
				c.Count("other field changed, root changed")
			}
		}
		c.Sample("%s signing root %x over %d of %d fields", e.Name, got[:8], len(e.N.Fields)-1, len(e.N.Fields))
	}
	perType(r, "containers", es, r.N(20, 100), "every container type x values", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		s, ok := d.S.(signed)
		if !ok {
			c.Fail("not-signed", "%s: a container definition without signing root", e.Name)
			return
		}
		reused(c, e, value(c, e, k, budget(c, 60, 300, 1200)), func(v reflect.Value) { one(c, e, s, v) })
	})
	r.Need("other field changed, root changed", 1000)
}

// site is a list somewhere inside a value.
type site struct {
	n *ref.Node
	v reflect.Value
}

func sites(n *ref.Node, v reflect.Value, out *[]site) {
	switch n.K {
	case ref.KPtr:
		if !v.IsNil() {
			sites(n.Elem, v.Elem(), out)
		}
	case ref.KBitlist:
		*out = append(*out, site{n, v})
	case ref.KVector, ref.KList:
		if n.K == ref.KList {
			*out = append(*out, site{n, v})
		}
		if !n.Elem.IsBasic() {
			for i := 0; i < v.Len(); i++ {
				sites(n.Elem, v.Index(i), out)
			}
		}
	case ref.KContainer:
		for _, f := range n.Fields {
			sites(f.Node, ref.Sub(v, f.Index), out)
		}
	}
}

// minBytes an element needs
func costOf(n *ref.Node) uint64 {
	c := n.MinLen().Uint64()
	if !n.Fixed() {
		c += 4
	}
	return max(c, 1)
}

// overLimits builds encodings in which one list is at its limit or over it.
func overLimits(r *mon.Run, es []*uni.Entry, rep int, f func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, over bool)) {
	const room = 20000
	small := func(n *ref.Node) bool {
		if n.K == ref.KBitlist {
			return n.Limit <= room*8
		}
		return n.K == ref.KList && n.Limit <= room && n.Limit*costOf(n.Elem) <= room
	}
	have := uni.Filter(es, func(e *uni.Entry) bool { return e.N.Has(small) })
	perType(r, "limits", have, rep, "one list in the value put at its limit or 1..9 or many over it", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		g := gen.New(c.R, []gen.Mode{gen.Random, gen.Tiny, gen.Random}[c.R.IntN(3)], 150)
		v := g.Value(e.N)
		var ss, cand []site
		sites(e.N, v, &ss)
		for _, s := range ss {
			if small(s.n) {
				cand = append(cand, s)
			}
		}
		if len(cand) == 0 {
			c.Count("no candidate list in the value")
			return
		}
		s := cand[c.R.IntN(len(cand))]
		keep := reflect.New(s.n.T).Elem()
		keep.Set(s.v)
		for _, delta := range []int{-1, 0, 1, 2, 3 + c.R.IntN(7), 8, 1 + int(s.n.Limit), 256} {
			l := int(s.n.Limit) + delta
			if l < 0 {
				continue
			}
			g := gen.New(c.R, gen.Tiny, 100)
			if s.n.K == ref.KBitlist {
				s.v.Set(gen.MakeBits(g, s.n.T, l))
			} else {
				g.FillList(s.n, s.v, l)
			}
			in := e.N.Encode(v)
			if delta > 0 {
				c.Count("over the limit")
				if s.v.Addr().Interface() != v.Addr().Interface() {
					c.Count("over the limit, inner list")
				}
			} else {
				c.Count("within the limit")
			}
			f(c, e, d, in, delta > 0)
			if c.Failed() {
				return
			}
		}
		s.v.Set(keep)
	})
	r.Need("over the limit", 500)
}

// roomy gives the lists in the value capacity beyond what they were filled with, also beyond their limits.
func roomy(c *mon.Case, n *ref.Node, v reflect.Value) {
	var ss []site
	sites(n, v, &ss)
	for _, s := range ss {
		l := s.v.Len() + []int{1, 3, 40, 300}[c.R.IntN(4)]
		if m := s.n.Limit; m < 4000 {
			l += int(m)
		}
		if uintptr(l)*s.v.Type().Elem().Size() > 1<<20 {
			continue
		}
		a := reflect.MakeSlice(s.v.Type(), s.v.Len(), l)
		reflect.Copy(a, s.v)
		s.v.Set(a)
	}
}

func c22(r *mon.Run) {
	es := universe(r)
	overLimits(r, es, r.N(24, 200), func(c *mon.Case, e *uni.Entry, d *sut.Def, in []byte, over bool) {
		dst := reflect.New(e.T).Elem()
		if c.R.IntN(2) == 0 { // room for more than the limit in every list
			gen.New(c.R, gen.Random, budget(c, 30, 150)).Fill(e.N, dst)
			roomy(c, e.N, dst)
			if over {
				c.Count("over the limit, used destination")
			}
		}
		err, p := sut.Decode(in, ptr(dst), d.S)
		derr, dp := sut.Dry(in, d.S)
		c.Eval(evid(e, in))
		if p != nil || dp != nil {
			c.Fail("panics", "%s: %v %v\ninput %s", e.Name, p, dp, hx(in))
			return
		}
		if over && err == nil {
			c.Fail("decode-over-limit", "%s: a list over its limit is accepted by Decode\ninput %s", e.Name, hx(in))
		}
		if over && derr == nil {
			c.Fail("dry-over-limit", "%s: a list over its limit is accepted by DryCheck\ninput %s", e.Name, hx(in))
		}
		if !over && err != nil {
			c.Fail("decode-at-limit", "%s: no list is over its limit, but Decode rejects: %v\ninput %s", e.Name, err, hx(in))
		}
		if !over && derr != nil {
			c.Fail("dry-at-limit", "%s: no list is over its limit, but DryCheck rejects: %v\ninput %s", e.Name, derr, hx(in))
		}
		c.Sample("%s: %d bytes, over=%v: decode %v, dry check %v", e.Name, len(in), over, err, derr)
	})
	r.Need("over the limit, inner list", 500)
	r.Need("over the limit, used destination", 300)
}
