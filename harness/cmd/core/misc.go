package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C26"] = c26
	props["C29"] = c29
	props["C30"] = c30
}

func firstToken(a, b []string) string {
	i := 0
	for i < len(a) && i < len(b) && ref.SameToken(a[i], b[i]) {
		i++
	}
	show := func(x []string) string {
		lo, hi := max(0, i-4), min(len(x), i+4)
		if lo > hi {
			lo = hi
		}
		return strings.Join(x[lo:hi], " ")
	}
	return fmt.Sprintf("%d and %d parts, differing at part %d: %q, want %q", len(a), len(b), i, show(a), show(b))
}

func c26(r *mon.Run) {
	es := universe(r)
	one := func(c *mon.Case, e *uni.Entry, d *sut.Def, v reflect.Value) {
		want := e.N.PrettyTokens(v)
		c.CountN("parts compared", int64(len(want)))
		c.Eval(mon.Hash(e.Name, strings.Join(want, " ")))
		for _, s := range want {
			if s == "null" {
				c.Count("nil pointers shown")
			}
		}
		cp := reflect.New(e.T).Elem() // an equal value elsewhere, with other omitted contents
		e.N.Copy(cp, v)
		for i, ind := range []string{[]string{" ", "\t", "  ", "    "}[c.R.IntN(4)], "", " \t "} {
			out, p := sut.Pretty(ind, ptr(v), d.S)
			if p != nil {
				c.Fail("panics", "%s: %v\nexpected parts %q", e.Name, p, want)
				return
			}
			got := ref.Tokens(out)
			if len(got) != len(want) || firstTokenIndex(got, want) < len(want) {
				c.Fail("parts", "%s (indentation %q): %s\noutput:\n%.1500s", e.Name, ind, firstToken(got, want), out)
				return
			}
			if i < 2 {
				again, p := sut.Pretty(ind, ptr(cp), d.S)
				if p != nil || again != out {
					c.Fail("not-repeatable", "%s (indentation %q): an equal value prints differently: %s %v", e.Name, ind, firstDiff([]byte(out), []byte(again)), p)
					return
				}
			}
		}
		if c.R.IntN(3) == 0 { // the indentation is taken as it is
			ind := []string{"%", "%d", "%!s(", "\\n", "\x00", "é", "\n", "--", "$1", "{{", "\xff\xfe", strings.Repeat("x", 300)}[c.R.IntN(12)]
			a, p1 := sut.Pretty("\t", ptr(v), d.S)
			b, p2 := sut.Pretty(ind, ptr(v), d.S)
			if want := strings.ReplaceAll(a, "\t", ind); p1 != nil || p2 != nil || b != want {
				c.Fail("indentation", "%s: printed with the indentation %q: %v %v, %s", e.Name, ind, p1, p2, firstDiff([]byte(b), []byte(want)))
				return
			}
			c.Count("odd indentations")
		}
		c.Sample("%s prints %d parts: %.100s", e.Name, len(want), strings.Join(want, " "))
	}
	perType(r, "pretty", es, r.N(14, 120), "the printed parts against those of the model", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		g := gen.New(c.R, mode(k), budget(c, 30, 150, 600))
		g.NilPtr = c.R.IntN(2) == 0
		g.Slack = c.R.IntN(2) == 0
		v := g.Value(e.N)
		alias(c, e, v)
		gen.FillOmitted(c.R, v)
		reused(c, e, v, func(v reflect.Value) { one(c, e, d, v) })
	})
	r.Need("nil pointers shown", 500)
	r.Need("odd indentations", 1000)
	r.Need("parts compared", 100000)
}

func firstTokenIndex(a, b []string) int {
	i := 0
	for i < len(a) && i < len(b) && ref.SameToken(a[i], b[i]) {
		i++
	}
	return i
}

type single1 struct{ A *uint64 }
type single2 struct{ A *struct{ X, Y uint16 } }
type single3 struct{ B single2 }
type single4 [1]*uint32
type single5 struct{ A single4 }
type single6 [1]single1
type single7 struct {
	O map[string]int `ssz:"omit"`
}
type single8 struct {
	O *uint8 `ssz:"omit"`
}
type single9 struct {
	E struct{}
	A *uint64
}
type single10 struct {
	O chan int `ssz:"omit"`
	E struct{}
}
type single11 struct {
	F func() `ssz:"omit"`
}
type single12 struct{ single1 }
type single13 struct {
	A single2 `ssz:"squash"`
}
type single14 struct{ A **uint16 }
type single15 struct {
	A *uint64
	E struct{}
}

func c29(r *mon.Run) {
	es := uni.All(r.Seed, r.N(300, 2000))
	add := func(t reflect.Type) {
		if e, err := uni.ForType(t); err == nil && e.N.MaxLen() != nil {
			es = append(es, e)
		}
	}
	for _, x := range []any{single1{}, single2{}, single3{}, single4{}, single5{}, single6{}, single7{}, single8{}, single9{}, single10{}, single11{}, single12{}, single13{}, single14{}, single15{}} {
		t := reflect.TypeOf(x)
		add(t)
		add(reflect.ArrayOf(1, t))
		add(reflect.ArrayOf(2, t))
		add(reflect.StructOf([]reflect.StructField{{Name: "W", Type: t}}))
	}
	for _, e := range uni.Named() {
		add(reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.PointerTo(e.T)}}))
		add(reflect.ArrayOf(1, reflect.PointerTo(e.T)))
		add(reflect.ArrayOf(1, reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.PointerTo(e.T)}})))
	}
	es = uni.Filter(es, func(e *uni.Entry) bool { return e.T.Kind() != reflect.Ptr })
	perType(r, "both", es, r.N(12, 100), "every reading operation, by value and by pointer", func(c *mon.Case, e *uni.Entry, k int) {
		d := def(c, e)
		if d == nil {
			return
		}
		v := gen.New(c.R, mode(k), budget(c, 40, 200, 600)).Value(e.N)
		alias(c, e, v)
		gen.FillOmitted(c.R, v)
		enc := e.N.Encode(v)
		c.Eval(evid(e, enc))
		if e.N.Fixed() && e.T.Size() == 8 {
			c.Count("values of one word")
		}
		a, p := readAll(ptr(v), d)
		b, p2 := readAll(v.Interface(), d)
		if p != nil || p2 != nil {
			c.Fail("panics", "%s: by pointer %v, by value %v\nvalue %s", e.Name, p, p2, hx(enc))
			return
		}
		if x := a.diff(b); x != "" {
			c.Fail("differs", "%s: by pointer and by value: %s\nvalue %s", e.Name, x, hx(enc))
			return
		}
		if !bytes.Equal(b.enc, enc) {
			c.Fail("differs", "%s: by value: %s", e.Name, firstDiff(b.enc, enc))
			return
		}
		c.Count("kind: " + e.N.K.String())
		c.Sample("%s: encoding, size, roots and print are the same by value and by pointer", e.Name)
	})
	r.Need("values of one word", 500)
}

// combiner is a MerkleFn that is no HashFn, with a mixing function of its own.
type combiner struct {
	h    htr.HashFn
	salt byte
}

func (m *combiner) Combi(a, b [32]byte) [32]byte { return m.h.Combi(a, b) }
func (m *combiner) MixIn(a [32]byte, i uint64) [32]byte {
	b := append([]byte{m.salt}, a[:]...)
	return m.h(binary.BigEndian.AppendUint64(b, i))
}

// scratchpad is a MerkleFn that works in a buffer of its own, as such objects do to avoid copies: only
// one use at a time gives the right result. It lets other goroutines run in between, and is sometimes
// called again from within the library it is used by.
type scratchpad struct {
	h      htr.HashFn
	buf    [64]byte
	n      int
	nested func()
}

func (m *scratchpad) pause() {
	m.n++
	if m.n < 2000 {
		runtime.Gosched()
	}
	if f := m.nested; f != nil && m.n%5 == 2 && m.n < 100 {
		m.nested = nil
		buf := m.buf
		f()
		m.buf = buf
		m.nested = f
	}
}

func (m *scratchpad) Combi(a, b [32]byte) [32]byte {
	copy(m.buf[:32], a[:])
	m.pause()
	copy(m.buf[32:], b[:])
	return m.h(m.buf[:])
}

func (m *scratchpad) MixIn(a [32]byte, i uint64) [32]byte {
	copy(m.buf[:32], a[:])
	m.pause()
	clear(m.buf[32:])
	binary.LittleEndian.PutUint64(m.buf[32:], i)
	return m.h(m.buf[:])
}

// shared gives a hash function that keeps its input in one place while it works.
func shared(h htr.HashFn) htr.HashFn {
	var buf []byte
	n := 0
	return func(in []byte) [32]byte {
		buf = append(buf[:0], in...)
		if n++; n < 2000 {
			runtime.Gosched()
		}
		return h(buf)
	}
}

var hashes = []struct {
	name string
	h    func([]byte) [32]byte
}{
	{"sha256", sha256.Sum256},
	{"sha512/256", sha512.Sum512_256},
	{"double sha256", func(b []byte) [32]byte { x := sha256.Sum256(b); return sha256.Sum256(x[:]) }},
	{"sha256 with a prefix", func(b []byte) [32]byte { return sha256.Sum256(append([]byte("domain"), b...)) }},
	{"md5 of both halves", func(b []byte) (out [32]byte) {
		x, y := md5.Sum(b), md5.Sum(append([]byte{1}, b...))
		copy(out[:], x[:])
		copy(out[16:], y[:])
		return
	}},
	{"sum of bytes by position", func(b []byte) (out [32]byte) {
		for i, x := range b {
			out[i%32] += x*byte(i+1) + byte(i)
		}
		return
	}},
	{"exclusive or", func(b []byte) (out [32]byte) {
		for i, x := range b {
			out[(i*7+i/32)%32] ^= x
		}
		return
	}},
	{"second half", func(b []byte) (out [32]byte) { copy(out[:], b[len(b)/2:]); return }},
	{"first half plus one", func(b []byte) (out [32]byte) { copy(out[:], b[:len(b)/2]); out[0]++; return }},
	{"constant zero", func(b []byte) (out [32]byte) { return }},
	{"constant", func(b []byte) [32]byte { return [32]byte{7, 7, 7} }},
	{"length of the input", func(b []byte) (out [32]byte) { binary.LittleEndian.PutUint64(out[5:], uint64(len(b))); return }},
}

func zeroTable(c *mon.Case, name string, h *ref.Hasher) {
	if len(htr.ZeroHashes) < 65 {
		c.Fail("zero-hashes", "%s: the zero-hash table has %d entries", name, len(htr.ZeroHashes))
		return
	}
	for i := 0; i <= 64; i++ {
		c.Evals(1)
		if htr.ZeroHashes[i] != h.Zero(i) {
			c.Fail("zero-hashes", "%s: zero hash %d is %x, want %x", name, i, htr.ZeroHashes[i], h.Zero(i))
			return
		}
	}
	c.CountN("zero-hash table entries checked", 65)
}

func c30(r *mon.Run) {
	es := universe(r)
	r.Serial("default", 1, "the zero-hash table as it is at the start", func(c *mon.Case) { zeroTable(c, "default", ref.Sha) })
	for hi, h := range hashes {
		h := h
		hasher := ref.NewHasher(h.h)
		if !r.Replaying() || r.Replays(h.name) {
			if p := sut.Do(func() { htr.InitZeroHashes(h.h) }); p != nil {
				r.Serial(h.name+", table", 1, "", func(c *mon.Case) { c.Fail("panics", "%s: InitZeroHashes: %v", h.name, p) })
				continue
			}
		}
		r.Serial(h.name+", table", 1, "zero-hash table", func(c *mon.Case) { zeroTable(c, h.name, hasher) })
		r.Phase(h.name+", nodes", r.N(200, 2000), "pairs and lengths put together with "+h.name, func(c *mon.Case) {
			var a, b [32]byte
			for i := range a {
				a[i], b[i] = byte(c.R.IntN(256)), byte(c.R.IntN(256))
			}
			l := c.R.Uint64() >> c.R.IntN(64)
			c.Eval(mon.Hash(h.name, a, b, l))
			var x, y [32]byte
			if p := sut.Do(func() { x, y = htr.HashFn(h.h).Combi(a, b), htr.HashFn(h.h).MixIn(a, l) }); p != nil {
				c.Fail("nodes", "%s: %v", h.name, p)
				return
			}
			if want := hasher.Pair(a, b); x != want {
				c.Fail("nodes", "%s: the pair of %x and %x gives %x, want %x", h.name, a, b, x, want)
			}
			if want := hasher.Mix(a, l); y != want {
				c.Fail("nodes", "%s: %x with length %d gives %x, want %x", h.name, a, l, y, want)
			}
			c.Count("nodes put together directly")
		})
		one := func(c *mon.Case, e *uni.Entry, k int, v reflect.Value) {
			d := def(c, e)
			if d == nil {
				return
			}
			var fn htr.MerkleFn = htr.HashFn(h.h)
			hr := hasher
			what := h.name
			switch c.R.IntN(6) {
			case 0, 1:
				m := &combiner{h.h, byte(c.R.IntN(256))}
				fn = m
				hr = hasher.WithMix(m.MixIn)
				what += " in a combiner"
				c.Count("roots with a combiner object")
			case 2, 3:
				m := &scratchpad{h: h.h}
				if c.R.IntN(2) == 0 {
					in := value(c, e, k, 60)
					m.nested = func() { sut.Root(m, ptr(in), d.S) }
					c.Count("hash functions that use the library themselves")
				}
				fn = m
				what += " in a combiner with a buffer"
				c.Count("roots with a combiner object")
			case 4:
				fn = shared(h.h)
				what += " with a buffer"
				c.Count("roots with a plain function")
			default:
				c.Count("roots with a plain function")
			}
			enc := e.N.Encode(v)
			c.Eval(mon.Hash(what, e.Name, mon.HashBytes(enc)))
			got, p := sut.Root(fn, ptr(v), d.S)
			if want := e.N.Root(hr, v); p != nil || got != want {
				c.Fail("root", "%s with %s: root %x, want %x %v\nvalue %s", e.Name, what, got, want, p, hx(enc))
				return
			}
			if s, ok := d.S.(signed); ok {
				got, p := sut.SigningRoot(fn, ptr(v), s)
				if want := e.N.SigningRoot(hr, v); p != nil || got != want {
					c.Fail("signing-root", "%s with %s: signing root %x, want %x %v\nvalue %s", e.Name, what, got, want, p, hx(enc))
					return
				}
				c.Count("signing roots")
			}
			c.Sample("%s with %s: root %x", e.Name, what, got[:8])
		}
		perType(r, h.name+", values", es, r.N(2, 14), "roots, signing roots with "+h.name, func(c *mon.Case, e *uni.Entry, k int) {
			one(c, e, k, value(c, e, k+hi, budget(c, 60, 300, 1500)))
		})
		brims(r, h.name+", brim", r.N(60, 500), func(c *mon.Case, e *uni.Entry, v reflect.Value) { one(c, e, c.Idx, v) })
		past16(r, h.name+", past 2^16", func(c *mon.Case, e *uni.Entry, v reflect.Value) { one(c, e, c.Idx, v) })
		r.Phase(h.name+", merkleization", r.N(300, 3000), "merkleization and proofs with "+h.name, func(c *mon.Case) {
			count := uint64(c.R.IntN(70))
			limit := count + uint64(c.R.IntN(10))
			if c.R.IntN(3) == 0 {
				limit = max(count, 1)<<c.R.IntN(50) + uint64(c.R.IntN(3))
			}
			leaves := make([][32]byte, count)
			for i := range leaves {
				gen.FillBytes(c.R, leaves[i][:])
			}
			leaf := func(i uint64) []byte { return leaves[i][:] }
			var got [32]byte
			p := sut.Do(func() { got = merkle.Merkleize(htr.HashFn(h.h), count, limit, leaf) })
			c.Eval(mon.Hash(h.name, count, limit))
			if want := hasher.Merkle(leaves, limit); p != nil || got != want {
				c.Fail("merkleize", "%s: %d leaves, limit %d: %x, want %x %v", h.name, count, limit, got, want, p)
				return
			}
			if limit > 0 {
				idx := c.R.Uint64N(limit)
				if c.R.IntN(2) == 0 {
					idx = c.R.Uint64N(min(limit, count+4))
				}
				var br [][32]byte
				p := sut.Do(func() { br = merkle.ConstructProof(htr.HashFn(h.h), count, limit, leaf, idx) })
				want := hasher.Branch(leaves, limit, idx)
				ok := p == nil && len(br) == len(want)
				for i := range want {
					ok = ok && br[i] == want[i]
				}
				if !ok {
					c.Fail("proof", "%s: %d leaves, limit %d, index %d: branch %x, want %x %v", h.name, count, limit, idx, br, want, p)
				}
			}
			c.Count("merkleizations")
		})
	}
	htr.InitZeroHashes(sha256.Sum256)
	r.Serial("restored", 1, "the table after going back to SHA-256", func(c *mon.Case) { zeroTable(c, "restored", ref.Sha) })
	r.Need("roots with a combiner object", 2000)
	r.Need("roots with a plain function", 2000)
	r.Need("merkleizations", 2000)
}
