// Command core monitors the type-level properties of zssz over the type universe.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"

	"github.com/protolambda/zssz/htr"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
	"verif/harness/uni"
)

var props = map[string]func(*mon.Run){}

func main() {
	mon.Main(func(r *mon.Run) {
		slow = strings.HasPrefix(r.Config, "mips")
		f := props[r.Prop]
		if f == nil {
			panic("no such property here: " + r.Prop)
		}
		f(r)
	})
}

var sha = htr.HashFn(sha256.Sum256)

// universe of the run
func universe(r *mon.Run) []*uni.Entry {
	es := uni.All(r.Seed, r.N(120, 1200))
	wide := uni.Wide()
	if strings.HasPrefix(r.Config, "mips") { // slow there
		wide = uni.Filter(wide, func(e *uni.Entry) bool { return e.T.Size() < 1<<14 || e.T.Size()%5 == 0 && e.T.Size() < 1<<20 })
	}
	lim := uni.Limits()
	if strings.HasPrefix(r.Config, "mips") {
		var some []*uni.Entry
		for i := r.Seed % 7; i < uint64(len(lim)); i += 7 {
			some = append(some, lim[i])
		}
		lim = some
	}
	return append(append(es, lim...), wide...)
}

// perType spreads rep cases over every entry.
func perType(r *mon.Run, name string, es []*uni.Entry, rep int, note string, f func(c *mon.Case, e *uni.Entry, k int)) {
	if !r.Thorough() {
		rep *= max(1, r.Boost)
	}
	r.Phase(name, len(es)*rep, note, func(c *mon.Case) { f(c, es[c.Idx%len(es)], c.Idx/len(es)) })
}

// def fetches the definition; failing to construct a supported type breaks every property.
func def(c *mon.Case, e *uni.Entry) *sut.Def {
	d, err, p := sut.Get(e.T)
	if p != nil || err != nil || d == nil {
		c.Fail("construct", "definition of supported type %s not constructed: err=%v %v", e.Name, err, p)
		return nil
	}
	return d
}

func ptr(v reflect.Value) any { return v.Addr().Interface() }

func hx(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:300]), len(b))
	}
	return hex.EncodeToString(b)
}

// mode cycles through the generator modes.
func mode(k int) gen.Mode {
	return []gen.Mode{gen.Random, gen.Full, gen.Tiny, gen.Zero, gen.Long, gen.Random, gen.Random}[k%7]
}

// slow machines get few large values.
var slow bool

// budget picks one of the usual sizes of values, and now and then a large one.
func budget(c *mon.Case, usual ...int) int {
	x := c.R.IntN(1200)
	switch {
	case x == 0 && (!slow || c.R.IntN(8) == 0):
		return 66000 + c.R.IntN(8000)
	case x < 12 && (!slow || x < 3):
		return 2000 + c.R.IntN(7000)
	}
	return usual[c.R.IntN(len(usual))]
}

func value(c *mon.Case, e *uni.Entry, k, budget int) reflect.Value {
	g := gen.New(c.R, mode(k), budget)
	g.Slack = c.R.IntN(3) == 0
	v := g.Value(e.N)
	alias(c, e, v)
	if c.R.IntN(2) == 0 {
		gen.FillOmitted(c.R, v)
	}
	return v
}

// alias makes parts of one in four values share memory.
func alias(c *mon.Case, e *uni.Entry, v reflect.Value) {
	if c.R.IntN(4) == 0 && gen.Alias(c.R, e.N, v) > 0 {
		c.Count("values with parts in common memory")
	}
}

// reused runs f on a value, and again after changing places of it in memory, mostly without moving anything.
func reused(c *mon.Case, e *uni.Entry, v reflect.Value, f func(v reflect.Value)) {
	f(v)
	for i := 0; i < 3 && c.R.IntN(2) == 0 && !c.Failed(); i++ {
		gen.Perturb(gen.New(c.R, gen.Random, 100), e.N, v)
		c.Count("values changed in place")
		f(v)
	}
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d", len(a), len(b), i)
}

// feature counters: what the values exercised
func count(c *mon.Case, n *ref.Node, enc []byte) {
	switch {
	case len(enc) == 0:
		c.Count("encodings: empty")
	case len(enc) < 256:
		c.Count("encodings: <256 B")
	case len(enc) < 1<<16:
		c.Count("encodings: <64 KiB")
	case len(enc) < 1<<24:
		c.Count("encodings: <16 MiB")
	default:
		c.Count("encodings: >=16 MiB")
	}
	c.Count("kind: " + n.K.String())
	if n.Fixed() {
		c.Count("fixed-size type")
	} else {
		c.Count("variable-size type")
	}
}

func evid(e *uni.Entry, b []byte) uint64 { return mon.Hash(e.Name, len(b), mon.HashBytes(b)) }

// encodes checks one value's encoding against the reference.
func encodes(c *mon.Case, e *uni.Entry, d *sut.Def, v reflect.Value) []byte {
	want := e.N.Encode(v)
	got, n, err, p := sut.Encode(ptr(v), d.S)
	c.Eval(evid(e, want))
	count(c, e.N, want)
	if p != nil || err != nil {
		c.Fail("encode-fails", "%s: encoding a valid value failed: err=%v %v\nwant %s", e.Name, err, p, hx(want))
		return nil
	}
	if !bytes.Equal(got, want) {
		c.Fail("encode-differs", "%s: %s\ngot  %s\nwant %s", e.Name, firstDiff(got, want), hx(got), hx(want))
		return nil
	}
	if n != len(want) {
		c.Fail("encode-count", "%s: returned count %d for %d bytes", e.Name, n, len(want))
	}
	return want
}

// bigTypes are those whose values can need large offsets.
func bigTypes(es []*uni.Entry, min uint64) []*uni.Entry {
	return uni.Filter(es, func(e *uni.Entry) bool {
		return !e.N.Fixed() && e.N.MaxLen().BitLen() > 0 && (e.N.MaxLen().BitLen() > 60 || e.N.MaxLen().Uint64() >= min)
	})
}
