package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/protolambda/zssz/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/spy"
	"verif/harness/sut"
	"verif/harness/uni"
)

func init() {
	props["C17"] = c17
}

// cop is one operation of a concurrent case. Everything it needs is made beforehand, and its
// result is kept raw and looked at afterwards, so that the only synchronisation between the
// goroutines is what the library does itself.
type cop struct {
	kind   int
	val    reflect.Value // shared by all goroutines, only read
	valPtr any
	in     []byte
	dst    reflect.Value
	dstPtr any
	limit  int
	src    *spy.Reader
	w      *spy.Writer
	newT   reflect.Type

	// results
	n     uint64
	root  [32]byte
	err   error
	p     *sut.Panic
	lens  sut.Lens
	text  bytes.Buffer
	made  types.SSZ
	start time.Time
	end   time.Time
}

var copNames = []string{"encode", "size", "root", "signing root", "pretty", "decode valid", "decode hostile", "dry check", "fuzz decode", "failing encode", "construct", "length bounds", "decode truncated"}

func (o *cop) run(d types.SSZ) {
	o.start = time.Now()
	switch o.kind {
	case 0, 9:
		var n int
		n, o.err, o.p = sut.EncodeTo(o.w, o.valPtr, d)
		o.n = uint64(n)
	case 1:
		o.n, o.p = sut.SizeOf(o.valPtr, d)
	case 2:
		o.root, o.p = sut.Root(sha, o.valPtr, d)
	case 3:
		if s, ok := d.(signed); ok {
			o.root, o.p = sut.SigningRoot(sha, o.valPtr, s)
		}
	case 4:
		o.p = sut.PrettyTo(&o.text, " ", o.valPtr, d)
	case 5, 6, 12:
		o.err, o.p = sut.DecodeFrom(o.src, uint64(o.limit), o.dstPtr, d)
	case 7:
		o.err, o.p = sut.DryFrom(o.src, uint64(o.limit), d)
	case 8:
		o.n, o.err, o.p = sut.FuzzFrom(o.src, uint64(o.limit), o.dstPtr, d)
	case 10:
		o.made, o.err, o.p = sut.New(o.newT)
	case 11:
		o.lens, o.p = sut.LensOf(d)
	}
	o.end = time.Now()
}

func c17(r *mon.Run) {
	es := uni.Filter(universe(r), func(e *uni.Entry) bool { return e.T.Size() < 8000 })
	race := r.Config == "race"
	rep := r.N(3, 24)
	if race {
		rep = r.N(1, 8)
	}
	const G, K = 16, 10
	orders := map[uint64]bool{}
	var omu sync.Mutex
	f := func(c *mon.Case, e *uni.Entry, k int) {
		fresh, err, p := sut.New(e.T) // nobody has used this one
		if err != nil || p != nil {
			c.Fail("construct", "%s: %v %v", e.Name, err, p)
			return
		}
		construct := c.R.IntN(3) == 0
		// shared values, only read
		const V = 3
		var vals [V]reflect.Value
		var encs [V][]byte
		for i := range vals {
			g := gen.New(c.R, mode(max(k, 0)+i), budget(c, 40, 200, 500))
			g.Slack = true
			if k < 0 {
				vals[i] = fillBrim(c, e)
			} else {
				vals[i] = g.Value(e.N)
				alias(c, e, vals[i])
			}
			gen.FillOmitted(c.R, vals[i])
			encs[i] = e.N.Encode(vals[i])
		}
		var fuzzMin uint64
		if x, _, _ := sut.New(e.T); x != nil {
			l, _ := sut.LensOf(x)
			fuzzMin = min(l.FuzzMin, 1<<16)
		}
		var ops [G][K]*cop
		var idx [G][K]int
		for g := range ops {
			for i := range ops[g] {
				rnd := rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64()))
				o := &cop{kind: c.R.IntN(13)}
				if k < 0 && o.kind == 4 {
					o.kind = 2
				}
				if o.kind == 10 && !construct {
					o.kind = c.R.IntN(10)
				}
				vi := c.R.IntN(V)
				idx[g][i] = vi
				o.val = vals[vi]
				o.valPtr = ptr(o.val)
				o.dst = reflect.New(e.T).Elem()
				o.dstPtr = ptr(o.dst)
				o.w = &spy.Writer{Limit: -1, R: rnd, Yield: c.R.IntN(2) == 0}
				switch o.kind {
				case 5, 7:
					o.in = encs[vi]
				case 6:
					o.in, _ = gen.Hostile(c.R, e.N, budget(c, 100))
				case 8:
					o.in = fuzzInput(c, int(fuzzMin)+c.R.IntN(100))
				case 12:
					o.in = encs[vi]
				case 9:
					o.w.Limit, o.w.Err = c.R.IntN(len(encs[vi])+1), spy.ErrInjected
				case 10:
					o.newT = e.T
					if c.R.IntN(2) == 0 {
						o.newT = es[c.R.IntN(len(es))].T
					}
				}
				o.limit = len(o.in)
				data := o.in // the bytes of a message are shared by all who read it
				if o.kind == 12 && len(data) > 0 {
					data = data[:c.R.IntN(len(data))]
				}
				o.src = &spy.Reader{Data: data, R: rnd, Yield: c.R.IntN(2) == 0, Max: []int{0, 9}[c.R.IntN(2)]}
				ops[g][i] = o
			}
		}
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for g := range ops {
			ready.Add(1)
			done.Add(1)
			go func(mine *[K]*cop) {
				defer done.Done()
				ready.Done()
				<-start
				for _, o := range mine {
					o.run(fresh)
				}
			}(&ops[g])
		}
		ready.Wait()
		close(start)
		done.Wait()

		// afterwards: what overlapped, and is every result the sequential one
		type ev struct {
			t time.Time
			g int
		}
		var evs []ev
		overlaps := 0
		for g := range ops {
			for _, o := range ops[g] {
				evs = append(evs, ev{o.start, g})
			}
			for h := g + 1; h < G; h++ {
				for _, a := range ops[g] {
					for _, b := range ops[h] {
						if a.start.Before(b.end) && b.start.Before(a.end) {
							overlaps++
						}
					}
				}
			}
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
		var order []byte
		for _, x := range evs {
			order = append(order, byte(x.g))
		}
		omu.Lock()
		orders[mon.HashBytes(order)] = true
		omu.Unlock()
		c.CountN("pairs of operations that overlapped in time", int64(overlaps))
		if overlaps > 0 {
			c.Count("cases with overlapping operations")
		}
		seq, err, p := sut.New(e.T)
		if err != nil || p != nil {
			c.Fail("construct", "%s: %v %v", e.Name, err, p)
			return
		}
		for g := range ops {
			for i, o := range ops[g] {
				c.Count("op: " + copNames[o.kind])
				c.Eval(mon.Hash(e.Name, o.kind, mon.HashBytes(o.in), mon.HashBytes(encs[idx[g][i]]), o.limit))
				if x := o.judge(e, seq, encs[idx[g][i]]); x != "" {
					c.Fail("result", "%s: %s by goroutine %d (operation %d), among %d goroutines with one definition: %s\nvalue %s\ninput %s", e.Name, copNames[o.kind], g, i, G, x, hx(encs[idx[g][i]]), hx(o.in))
					return
				}
			}
		}
		for i := range vals {
			if b := e.N.Encode(vals[i]); !bytes.Equal(b, encs[i]) {
				c.Fail("value-changed", "%s: a shared value changed: %s", e.Name, firstDiff(b, encs[i]))
			}
		}
		c.Sample("%s: %d goroutines x %d operations, %d overlapping pairs", e.Name, G, K, overlaps)
	}
	perType(r, "mixed", es, rep, "16 goroutines with any mix of operations on one unused definition and three shared values", f)
	bes := uni.Filter(uni.Brim(), func(e *uni.Entry) bool { return e.N.MaxLen().Uint64() < 600000 })
	r.Phase("brim", r.N(map[bool]int{true: 8, false: 24}[race], 100), "the same with large series, filled to the limit or nearly", func(c *mon.Case) { f(c, bes[c.R.IntN(len(bes))], -1) })
	r.Count("distinct interleavings of operation starts", int64(len(orders)))
	r.Need("cases with overlapping operations", 300)
	r.Need("op: construct", 500)
}

// judge repeats the operation alone, with a definition of its own, and compares; and with the model.
func (o *cop) judge(e *uni.Entry, seq types.SSZ, enc []byte) string {
	if o.p != nil {
		return "panics: " + o.p.String()
	}
	q := &cop{kind: o.kind, valPtr: o.valPtr, limit: o.limit, newT: o.newT}
	q.dst = reflect.New(e.T).Elem()
	q.dstPtr = ptr(q.dst)
	q.w = &spy.Writer{Limit: o.w.Limit, Err: o.w.Err}
	q.src = &spy.Reader{Data: o.src.Data}
	if o.kind == 10 {
		if o.err != nil || o.made == nil {
			return fmt.Sprint("definition not constructed: ", o.err)
		}
		l1, _ := sut.LensOf(o.made)
		d, _, _ := sut.Get(o.newT)
		l2, _ := sut.LensOf(d.S)
		if l1 != l2 {
			return fmt.Sprintf("the definition constructed meanwhile differs: %+v, %+v", l1, l2)
		}
		return ""
	}
	q.run(seq)
	switch {
	case q.p != nil:
		return "alone: " + q.p.String()
	case (o.err == nil) != (q.err == nil):
		return fmt.Sprintf("error %v, alone %v", o.err, q.err)
	case o.n != q.n:
		return fmt.Sprintf("%d, alone %d", o.n, q.n)
	case o.root != q.root:
		return fmt.Sprintf("%x, alone %x", o.root, q.root)
	case o.lens != q.lens:
		return fmt.Sprintf("%+v, alone %+v", o.lens, q.lens)
	case !bytes.Equal(o.w.Buf, q.w.Buf):
		return "output: " + firstDiff(o.w.Buf, q.w.Buf)
	case o.text.String() != q.text.String():
		return "text: " + firstDiff(o.text.Bytes(), q.text.Bytes())
	}
	switch o.kind {
	case 0:
		if !bytes.Equal(o.w.Buf, enc) {
			return "output is not the encoding: " + firstDiff(o.w.Buf, enc)
		}
	case 2:
		v := reflect.New(e.T).Elem()
		if e.N.Decode(enc, v) == nil && o.root != e.N.Root(ref.Sha, v) {
			return fmt.Sprintf("root %x is not the model's", o.root)
		}
	case 5, 6, 8, 12:
		if o.err == nil && !e.N.Equal(o.dst, q.dst) {
			return "decoded value differs: " + firstDiff(e.N.Encode(o.dst), e.N.Encode(q.dst))
		}
		if o.kind == 5 && (o.err != nil || !bytes.Equal(e.N.Encode(o.dst), enc)) {
			return fmt.Sprintf("valid encoding decodes to something else (%v)", o.err)
		}
	}
	return ""
}
