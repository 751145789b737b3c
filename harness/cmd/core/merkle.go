package main

import (
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	props["C08"] = c08
	props["C09"] = c09
}

// leafSource hands out leaves in one of several ways and records what was asked.
type leafSource struct {
	data  []byte
	count uint64
	how   int
	buf   [32]byte
	asked []int
	out   []uint64 // indices asked that are not leaves
}

func newLeaves(r *rand.Rand, count uint64) (*leafSource, [][32]byte) {
	s := &leafSource{data: make([]byte, count*32), count: count, how: r.IntN(3), asked: make([]int, count)}
	gen.FillBytes(r, s.data)
	out := make([][32]byte, count)
	for i := range out {
		copy(out[i][:], s.data[i*32:])
	}
	return s, out
}

func (s *leafSource) get(i uint64) []byte {
	if i >= s.count {
		s.out = append(s.out, i)
		return make([]byte, 32)
	}
	s.asked[i]++
	l := s.data[i*32 : i*32+32]
	switch s.how {
	case 0:
		return l // the caller's own memory, followed by the other leaves
	case 1:
		copy(s.buf[:], l) // one buffer for all of them
		return s.buf[:]
	}
	return append([]byte(nil), l...)
}

// same tells whether the leaves were left alone, and only leaves were asked for.
func (s *leafSource) bad(leaves [][32]byte) string {
	if len(s.out) > 0 {
		return fmt.Sprintf("asked for leaves %v, of %d", s.out[:min(len(s.out), 5)], s.count)
	}
	for i := range leaves {
		if string(s.data[i*32:i*32+32]) != string(leaves[i][:]) {
			return fmt.Sprintf("leaf %d changed", i)
		}
	}
	return ""
}

// limits around the powers of two, up to the largest.
func bigLimits() []uint64 {
	m := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	for k := 0; k < 64; k++ {
		p := uint64(1) << k
		for _, d := range []uint64{^uint64(1), ^uint64(0), 0, 1, 2} {
			if x := p + d; x < 1<<63 || k > 60 {
				add(x)
			}
		}
		add(p + p/2)
	}
	for d := uint64(0); d < 9; d++ {
		add(^uint64(0) - d)
	}
	return out
}

var bigCounts = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513}

func c08(r *mon.Run) {
	check := func(c *mon.Case, h *ref.Hasher, count, limit uint64) {
		s, leaves := newLeaves(c.R, count)
		var got [32]byte
		p := sut.Do(func() { got = merkle.Merkleize(htr.HashFn(h.H), count, limit, s.get) })
		c.Eval(mon.Hash(count, limit, c.Phase))
		if p != nil {
			c.Fail("panics", "%d leaves, limit %d: %v", count, limit, p)
			return
		}
		if want := h.Merkle(leaves, limit); got != want {
			c.Fail("root", "%d leaves, limit %d (leaves handed out in way %d): root %x, want %x", count, limit, s.how, got, want)
			return
		}
		if x := s.bad(leaves); x != "" {
			c.Fail("leaves", "%d leaves, limit %d: %s", count, limit, x)
			return
		}
		c.Count("roots compared")
		c.CountMax("largest leaf count", int64(min(count, 1<<62)))
		c.Count(fmt.Sprintf("tree depth %d", ref.Depth(limit)))
	}
	refuse := func(c *mon.Case, count, limit uint64) {
		s := &leafSource{count: 0}
		var got [32]byte
		n := 0
		p := sut.Do(func() {
			got = merkle.Merkleize(sha, count, limit, func(i uint64) []byte {
				if n++; n > 1<<16 {
					panic(giveUp{})
				}
				return s.get(i)
			})
		})
		c.Eval(mon.Hash("over", count, limit))
		if p == nil {
			c.Fail("over-limit", "%d leaves, limit %d: gives the root %x instead of refusing", count, limit, got)
		} else if _, ok := p.Val.(giveUp); ok {
			c.Fail("over-limit", "%d leaves, limit %d: starts merkleizing instead of refusing", count, limit)
		}
		c.Count("over-limit counts refused")
	}
	top := r.N(140, 300)
	r.Phase("small", top+1, "every count up to 140 (thorough: 300) with every limit up to 24 beyond the next power of two", func(c *mon.Case) {
		count := uint64(c.Idx)
		end := uint64(1)<<ref.Depth(count) + 24
		for limit := count; limit <= end && !c.Failed(); limit++ {
			check(c, ref.Sha, count, limit)
		}
		for limit := uint64(0); limit < count && !c.Failed(); limit++ {
			refuse(c, count, limit)
		}
		c.Sample("%d leaves, all limits up to %d", count, end)
	})
	lims := bigLimits()
	r.Phase("limits", len(lims), "limits around every power of two up to 2^64-1, with small counts and those around the limit", func(c *mon.Case) {
		limit := lims[c.Idx]
		cs := append([]uint64(nil), bigCounts...)
		if limit < 1<<14 {
			cs = append(cs, limit, limit-1, limit-2, limit/2, limit/2+1, limit/2-1)
		}
		for i := 0; i < r.N(6, 40); i++ {
			cs = append(cs, c.R.Uint64N(700))
		}
		for _, count := range cs {
			if count <= limit && !c.Failed() {
				check(c, ref.Sha, count, limit)
			}
		}
		for _, over := range []uint64{limit + 1, limit + 2, limit * 2, limit + 1<<32, ^uint64(0), ^uint64(0) - 1, 1 << 63} {
			if over > limit && !c.Failed() {
				refuse(c, over, limit)
			}
		}
	})
	r.Phase("large", r.N(150, 1500), "random larger counts", func(c *mon.Case) {
		count := c.R.Uint64N(1 << (4 + c.R.IntN(11)))
		if c.R.IntN(4) == 0 {
			count = uint64(1)<<(6+c.R.IntN(8)) + c.R.Uint64N(5) - 2
		}
		limit := count + c.R.Uint64N(1<<c.R.IntN(63))
		check(c, ref.Sha, count, limit)
	})
	r.Phase("huge", r.N(9, 48), "beyond 2^16, and beyond 2^18 leaves", func(c *mon.Case) {
		count := uint64(1)<<(16+c.R.IntN(2)) + []uint64{0, 1, ^uint64(0), 12345}[c.Idx%4]
		if c.Idx%8 > 3 && !slow {
			count = uint64(1)<<(18+c.Idx%4) + []uint64{0, 1, ^uint64(0), c.R.Uint64N(1 << 17), 1 << 16, 1 << 15}[c.R.IntN(6)]
		}
		check(c, ref.Sha, count, count+c.R.Uint64N(1<<c.R.IntN(60)))
	})
	r.Need("roots compared", 10000)
	r.Need("over-limit counts refused", 5000)
	r.Need("tree depth 64", 10)
}

type giveUp struct{}

func c09(r *mon.Run) {
	check := func(c *mon.Case, count, limit uint64, indices []uint64) {
		s, leaves := newLeaves(c.R, count)
		var root [32]byte
		p := sut.Do(func() { root = merkle.Merkleize(sha, count, limit, s.get) })
		if p != nil {
			c.Fail("merkleize", "%d leaves, limit %d: merkleizing: %v", count, limit, p)
			return
		}
		d := ref.Depth(limit)
		for _, i := range indices {
			var br [][32]byte
			p := sut.Do(func() { br = merkle.ConstructProof(sha, count, limit, s.get, i) })
			c.Eval(mon.Hash(count, limit, i))
			if p != nil {
				c.Fail("panics", "%d leaves, limit %d, index %d: %v", count, limit, i, p)
				return
			}
			if len(br) != d {
				c.Fail("length", "%d leaves, limit %d, index %d: %d nodes, tree has %d levels", count, limit, i, len(br), d)
				return
			}
			var n [32]byte
			if i < count {
				n = leaves[i]
			}
			for l, b := range br {
				if i>>l&1 == 1 {
					n = ref.Sha.Pair(b, n)
				} else {
					n = ref.Sha.Pair(n, b)
				}
			}
			if n != root {
				w := ref.Sha.Branch(leaves, limit, i)
				c.Fail("proof", "%d leaves, limit %d, index %d: branch gives %x, merkleizing %x\nbranch %x\nwant   %x", count, limit, i, n, root, br, w)
				return
			}
			// the model, in case both are wrong
			if w := ref.Sha.Merkle(leaves, limit); w != root {
				c.Fail("root", "%d leaves, limit %d: root %x, want %x", count, limit, root, w)
				return
			}
			c.Count("proofs verified")
			if i < count {
				c.Count("proofs of leaves")
			} else {
				c.Count("proofs of padding")
			}
			c.Count(fmt.Sprintf("tree depth %d", d))
		}
		if x := s.bad(leaves); x != "" {
			c.Fail("leaves", "%d leaves, limit %d: %s", count, limit, x)
		}
	}
	refuse := func(c *mon.Case, count, limit, index uint64) {
		n := 0
		var br [][32]byte
		p := sut.Do(func() {
			br = merkle.ConstructProof(sha, count, limit, func(i uint64) []byte {
				if n++; n > 1<<16 {
					panic(giveUp{})
				}
				return make([]byte, 32)
			}, index)
		})
		c.Eval(mon.Hash("refuse", count, limit, index))
		if p == nil {
			c.Fail("not-refused", "%d leaves, limit %d, index %d: gives a branch of %d instead of refusing", count, limit, index, len(br))
		} else if _, ok := p.Val.(giveUp); ok {
			c.Fail("not-refused", "%d leaves, limit %d, index %d: starts instead of refusing", count, limit, index)
		}
		c.Count("refused")
	}
	// every count, limit and index, small
	top := r.N(36, 72)
	var once sync.Map
	r.Phase("small", top+1, "every count up to 36 (thorough: 72), every limit up to twice the next power of two and 2 more, every index", func(c *mon.Case) {
		count := uint64(c.Idx)
		end := uint64(2)<<ref.Depth(count) + 2
		for limit := count; limit <= end && !c.Failed(); limit++ {
			var is []uint64
			for i := uint64(0); i < limit; i++ {
				is = append(is, i)
			}
			check(c, count, limit, is)
			for _, i := range []uint64{limit, limit + 1, limit * 2, ^uint64(0), 1 << 32, 1 << 63} {
				if i >= limit && !c.Failed() {
					refuse(c, count, limit, i)
				}
			}
		}
		for limit := uint64(0); limit < count && !c.Failed(); limit++ {
			for _, i := range []uint64{0, limit / 2, limit - 1, limit, count - 1} {
				refuse(c, count, limit, i)
			}
		}
		once.Store(count, true)
	})
	lims := bigLimits()
	r.Phase("limits", len(lims), "limits around every power of two up to 2^64-1; indices around the count, around powers of two and random", func(c *mon.Case) {
		limit := lims[c.Idx]
		for k := 0; k < r.N(8, 60) && !c.Failed(); k++ {
			count := bigCounts[c.R.IntN(len(bigCounts))]
			if c.R.IntN(2) == 0 {
				count = c.R.Uint64N(150)
			}
			if count > limit {
				count = limit
			}
			if limit == 0 {
				refuse(c, 0, 0, c.R.Uint64N(4))
				continue
			}
			m := map[uint64]bool{0: true, limit - 1: true, limit / 2: true}
			for _, x := range []uint64{count - 1, count, count + 1, count ^ 1} {
				m[x] = true
			}
			for j := 0; j < 6; j++ {
				m[uint64(1)<<c.R.IntN(64)+c.R.Uint64N(3)-1] = true
				m[c.R.Uint64N(limit)] = true
				m[c.R.Uint64N(min(limit, count+8))] = true
			}
			var is []uint64
			for x := range m {
				if x < limit {
					is = append(is, x)
				}
			}
			check(c, count, limit, is)
			for _, i := range []uint64{limit, limit + 1, ^uint64(0)} {
				if i >= limit && !c.Failed() {
					refuse(c, count, limit, i)
				}
			}
			if limit < 1<<63 && !c.Failed() {
				refuse(c, limit+1, limit, 0)
				refuse(c, ^uint64(0), limit, limit-1)
			}
		}
	})
	r.Phase("large", r.N(200, 2000), "random counts up to 4096", func(c *mon.Case) {
		count := c.R.Uint64N(1 << (4 + c.R.IntN(9)))
		limit := count + 1 + c.R.Uint64N(1<<c.R.IntN(63))
		check(c, count, limit, []uint64{c.R.Uint64N(limit), c.R.Uint64N(count + 1), c.R.Uint64N(count + 1), count - min(count, 1), limit - 1})
	})
	r.Phase("huge", r.N(4, 24), "beyond 2^16, and beyond 2^18 leaves", func(c *mon.Case) {
		if slow {
			return
		}
		count := uint64(1)<<(16+c.Idx%4) + []uint64{0, 1, ^uint64(0), c.R.Uint64N(1 << 15), 1 << 14}[c.R.IntN(5)]
		limit := count + 1 + c.R.Uint64N(1<<c.R.IntN(63))
		check(c, count, limit, []uint64{c.R.Uint64N(count), c.R.Uint64N(limit), count - 1})
	})
	r.Need("proofs of leaves", 10000)
	r.Need("proofs of padding", 10000)
	r.Need("refused", 5000)
	r.Need("tree depth 64", 10)
}
