package main

import (
	"bytes"
	"syscall"
	"unsafe"

	"github.com/protolambda/zssz/bitfields"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/sut"
)

func init() { props["C23"] = c23 }

// The model: bits one by one, lowest bit of the first byte first.
func explode(b []byte) []bool {
	out := make([]bool, 0, len(b)*8)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			out = append(out, x%2 == 1)
			x /= 2
		}
	}
	return out
}

// delimiter is the position of the highest set bit of the last byte, -1 if there is none.
func delimiter(bits []bool) int {
	for i := len(bits) - 1; i >= 0 && i >= len(bits)-8; i-- {
		if bits[i] {
			return i
		}
	}
	return -1
}

func bitlistChecks(c *mon.Case, b []byte, limits []uint64) {
	bits := explode(b)
	d := delimiter(bits)
	keep := append([]byte(nil), b...)
	var n uint64
	if p := sut.Do(func() { n = bitfields.BitlistLen(b) }); p != nil {
		c.Fail("length", "length of %x: %v", b, p)
		return
	}
	want := uint64(0)
	switch {
	case d >= 0:
		want = uint64(d)
	case len(b) > 0: // no delimiter: documented to be as if it was at the start of the last byte
		want = uint64(len(b)-1) * 8
	}
	if n != want {
		c.Fail("length", "length of %x: %d, want %d", b, n, want)
		return
	}
	zero := true
	for i, x := range bits {
		zero = zero && (!x || i == d)
	}
	var z bool
	if p := sut.Do(func() { z = bitfields.IsZeroBitlist(b) }); p != nil || z != zero {
		c.Fail("zero", "zero test of %x: %v, want %v %v", b, z, zero, p)
		return
	}
	for _, l := range limits {
		var err error
		p := sut.Do(func() { err = bitfields.BitlistCheck(b, l) })
		valid := d >= 0 && uint64(d) <= l
		if p != nil || (err == nil) != valid {
			c.Fail("bitlist-check", "check of %x with limit %d: %v %v, want valid: %v", b, l, err, p, valid)
			return
		}
		if valid {
			c.Count("valid bitlists")
		} else {
			c.Count("invalid bitlists")
		}
	}
	if !bytes.Equal(b, keep) {
		c.Fail("changed", "%x changed to %x by reading", keep, b)
	}
	c.Eval(mon.Hash("bl", len(b), mon.HashBytes(b)))
}

func bitvectorChecks(c *mon.Case, b []byte, ns []uint64) {
	bits := explode(b)
	for _, n := range ns {
		need := n / 8
		if n%8 != 0 {
			need++
		}
		valid := uint64(len(b)) == need
		for i := n; valid && i < uint64(len(bits)); i++ {
			valid = !bits[i]
		}
		var err error
		p := sut.Do(func() { err = bitfields.BitvectorCheck(b, n) })
		if p != nil || (err == nil) != valid {
			c.Fail("bitvector-check", "check of %x with length %d: %v %v, want valid: %v", b, n, err, p, valid)
			return
		}
		if valid {
			c.Count("valid bitvectors")
		} else {
			c.Count("invalid bitvectors")
		}
	}
	c.Eval(mon.Hash("bv", len(b), mon.HashBytes(b)))
}

func c23(r *mon.Run) {
	around := func(n uint64) []uint64 {
		var out []uint64
		for d := int64(-9); d <= 9; d++ {
			if x := int64(n) + d; x >= 0 {
				out = append(out, uint64(x))
			}
		}
		return append(out, 0, 1, 7, 8, 9, 1<<16, 1<<32, 1<<63, 1<<63-1)
	}
	var tops []uint64
	for d := uint64(0); d < 20; d++ {
		tops = append(tops, ^uint64(0)-d)
	}
	small := func(c *mon.Case, b []byte) {
		ls := append(around(uint64(len(b))*8), tops...)
		bitlistChecks(c, b, ls)
		bitvectorChecks(c, b, ls)
	}
	r.Phase("bytes", 257, "every byte: highest bit, and as the last byte of short strings", func(c *mon.Case) {
		if c.Idx == 256 {
			small(c, nil)
			small(c, []byte{})
			return
		}
		x := byte(c.Idx)
		want := uint64(0)
		for i, b := range explode([]byte{x}) {
			if b {
				want = uint64(i)
			}
		}
		if got := bitfields.BitIndex(x); got != want {
			c.Fail("index", "highest bit of %08b: %d, want %d", x, got, want)
			return
		}
		c.Count("bytes")
		small(c, []byte{x})
		for l := 0; l <= 10; l++ {
			var err error
			if p := sut.Do(func() { err = bitfields.BitlistCheckLastByte(x, uint64(l)) }); p != nil || (err == nil) != (x != 0 && want <= uint64(l)) {
				c.Fail("bitlist-last-byte", "last byte %08b with %d bits allowed: %v %v", x, l, err, p)
				return
			}
			c.Count("last bytes")
		}
		for _, n := range append([]uint64{0, 1 << 16, 1<<32 + 3, ^uint64(0), ^uint64(7)}, upTo(24)...) {
			var err error
			// without bits there is no byte that could be the last
			if p := sut.Do(func() { err = bitfields.BitvectorCheckLastByte(x, n) }); p != nil || (err == nil) != (n > 0 && (n%8 == 0 || x>>(n%8) == 0)) {
				c.Fail("bitvector-last-byte", "last byte %08b of %d bits: %v %v", x, n, err, p)
				return
			}
			c.Count("last bytes")
		}
		for y := 0; y < 256 && !c.Failed(); y++ {
			small(c, []byte{byte(y), x})
			small(c, []byte{0, byte(y), x})
		}
	})
	r.Phase("lengths", 600, "byte length checks, for every bit length up to 600 and the largest ones", func(c *mon.Case) {
		n := uint64(c.Idx)
		if c.Idx >= 560 {
			n = ^uint64(0) - uint64(c.Idx-560)
		}
		need := n/8 + (n%8+7)/8
		for _, l := range append(around(need), tops...) {
			var err error
			if p := sut.Do(func() { err = bitfields.BitvectorCheckByteLen(l, n) }); p != nil || (err == nil) != (l == need) {
				c.Fail("bitvector-bytes", "%d bytes for %d bits: %v %v, want %d bytes", l, n, err, p, need)
				return
			}
			if p := sut.Do(func() { err = bitfields.BitlistCheckByteLen(l, n) }); p != nil || (err == nil) != (l > 0 && l-1 <= n/8) {
				c.Fail("bitlist-bytes", "%d bytes for a limit of %d bits: %v %v", l, n, err, p)
				return
			}
			c.Eval(mon.Hash("len", n, l))
		}
	})
	r.Phase("random", r.N(20000, 200000), "byte strings: noise, sparse, full; every bit read and set, between guard bytes", func(c *mon.Case) {
		n := c.R.IntN(1 << c.R.IntN(9))
		mem := make([]byte, n+16)
		gen.FillBytes(c.R, mem)
		b := mem[8 : 8+n : 8+n]
		switch c.R.IntN(4) {
		case 0:
			clear(b)
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		}
		for i := c.R.IntN(3); i > 0 && n > 0; i-- {
			b[c.R.IntN(n)] ^= 1 << c.R.IntN(8)
		}
		if n > 0 {
			switch c.R.IntN(5) {
			case 0:
				b[n-1] = 0
			case 1, 2:
				b[n-1] = 1 << c.R.IntN(8)
			}
		}
		bits := explode(b)
		ls := append(around(uint64(n)*8), tops[c.R.IntN(len(tops))], c.R.Uint64())
		bitlistChecks(c, b, ls)
		bitvectorChecks(c, b, ls)
		for k := 0; k < min(len(bits)*2, 300); k++ {
			i := k
			if len(bits) > 150 {
				i = c.R.IntN(len(bits))
			} else {
				i = k % len(bits)
			}
			var got bool
			if p := sut.Do(func() { got = bitfields.GetBit(b, uint64(i)) }); p != nil || got != bits[i] {
				c.Fail("get", "bit %d of %x: %v, want %v %v", i, b, got, bits[i], p)
				return
			}
			v := c.R.IntN(2) == 0
			before := append([]byte(nil), mem...)
			p := sut.Do(func() { bitfields.SetBit(b, uint64(i), v) })
			bits[i] = v
			before[8+i/8] = 0
			for j := 0; j < 8; j++ {
				if bits[i/8*8+j] {
					before[8+i/8] |= 1 << j
				}
			}
			if p != nil || !bytes.Equal(before, mem) {
				c.Fail("set", "setting bit %d to %v: memory is %x, want %x %v", i, v, mem, before, p)
				return
			}
			c.Count("bits read and set")
		}
		c.Sample("%d bytes %.40x", n, b)
	})
	r.Serial("sparse", r.N(60, 600), "bitfields of more than 2^32 bits, in memory that is mostly untouched", func(c *mon.Case) {
		if slow {
			return
		}
		const size = 1<<29 + 1<<20
		mem, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			c.Count("sparse memory not available")
			return
		}
		defer syscall.Munmap(mem)
		// few bits are set, and remembered
		set := map[uint64]bool{}
		tries := []uint64{0, 1, 7, 8, 63, 64, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 8, 1<<32 + 64, size*8 - 1, size*8 - 8, size*8 - 9}
		for i := 0; i < 10; i++ {
			x := c.R.Uint64N(size * 8)
			tries = append(tries, x, x^1<<31, x&(1<<32-1), x&(1<<20-1))
		}
		for k := 0; k < 60; k++ {
			i, v := tries[c.R.IntN(len(tries))], c.R.IntN(3) > 0
			if i >= size*8 {
				continue
			}
			if p := sut.Do(func() { bitfields.SetBit(mem, i, v) }); p != nil {
				c.Fail("set", "setting bit %d of 2^32+2^23: %v", i, p)
				return
			}
			set[i] = v
			for _, j := range tries {
				if j >= size*8 {
					continue
				}
				var got bool
				p := sut.Do(func() { got = bitfields.GetBit(mem, j) })
				if direct := mem[j/8]>>(j%8)&1 == 1; p != nil || got != set[j] || direct != set[j] {
					c.Fail("get", "after setting bit %d to %v: bit %d is %v (in memory %v), want %v %v", i, v, j, got, direct, set[j], p)
					return
				}
			}
			c.Eval(mon.Hash("sparse", i, v, k))
			c.Count("bits beyond 2^32")
		}
		// bitlists that end behind the 2^29th byte
		for _, l := range []uint64{1 << 29, 1<<29 - 1, 1<<29 + 1, 1<<29 + c.R.Uint64N(1<<20)} {
			b := mem[:l:l]
			last := b[l-1]
			b[l-1] = byte(1 + c.R.IntN(255))
			top := uint64(0)
			for i, x := range explode(b[l-1:]) {
				if x {
					top = uint64(i)
				}
			}
			want := (l-1)*8 + top
			var n uint64
			if p := sut.Do(func() { n = bitfields.BitlistLen(b) }); p != nil || n != want {
				c.Fail("length", "length of a bitlist of %d bytes ending in %08b: %d, want %d %v", l, b[l-1], n, want, p)
				return
			}
			for _, lim := range []uint64{want - 1, want, want + 1, want &^ 7, want | 7, 1 << 32, want & (1<<32 - 1), want + 1<<32, ^uint64(0), 0, l} {
				var err error
				if p := sut.Do(func() { err = bitfields.BitlistCheck(b, lim) }); p != nil || (err == nil) != (want <= lim) {
					c.Fail("bitlist-check", "check of a bitlist of %d bits with limit %d: %v %v", want, lim, err, p)
					return
				}
			}
			b[l-1] = last
			for _, n := range []uint64{l * 8, l*8 - 7, l*8 - 8, l*8 + 1, l * 8 & (1<<32 - 1)} {
				valid := n/8+(n%8+7)/8 == l && (n%8 == 0 || last>>(n%8) == 0)
				var err error
				if p := sut.Do(func() { err = bitfields.BitvectorCheck(b, n) }); p != nil || (err == nil) != valid {
					c.Fail("bitvector-check", "check of a bitvector of %d bytes ending in %08b with length %d: %v %v, want valid: %v", l, last, n, err, p, valid)
					return
				}
			}
			c.Eval(mon.Hash("sparse list", l, want))
		}
		if c.Idx%20 == 1 && unsafe.Sizeof(uintptr(0)) == 8 { // lengths in bytes that do not fit 32 bits
			vast(c)
		}
		if c.Idx%15 == 0 { // looks at all the memory
			for i := range set {
				mem[i/8] = 0
			}
			at := c.R.Uint64N(size - 1)
			for _, x := range []byte{0, 1 << c.R.IntN(8)} {
				mem[at], mem[size-1] = x, 16
				var z bool
				if p := sut.Do(func() { z = bitfields.IsZeroBitlist(mem) }); p != nil || z != (x == 0) {
					c.Fail("zero", "zero test of %d bytes with %d at %d: %v %v", size, x, at, z, p)
					return
				}
			}
			c.Count("large bitlists tested for zero")
		}
	})
	r.Need("bits read and set", 100000)
	r.Need("valid bitlists", 10000)
	r.Need("valid bitvectors", 10000)
}

// vast looks at bitfields of about 2^32 bytes.
func vast(c *mon.Case) {
	most := uint64(1)<<32 + 1<<16
	b, err := syscall.Mmap(-1, 0, int(most), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		c.Count("vast memory not available")
		return
	}
	defer syscall.Munmap(b)
	for _, l := range []uint64{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 1 + c.R.Uint64N(1<<16-1)} {
		k := c.R.Uint64N(8)
		b[l-1] = 1 << k
		x, n := b[:l:l], (l-1)*8+k
		var got uint64
		if p := sut.Do(func() { got = bitfields.BitlistLen(x) }); p != nil || got != n {
			c.Fail("length", "length of a bitlist of %d bytes ending in %08b: %d, want %d %v", l, b[l-1], got, n, p)
			return
		}
		for _, lim := range []uint64{n - 1, n, n + 1, n & (1<<32 - 1), n + 1<<32, n & (1<<35 - 1), 1 << 35, 1<<35 - 1, 100, ^uint64(0)} {
			var err error
			if p := sut.Do(func() { err = bitfields.BitlistCheck(x, lim) }); p != nil || (err == nil) != (n <= lim) {
				c.Fail("bitlist-check", "check of a bitlist of %d bits with limit %d: %v %v", n, lim, err, p)
				return
			}
		}
		for _, m := range []uint64{n, n + 1, l * 8, l*8 + 1, l*8 - 8, l * 8 & (1<<35 - 1), l * 8 & (1<<32 - 1)} {
			valid := (m+7)/8 == l && m > n
			var err error
			if p := sut.Do(func() { err = bitfields.BitvectorCheck(x, m) }); p != nil || (err == nil) != valid {
				c.Fail("bitvector-check", "check of a bitvector of %d bytes, bit %d set, with length %d: %v %v, want valid: %v", l, n, m, err, p, valid)
				return
			}
		}
		for _, i := range []uint64{n, n ^ 1<<32, n & (1<<32 - 1), n & (1<<35 - 1), n ^ 1<<34} {
			if i >= l*8 || i == n {
				continue
			}
			if bitfields.GetBit(x, i) || !bitfields.GetBit(x, n) {
				c.Fail("get", "in %d bytes with bit %d set only, bit %d is read wrongly", l, n, i)
				return
			}
			bitfields.SetBit(x, n, false)
			bitfields.SetBit(x, i, true)
			if x[l-1] != 0 || x[i/8] != 1<<(i%8) {
				c.Fail("set", "in %d bytes, setting bit %d and unsetting bit %d leaves %08b and %08b", l, i, n, x[i/8], x[l-1])
				return
			}
			bitfields.SetBit(x, i, false)
			bitfields.SetBit(x, n, true)
			if x[l-1] != 1<<k || x[i/8] != 0 {
				c.Fail("set", "in %d bytes, unsetting bit %d and setting bit %d leaves %08b and %08b", l, i, n, x[i/8], x[l-1])
				return
			}
		}
		b[l-1] = 0
		c.Eval(mon.Hash("vast", l, n))
		c.Count("bitfields of about 2^32 bytes")
	}
}

func upTo(n uint64) (out []uint64) {
	for i := uint64(1); i <= n; i++ {
		out = append(out, i)
	}
	return
}
