// Package uni is the universe of types the monitors run over: named types (systematic and
// generated) and types composed at run time from them.
package uni

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"

	"verif/harness/ref"
)

func bitLen(b []byte) uint64 {
	if l := ref.BitLen(b); l > 0 {
		return uint64(l)
	}
	return 0
}

type Entry struct {
	Name string
	T    reflect.Type
	N    *ref.Node
}

const maxMem = 1 << 15

// zeroSizeElem: list types over elements with an empty encoding are outside SSZ.
func bad(n *ref.Node) bool {
	return n.Has(func(m *ref.Node) bool {
		if m.K == ref.KList && m.Elem.Fixed() && m.Elem.FixedLen() == 0 {
			return true
		}
		return m.K == ref.KVector && (m.N == 0 || (m.Elem.Fixed() && m.Elem.FixedLen() == 0))
	})
}

var mu sync.Mutex

func entry(t reflect.Type) (*Entry, bool) { return anyEntry(t, false) }

func wideEntry(t reflect.Type) (*Entry, bool) { return anyEntry(t, true) }

func anyEntry(t reflect.Type, large bool) (*Entry, bool) {
	n, err := ref.Of(t)
	if err != nil && strings.Contains(err.Error(), "of elements without contents") {
		return nil, false // made by chance
	}
	if err != nil {
		panic(fmt.Sprintf("universe type %v not supported by the model: %v", t, err))
	}
	if bad(n) || (t.Size() > maxMem && !large) {
		return nil, false
	}
	name := t.String()
	if len(name) > 120 {
		name = name[:120] + "..."
	}
	return &Entry{Name: name, T: t, N: n}, true
}

var basics = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
}

var sysOnce sync.Once
var sys []*Entry

// Systematic returns the seed-independent part: all named types, plus vectors of every
// basic kind around chunk boundaries, plus pointers and vectors over all named types.
func Systematic() []*Entry {
	sysOnce.Do(func() {
		mu.Lock()
		defer mu.Unlock()
		add := func(t reflect.Type) {
			if e, ok := entry(t); ok {
				sys = append(sys, e)
			}
		}
		for _, t := range basics {
			add(t)
			for _, l := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129, 255, 256, 257} {
				add(reflect.ArrayOf(l, t))
			}
			add(reflect.PointerTo(t))
			add(reflect.PointerTo(reflect.PointerTo(t)))
			add(reflect.ArrayOf(3, reflect.PointerTo(t)))
		}
		for _, l := range []int{6, 10, 11, 12, 13, 14, 18, 20, 24, 28, 30, 34, 40, 47, 48, 49, 56, 60, 62, 66, 80, 100, 127, 130, 160, 191, 192, 193, 224, 254, 258, 320, 383, 384, 400, 511, 512, 513, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096} {
			add(reflect.ArrayOf(l, basics[1]))
		}
		for i, l := range []int{6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 34, 63, 127, 128, 129, 255, 256, 257, 1024} {
			add(reflect.ArrayOf(l, reflect.TypeOf([]any{[32]byte{}, struct {
				A uint16
				B [2]bool
			}{}}[i%2])))
			add(reflect.ArrayOf(l, reflect.TypeOf([]any{LByte_7{}, struct {
				A L[uint16, n2]
				B uint8
			}{}}[i%2])))
		}
		for i, l := range []int{22, 25, 28, 29, 30, 31, 32, 35, 63, 64, 66, 100, 127, 128, 129, 255, 256, 257} {
			add(manyFields(l, func(k int) reflect.Type {
				if k%9 == i%9 {
					return reflect.TypeOf(LByte_7{})
				}
				return basics[(k+k/5)%5]
			}))
		}
		for _, t := range named {
			add(t)
		}
		for _, t := range odd() {
			e, ok := entry(t)
			if !ok {
				panic("odd type not supported: " + t.String())
			}
			sys = append(sys, e)
		}
		for i, t := range named {
			add(reflect.ArrayOf(1+i%4, t))
			if i%3 == 0 {
				add(reflect.PointerTo(t))
			}
			if i%5 == 0 {
				add(reflect.ArrayOf(2, reflect.PointerTo(t)))
			}
			if i%7 == 0 {
				add(reflect.ArrayOf(33, t))
			}
		}
	})
	return sys
}

func manyFields(l int, t func(k int) reflect.Type) reflect.Type {
	fs := make([]reflect.StructField, l)
	for k := range fs {
		fs[k] = reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: t(k)}
	}
	return reflect.StructOf(fs)
}

// Named returns only the named types.
func Named() []*Entry {
	var out []*Entry
	for _, e := range Systematic() {
		if e.T.Name() != "" {
			out = append(out, e)
		}
	}
	return out
}

// RandomType composes a type: containers, vectors and pointers over the named types.
func RandomType(r *rand.Rand, depth int) reflect.Type {
	x := r.IntN(100)
	switch {
	case depth == 0 || x < 35:
		if r.IntN(3) == 0 {
			return basics[r.IntN(len(basics))]
		}
		return named[r.IntN(len(named))]
	case x < 75:
		k := 1 + r.IntN(6)
		var fs []reflect.StructField
		for i := 0; i < k; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: RandomType(r, depth-1)}
			switch r.IntN(12) {
			case 0:
				f.Tag = `ssz:"omit"`
			case 1, 2:
				if f.Type.Kind() == reflect.Struct {
					f.Tag = `ssz:"squash"`
				}
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	case x < 88:
		t := RandomType(r, depth-1)
		if t.Size() < 64 && r.IntN(6) == 0 {
			return reflect.ArrayOf(1+r.IntN(40), t)
		}
		return reflect.ArrayOf(1+r.IntN(4), t)
	default:
		return reflect.PointerTo(RandomType(r, depth-1))
	}
}

// Composed makes n run-time composed entries, deterministically from the seed.
func Composed(seed uint64, n int) []*Entry {
	mu.Lock()
	defer mu.Unlock()
	r := rand.New(rand.NewPCG(seed, 0xC0117))
	var out []*Entry
	for len(out) < n {
		t := RandomType(r, 3)
		switch len(out) % 16 {
		case 3: // of any length
			if t = RandomType(r, 1); t.Size() < 100 {
				t = reflect.ArrayOf(1+r.IntN(1<<(2+r.IntN(9))), t)
			}
		case 7:
			t = reflect.ArrayOf(1+r.IntN(1<<(2+r.IntN(9))), basics[r.IntN(len(basics))])
		case 11:
			mix := 1 + r.IntN(20)
			t = manyFields(1+r.IntN(1<<(2+r.IntN(7))), func(int) reflect.Type {
				if r.IntN(mix) == 0 {
					return RandomType(r, 0)
				}
				return basics[r.IntN(len(basics))]
			})
		}
		if e, ok := entry(t); ok && size(e.N) < 4000 {
			out = append(out, e)
		}
	}
	return out
}

func size(n *ref.Node) int {
	c := 0
	n.Walk(func(*ref.Node) { c++ })
	return c
}

// ForType makes an entry for any supported type.
func ForType(t reflect.Type) (*Entry, error) {
	mu.Lock()
	defer mu.Unlock()
	n, err := ref.Of(t)
	if err != nil {
		return nil, err
	}
	return &Entry{Name: t.String(), T: t, N: n}, nil
}

// All is the universe of a run: the systematic part and extra composed types.
func All(seed uint64, extra int) []*Entry {
	return append(append([]*Entry(nil), Systematic()...), Composed(seed, extra)...)
}

// Filter keeps the entries for which p holds.
func Filter(es []*Entry, p func(*Entry) bool) []*Entry {
	var out []*Entry
	for _, e := range es {
		if p(e) {
			out = append(out, e)
		}
	}
	return out
}

// Small returns the entries whose encodings can be short, shortest minimum first.
func SortBySize(es []*Entry) {
	sort.SliceStable(es, func(i, j int) bool { return es[i].N.MinLen().Cmp(es[j].N.MinLen()) < 0 })
}
