package main

import (
	"fmt"
	"math"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---- C22

// gen is a generator seen through one interface.
type rgen struct {
	next  func() uint64
	side  func() interfaces.Side
	bool_ func() bool
	index func(n uint64) uint64
	set   func(s uint64)
	seed  func() uint64
	clone func() *rgen
}

func wrapT[TIX interfaces.IndexTypes](r interfaces.Random[TIX]) *rgen {
	b := func() bool { return false }
	if k, ok := r.(interface{ NextBool() bool }); ok {
		b = k.NextBool
	}
	return &rgen{
		next: func() uint64 { return uint64(r.Next()) }, side: r.NextSide, bool_: b,
		index: func(n uint64) uint64 { return uint64(r.NextIndex(TIX(n))) },
		set:   func(s uint64) { r.SetSeed(TIX(s)) }, seed: func() uint64 { return uint64(r.GetSeed()) },
		clone: func() *rgen { return wrapT(r.CloneAndReset()) },
	}
}

func wrap64(r *random.Kiss64Random) *rgen {
	return &rgen{r.Next, r.NextSide, r.NextBool, r.NextIndex, r.SetSeed, r.GetSeed, func() *rgen { return wrap64(r.CloneAndReset()) }}
}

func wrapGo(r *random.GoRandom) *rgen {
	return &rgen{func() uint64 { return uint64(r.Next()) }, r.NextSide, r.NextBool,
		func(n uint64) uint64 { return uint64(r.NextIndex(uint32(n))) },
		func(s uint64) { r.SetSeed(uint32(s)) }, func() uint64 { return uint64(r.GetSeed()) },
		func() *rgen { return wrapGo(r.CloneAndReset()) }}
}

type rkind struct {
	name string
	mk   func(seed uint64) *rgen
	max  uint64
	def  uint64        // seed that zero stands for
	ref  func() refGen // published algorithm
}

type refGen interface {
	seed(s uint64)
	next() uint64
}

// kiss32 is the published KISS (Marsaglia 1999, as used by Annoy).
type kiss32 struct{ x, y, z, c uint32 }

func (k *kiss32) seed(s uint64) { *k = kiss32{uint32(s), 362436000, 521288629, 7654321} }
func (k *kiss32) next() uint64 {
	k.x = 69069*k.x + 12345
	y := k.y
	y ^= y << 13
	y ^= y >> 17
	y ^= y << 5
	k.y = y
	hi, lo := mul32(698769069, k.z)
	lo2 := lo + k.c
	if lo2 < lo {
		hi++
	}
	k.z, k.c = lo2, hi
	return uint64(k.x + k.y + k.z)
}

func mul32(a, b uint32) (hi, lo uint32) {
	p := uint64(a) * uint64(b)
	return uint32(p >> 32), uint32(p)
}

// kiss64 is the published 64 bit KISS (Marsaglia 2009).
type kiss64 struct{ x, y, z, c uint64 }

func (k *kiss64) seed(s uint64) {
	*k = kiss64{s, 362436362436362436, 1066149217761810, 123456123456123456}
}
func (k *kiss64) next() uint64 {
	// MWC
	t := (k.x << 58) + k.c
	k.c = k.x >> 6
	k.x += t
	if k.x < t {
		k.c++
	}
	// XSH
	k.y ^= k.y << 13
	k.y ^= k.y >> 17
	k.y ^= k.y << 43
	// CNG
	k.z = 6906969069*k.z + 1234567
	return k.x + k.y + k.z
}

var rkinds = []rkind{
	{"Kiss32[uint32]", func(s uint64) *rgen { return wrapT[uint32](random.NewKiss32Random(uint32(s))) }, math.MaxUint32, 123456789, func() refGen { return &kiss32{} }},
	{"Kiss32[uint64]", func(s uint64) *rgen { return wrapT[uint64](random.NewKiss32Random(s)) }, math.MaxUint64, 123456789, nil},
	{"Kiss64", func(s uint64) *rgen { return wrap64(random.NewKiss64Random(s)) }, math.MaxUint64, 1234567890987654321, func() refGen { return &kiss64{} }},
	{"GoRandom", func(s uint64) *rgen { return wrapGo(random.NewGoRandomWithSeed(uint32(s))) }, math.MaxUint32, 0, nil},
}

var c22 = &rt.Check{
	ID: "C22",
	Rule: "4 generators; all sequences of up to 5 (thorough 7) operations over {next, side, index, set seed 0/1/max, clone and go on with the clone} from 6 seeds, executed on twins; the first 2000 (50000) numbers for 300 seeds, and 2^25 (2^30) for 3 seeds with a clone every 2^20; " +
		"index ranges: n = 1..300, powers of two +-1, largest; the published check value after 10^8 numbers (64 bit)",
	Oracle: "twins agree; clone equals a new generator of the current seed; seed reads back; 0 <= index < n; both sides occur; KISS sequences equal the reference implementation of the published algorithm",
	Run: func(c *rt.Ctx) {
		for _, k := range rkinds {
			k := k
			for _, s := range []uint64{0, 1, 2, 123456789, 1 << 31, math.MaxUint32} {
				s := s
				c.Unit(fmt.Sprintf("%s histories seed=%d", k.name, s), func() { c22hist(c, k, s) })
			}
			c.Unit(k.name+" sequences", func() { c22seq(c, k) })
			c.Unit(k.name+" ranges", func() { c22range(c, k) })
			for _, s := range []uint64{0, 1, 4294967295} {
				s := s
				c.Unit(fmt.Sprintf("%s long seed=%d", k.name, s), func() { c22long(c, k, s) })
			}
		}
		c.Unit("Kiss64 published check value", func() {
			r := random.NewKiss64Random(0)
			var x uint64
			for i := 0; i < 100000000; i++ {
				x = r.Next()
				if i%1000000 == 0 {
					c.Tick()
				}
			}
			if x != 1666297717051644203 {
				c.Fail("number 100000000 is %d, published is 1666297717051644203", x)
			}
			c.State(1)
			c.Transition(100000000)
			c.Trace(1)
		})
		c.Unit("GoRandom of its own", func() {
			for i := 0; i < 50; i++ {
				a := random.NewGoRandom()
				b := random.NewGoRandomWithSeed(a.GetSeed())
				for j := 0; j < 50; j++ {
					if x, y := a.Next(), b.Next(); x != y {
						c.Fail("generator with seed %d: number %d is %d, of a generator with the same seed %d", a.GetSeed(), j, x, y)
					}
					if x, y := a.NormFloat64(), b.NormFloat64(); x != y || math.IsNaN(x) {
						c.Fail("generator with seed %d: normal number %d is %v, of a generator with the same seed %v", a.GetSeed(), j, x, y)
					}
				}
			}
			c.State(50)
			c.Transition(2500)
			c.Trace(50)
		})
	},
}

func c22hist(c *rt.Ctx, k rkind, seed uint64) {
	names := []string{"next", "side", "index 10", "set seed 0", "set seed 1", "set seed max", "clone", "bool"}
	depth := 5
	if c.Thorough {
		depth = 7
	}
	draw := func(g *rgen, n int) (out []uint64) {
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 3:
				out = append(out, uint64(g.side()))
			case 2:
				out = append(out, g.index(1000))
			default:
				out = append(out, g.next())
			}
		}
		return
	}
	eq := func(a, b []uint64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	lab.Sequences(len(names), depth, func(seq []int) {
		c.Tick()
		what := func(i int) string {
			s := fmt.Sprintf("%s seed %d:", k.name, seed)
			for _, x := range seq[:i+1] {
				s += " " + names[x] + ","
			}
			return s
		}
		c.Step(func() string { return what(len(seq) - 1) })
		a, b := k.mk(seed), k.mk(seed)
		cur := seed
		known := seed != 0 || k.def == 0 // whether GetSeed has a value stated by the user
		wasSet := false
		fresh := func() *rgen { // new generator of the current seed
			if wasSet { // zero on construction stands for the default, but may be set
				g := k.mk(77)
				g.set(cur)
				return g
			}
			return k.mk(cur)
		}
		start := true // at the beginning of the sequence of the seed
		for i, op := range seq {
			switch op {
			case 0:
				if x, y := a.next(), b.next(); x != y {
					c.Fail("%s gives %d and %d", what(i), x, y)
				}
				start = false
			case 1:
				x, y := a.side(), b.side()
				if x != y || x != interfaces.SideLeft && x != interfaces.SideRight {
					c.Fail("%s gives %d and %d", what(i), x, y)
				}
				start = false
			case 7:
				if x, y := a.bool_(), b.bool_(); x != y {
					c.Fail("%s gives %v and %v", what(i), x, y)
				}
				start = false
			case 2:
				if x, y := a.index(10), b.index(10); x != y || x > 9 {
					c.Fail("%s gives %d and %d", what(i), x, y)
				}
				start = false
			case 3, 4, 5:
				s := []uint64{0, 1, k.max}[op-3]
				a.set(s)
				b.set(s)
				cur, known, wasSet, start = s, true, true, true
			case 6:
				old := a.clone()
				a, b = a.clone(), b.clone()
				ref := fresh()
				draw(old, 3) // a clone of its own: must not influence the others
				if x, y := draw(b, 8), draw(ref, 8); !eq(x, y) {
					c.Fail("%s: the clone draws %v, a new generator of seed %d %v", what(i), x, cur, y)
				}
				draw(a, 8)
				start = false
			}
			if known && a.seed() != cur {
				c.Fail("%s: the seed reads %d, was set to %d", what(i), a.seed(), cur)
			}
			c.Transition(1)
		}
		if start {
			if x, y := draw(a, 8), draw(fresh(), 8); !eq(x, y) {
				c.Fail("%s: draws %v, a new generator of seed %d %v", what(len(seq)-1), x, cur, y)
			}
		}
		if x, y := draw(b.clone(), 8), draw(fresh(), 8); !eq(x, y) {
			c.Fail("%s: the clone draws %v, a new generator of seed %d %v", what(len(seq)-1), x, cur, y)
		}
		if cur != 0 && wasSet {
			if x, y := draw(fresh(), 8), draw(k.mk(cur), 8); !eq(x, y) {
				c.Fail("%s: the seed %d selects the sequence %v, on construction %v", what(len(seq)-1), cur, x, y)
			}
		}
		c.State(1)
		c.Trace(1)
		c.OutcomeHash(a.next())
	})
	c.Sample(func() string { return fmt.Sprintf("all sequences of %d operations over %v", depth, names) })
}

func c22seq(c *rt.Ctx, k rkind) {
	n := 2000
	if c.Thorough {
		n = 50000
	}
	var seeds []uint64
	for i := uint64(0); i < 256; i++ {
		seeds = append(seeds, i)
	}
	for i := 0; i < 64; i++ {
		seeds = append(seeds, uint64(1)<<i&k.max, (uint64(1)<<i-1)*0x9e3779b97f4a7c15&k.max)
	}
	first := map[string]uint64{}
	for _, s := range seeds {
		c.Tick()
		g, h := k.mk(s), k.mk(s)
		var ref refGen
		eff := s
		if s == 0 {
			eff = k.def
		}
		if k.ref != nil {
			ref = k.ref()
			ref.seed(eff)
		}
		if s == 0 && k.def != 0 { // the default seed applies
			d := k.mk(k.def)
			z := k.mk(0)
			for i := 0; i < 100; i++ {
				if x, y := z.next(), d.next(); x != y {
					c.Fail("%s seed 0: number %d is %d, with the default seed %d it is %d", k.name, i, x, k.def, y)
				}
			}
		}
		if s != 0 { // set instead of constructed, and after some numbers
			z, d := k.mk(77), k.mk(s)
			for i := 0; i < int(s%50); i++ {
				z.next()
			}
			z.set(s)
			for i := 0; i < 100; i++ {
				if x, y := z.next(), d.next(); x != y {
					c.Fail("%s: number %d after setting the seed %d is %d, of a generator constructed with it %d", k.name, i, s, x, y)
				}
			}
		}
		start := ""
		for i := 0; i < n; i++ {
			x, y := g.next(), h.next()
			if x != y {
				c.Fail("%s seed %d: number %d is %d and %d", k.name, s, i, x, y)
			}
			if x > k.max {
				c.Fail("%s seed %d: number %d is %d", k.name, s, i, x)
			}
			if ref != nil {
				if r := ref.next(); x != r {
					c.Fail("%s seed %d: number %d is %d, the published algorithm gives %d", k.name, s, i, x, r)
				}
			}
			if i < 6 {
				start += fmt.Sprint(x, " ")
			}
		}
		if o, ok := first[start]; ok && o != eff && (s <= 1<<30 && o <= 1<<30) {
			// (math/rand takes seeds modulo 2^31-1)
			c.Fail("%s: seeds %d and %d give the same sequence %s", k.name, o, s, start)
		}
		first[start] = eff
		c.State(1)
		c.Transition(n)
		c.Trace(1)
		c.Outcome(start)
	}
	c.Sample(func() string { return fmt.Sprintf("%d seeds, %d numbers each", len(seeds), n) })
}

// c22long draws very many numbers, and clones late.
func c22long(c *rt.Ctx, k rkind, seed uint64) {
	n := 1 << 25
	if c.Thorough {
		n = 1 << 30
	}
	if k.ref == nil {
		n >>= 3
	}
	g, h := k.mk(seed), k.mk(seed)
	var ref refGen
	if k.ref != nil {
		ref = k.ref()
		if ref.seed(seed); seed == 0 {
			ref.seed(k.def)
		}
	}
	for i := 0; i < n; i++ {
		x := g.next()
		if ref != nil {
			if r := ref.next(); x != r {
				c.Fail("%s seed %d: number %d is %d, the published algorithm gives %d", k.name, seed, i, x, r)
			}
		} else if y := h.next(); x != y {
			c.Fail("%s seed %d: number %d is %d and %d", k.name, seed, i, x, y)
		}
		if i&(1<<20-1) == 1<<20-1 {
			c.Tick()
			if c.Cut() {
				n = i
				break
			}
			old := k.mk(seed)
			for j, cl := 0, g.clone(); j < 40; j++ {
				if x, y := cl.next(), old.next(); x != y {
					c.Fail("%s seed %d: after %d numbers, number %d of a clone is %d, of a new generator %d", k.name, seed, i+1, j, x, y)
				}
			}
		}
	}
	c.State(1)
	c.Transition(n)
	c.Trace(1)
	c.OutcomeHash(g.next())
}

func c22range(c *rt.Ctx, k rkind) {
	var ns []uint64
	for i := uint64(1); i <= 300; i++ {
		ns = append(ns, i)
	}
	for i := 9; i < 63; i++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			if n := uint64(1)<<i + d; n <= k.max {
				ns = append(ns, n)
			}
		}
	}
	ns = append(ns, k.max)
	for _, seed := range []uint64{0, 1, 99} {
		for _, n := range ns {
			c.Tick()
			g := k.mk(seed)
			seen := map[uint64]bool{}
			draws := 400
			for i := 0; i < draws; i++ {
				x := g.index(n)
				if x >= n {
					c.Fail("%s seed %d: index below %d is %d", k.name, seed, n, x)
				}
				seen[x] = true
			}
			if n <= 8 && len(seen) != int(n) || n > 8 && len(seen) < 8 {
				c.Fail("%s seed %d: %d indexes below %d take only %d values", k.name, seed, draws, n, len(seen))
			}
			c.State(1)
			c.Transition(draws)
		}
		g := k.mk(seed)
		var sides, bools [2]int
		for i := 0; i < 400; i++ {
			sides[g.side()]++
			if g.bool_() {
				bools[1]++
			} else {
				bools[0]++
			}
		}
		for i := 0; i < 2; i++ {
			if sides[i] < 100 || bools[i] < 100 {
				c.Fail("%s seed %d: 400 sides are %v, bools %v", k.name, seed, sides, bools)
			}
		}
		c.Trace(1)
		c.Outcome(k.name, seed, sides, bools)
	}
}
