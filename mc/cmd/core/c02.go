package main

import (
	"fmt"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

var c02 = &rt.Check{
	ID: "C02",
	Rule: "(a) item sets: data set (also with overflowing, vanishing, infinite and NaN lengths) x id pattern x vector length x metric x types, with sizes around the bucket size, trees 1,2,3,5 and seeds; " +
		"(b) all multisets of up to 6 (thorough 8) lattice points in 1 and 2 dimensions; (c) answers of the random generator: " +
		"for each split the default sequence with every single answer replaced, and adversarial but fair sequences",
	Oracle: "walk of every tree of the saved file: each item exactly once, counts per node, sides non-empty, exactly T roots, bounded node count; hang watchdog",
	Run: func(c *rt.Ctx) {
		each(c, grid(allTy, metrics, []int{1, 2, 3, 4, 5, 8, 17, 40}, allData, append([]string{"zig"}, lab.AllIDs...)),
			[4]func(*rt.Ctx, scen){c02grid[float32, uint32], c02grid[float32, uint64], c02grid[float64, uint32], c02grid[float64, uint64]})
		each(c, grid(allTy, metrics, []int{1, 2, 3, 8, 40}, lab.Extreme, []string{"dense", "gap"}),
			[4]func(*rt.Ctx, scen){c02grid[float32, uint32], c02grid[float32, uint64], c02grid[float64, uint32], c02grid[float64, uint64]})
		each(c, lattices(8), [4]func(*rt.Ctx, scen){c02lat[float32, uint32], c02lat[float32, uint64], c02lat[float64, uint32], c02lat[float64, uint64]})
		each(c, advs(), [4]func(*rt.Ctx, scen){c02adv[float32, uint32], c02adv[float32, uint64], c02adv[float64, uint32], c02adv[float64, uint64]})
		eachLarge(c, fns{c02large[float32, uint32], c02large[float32, uint64], c02large[float64, uint32], c02large[float64, uint64]})
	},
}

// lattices: one unit per number of items and first point.
func lattices(max int) (out []scen) {
	for _, m := range metrics {
		for _, dim := range []int{1, 2} {
			for n := 1; n <= max; n++ {
				for first := range lab.Lattice(dim) {
					for _, ty := range allTy {
						out = append(out, scen{ty: ty, metric: m, dim: dim, data: "lattice", ids: "dense",
							note: fmt.Sprintf(" n=%d first=%d", n, first), loader: fmt.Sprintf("%d/%d", n, first)})
					}
				}
			}
		}
	}
	return
}

// eachLattice calls f for all multisets of the unit.
func eachLattice(c *rt.Ctx, s scen, quickMax int, f func(items []lab.Item, pick []int)) {
	var n, first int
	fmt.Sscanf(s.loader, "%d/%d", &n, &first)
	max := quickMax
	if s.dim == 1 {
		max += 2
	}
	if c.Thorough {
		max += 2
	}
	if n > max {
		return
	}
	pts := lab.Lattice(s.dim)
	lab.Multisets(len(pts)-first, n-1, func(rest []int) {
		vecs := [][]float64{pts[first]}
		pick := []int{first}
		for _, r := range rest {
			vecs = append(vecs, pts[first+r])
			pick = append(pick, first+r)
		}
		c.Tick()
		f(lab.Items("dense", vecs), pick)
	})
}

func c02one[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, sp lab.Spec, items []lab.Item) {
	idx, m := lab.Built[TV, TIX](sp, items)
	f := forestOf(c, idx, sp, "c02")
	if msg := f.Check(m); msg != "" {
		c.Fail("%v, %d items: %s", sp, len(items), msg)
	}
	idx.Close()
	c.State(1)
	c.Transition(f.Len)
	c.Trace(1)
	c.Eval(sp.T)
	c.NoteMax("max_nodes", int64(f.Len))
	for _, h := range f.Canon(m) {
		c.OutcomeHash(h)
	}
}

func c02grid[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	K := kOf[TV, TIX](s)
	more := []int{90}
	seeds := []uint64{0, 1, 7}
	if c.Thorough {
		more = []int{90, 300, 1000}
		seeds = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 1<<32 - 1}
	}
	if s.dim > 8 {
		more = more[:1]
		seeds = seeds[:2]
	}
	for _, n := range sizes(K, more...) {
		if n > 130 && s.ids == "far" {
			continue
		}
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		for _, T := range []int{1, 2, 3, 5} {
			for _, seed := range seeds {
				if n > 60 && (T == 3 || seed > 1 && !c.Thorough) {
					continue
				}
				c.Tick()
				c.Step(func() string { return fmt.Sprintf("n=%d T=%d seed=%d", n, T, seed) })
				c02one[TV, TIX](c, spec(s, T, seed), items)
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("bucket size %d, sizes %v", K, sizes(K, more...)) })
}

func c02lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 5, func(items []lab.Item, pick []int) {
		c.Step(func() string { return fmt.Sprintf("lattice points %v", pick) })
		c02one[TV, TIX](c, spec(l, 1+len(items)%2, 0), items)
	})
}

// ---- the random generator as adversary

// adv is a random generator whose answers are chosen by the explorer. Side answers are fair: the
// same side is not given more than 30 (in modes 4 and 5: 3000) times in a row: a generator that
// always answers the same cannot randomise anything.
type adv[TIX interfaces.IndexTypes] struct {
	base  interfaces.Random[TIX]
	mode  int         // 0: base generator; others: adversarial sequences
	dev   map[int]int // draw number -> answer: 0 lowest, 1 highest
	draws *int
	run   int
	last  interfaces.Side
	seed  TIX
}

func (a *adv[TIX]) Next() TIX { *a.draws++; return a.base.Next() }

func (a *adv[TIX]) NextSide() interfaces.Side {
	n := *a.draws
	*a.draws++
	var s interfaces.Side
	switch a.mode {
	case 0:
		s = a.base.NextSide()
	case 1, 4:
		s = interfaces.SideLeft
	case 2, 5:
		s = interfaces.SideRight
	default:
		s = interfaces.Side(n % 2)
	}
	if d, ok := a.dev[n]; ok {
		s = interfaces.Side(d)
	}
	if s == a.last {
		a.run++
	} else {
		a.run = 0
	}
	if a.run > 30 && a.mode < 4 || a.run > 3000 {
		s, a.run = 1-s, 0
	}
	a.last = s
	return s
}

func (a *adv[TIX]) NextIndex(n TIX) TIX {
	d := *a.draws
	*a.draws++
	v, ok := a.dev[d]
	switch {
	case ok && v == 0:
		return 0
	case ok:
		return n - 1
	}
	switch a.mode {
	case 0:
		return a.base.NextIndex(n)
	case 1, 4:
		return 0
	case 2, 5:
		return n - 1
	default:
		return TIX(d) % n
	}
}

func (a *adv[TIX]) SetSeed(s TIX) { a.seed = s; a.base.SetSeed(s) }
func (a *adv[TIX]) GetSeed() TIX  { return a.seed }
func (a *adv[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return &adv[TIX]{base: a.base.CloneAndReset(), mode: a.mode, dev: a.dev, draws: a.draws, seed: a.seed}
}

func advs() (out []scen) {
	for _, m := range metrics {
		for _, d := range []string{"gen", "same", "zero", "grid", "coll", "pairs", "mixz"} {
			for mode := 0; mode < 6; mode++ {
				for _, ty := range allTy {
					out = append(out, scen{ty: ty, metric: m, dim: 2, data: d, ids: "dense",
						note: fmt.Sprintf(" adversary=%d", mode), loader: fmt.Sprint(mode)})
				}
			}
		}
	}
	return
}

func advIndex[TV interfaces.VectorType, TIX interfaces.IndexTypes](sp lab.Spec, mode int, dev map[int]int, draws *int) interfaces.AnnoyIndex[TV, TIX] {
	return index.New[TV, TIX](&adv[TIX]{base: lab.Rnd[TIX](sp.Seed), mode: mode, dev: dev, draws: draws},
		lab.Dist[TV, TIX](sp), lab.Policy(sp.Multi), memory.GoGCIndexAllocator(), lab.Loader("gc"), nil, false, 0)
}

func c02adv[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	var mode int
	fmt.Sscan(s.loader, &mode)
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 1, W: 1, Loader: "gc"}
	one := func(n int, dev map[int]int) int {
		draws := 0
		c.Tick()
		c.Step(func() string { return fmt.Sprintf("n=%d mode=%d deviations=%v", n, mode, dev) })
		idx := advIndex[TV, TIX](sp, mode, dev, &draws)
		m := lab.Fill(idx, sp, lab.Items(s.ids, lab.Data(s.data, s.dim, n)))
		idx.Build(1, 1)
		f := forestOf(c, idx, sp, "c02a")
		if msg := f.Check(m); msg != "" {
			c.Fail("n=%d random answers mode=%d deviations=%v: %s", n, mode, dev, msg)
		}
		for _, h := range f.Canon(m) {
			c.OutcomeHash(h)
		}
		idx.Close()
		c.State(1)
		c.Transition(draws)
		c.Trace(1)
		return draws
	}
	K := kOf[TV, TIX](s)
	for _, n := range sizes(K, 25) {
		one(n, nil)
	}
	n := K + 2
	total := one(n, nil)
	if mode > 3 {
		return
	}
	step := 1
	if !c.Thorough {
		step = 1 + total/120
	}
	for d := 0; d < total; d++ {
		// every single deviation at the first draws of a split and, thinned out in quick mode, later
		if d > 8 && d%step != 0 {
			continue
		}
		one(n, map[int]int{d: 0})
		one(n, map[int]int{d: 1})
	}
	for a := 0; a < 4; a++ {
		for b := a + 1; b < 6; b++ {
			for x := 0; x < 4; x++ {
				one(n, map[int]int{a: x & 1, b: x >> 1})
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%d items, %d draws, single deviations at each", n, total) })
}
