package main

import (
	"fmt"
	"math"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// world is one built (or saved, or loaded) index with its model.
type world[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	s     scen
	sp    lab.Spec
	idx   interfaces.AnnoyIndex[TV, TIX]
	m     *lab.Model[TV]
	state string
	n     int
}

func (w *world[TV, TIX]) what() string {
	return fmt.Sprintf("[%v] %s index, %d items (%s, %s)", w.sp, w.state, w.n, w.s.data, w.s.ids)
}

// worlds enumerates the indexes of a scenario: sizes x trees x seeds, as built, saved or loaded.
func worlds[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, s scen, ns, ts []int, seeds []uint64, f func(w *world[TV, TIX])) {
	fn := file(c, "w")
	i := 0
	for _, n := range ns {
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		for _, T := range ts {
			for _, seed := range seeds {
				if n > 100 && seed != seeds[0] && !c.Thorough {
					continue
				}
				i++
				sp := spec(s, T, seed)
				sp.Hint = []int{0, n/2 + 1, n, 10*n + 7}[i/3%4]
				if T > 1 && i%4 == 1 {
					sp.Multi, sp.W = true, 1+i/4%3
				}
				w := &world[TV, TIX]{s: s, sp: sp, n: n}
				w.idx, w.m = lab.Built[TV, TIX](sp, items)
				switch i % 3 {
				case 0:
					w.state = "built"
				case 1:
					w.state = "saved"
					must(c, w.idx.Save(fn), "save")
				case 2:
					w.state = "loaded"
					must(c, w.idx.Save(fn), "save")
					w.idx.Close()
					w.idx = lab.Make[TV, TIX](sp)
					must(c, w.idx.Load(fn), "load")
				}
				c.Tick()
				c.State(1)
				f(w)
				w.idx.Close()
			}
		}
	}
}

// searchScens is the scenario list the search properties share.
func searchScens(c *rt.Ctx) []scen {
	l := rotated(metrics, []int{1, 2, 3, 4, 5, 8, 9, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
	if c.Thorough {
		l = grid(allTy, metrics, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
	}
	return l
}

func searchSizes[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) []int {
	ns := sizes(kOf[TV, TIX](s), 24)
	if s.dim > 8 {
		ns = append(ns, 60)
	}
	return ns
}

func searchSeeds(c *rt.Ctx) []uint64 {
	if c.Thorough {
		return []uint64{0, 1, 2, 3, 5, 7, 11, 1<<32 - 2}
	}
	return []uint64{0, 1}
}

var c03 = &rt.Check{
	ID: "C03",
	Rule: "configurations x item sets (data x ids x sizes around the bucket size and up to 24/60/700 items) x trees x seeds x {built, saved, loaded}; " +
		"on each: every item and 6 probes as query x k = 0..n+2 x budgets 0..T*n+2 (thinned out above 12) and -1, and k and budgets at the ends of the range of int; GetDistance for all pairs; " +
		"all multisets of up to 5 lattice points",
	Oracle: "ids distinct, added, at most k, as many distances, distance within rounding of the reference and not NaN, sorted, duplicates by id, GetDistance symmetric and equal to the search's distance",
	Run: func(c *rt.Ctx) {
		each(c, searchScens(c), [4]func(*rt.Ctx, scen){c03run[float32, uint32], c03run[float32, uint64], c03run[float64, uint32], c03run[float64, uint64]})
		each(c, bigScens(), [4]func(*rt.Ctx, scen){c03big[float32, uint32], c03big[float32, uint64], c03big[float64, uint32], c03big[float64, uint64]})
		each(c, lattices(7), [4]func(*rt.Ctx, scen){c03lat[float32, uint32], c03lat[float32, uint64], c03lat[float64, uint32], c03lat[float64, uint64]})
		eachLarge(c, fns{c03large[float32, uint32], c03large[float32, uint64], c03large[float64, uint32], c03large[float64, uint64]})
	},
}

func bigScens() []scen {
	l := rotated(metrics, []int{2, 3, 16}, []string{"gen", "grid", "pairs", "clust", "same", "mixz"}, []string{"dense", "gap"})
	for i := range l {
		l[i].note = " big"
	}
	return l
}

// extremes are result counts and budgets at the ends of the range of int, and where their product
// with a small number of trees overflows.
var extremes = []int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, math.MaxInt/3 + 1, math.MaxInt/4 + 1,
	math.MaxInt/7 + 1, 1 << 62, 1 << 32, 1<<32 - 1, 1 << 31, math.MaxInt32, -1, -2, math.MinInt32, math.MinInt}

func c03query[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, w *world[TV, TIX], ctx interfaces.AnnoyIndexContext[TV, TIX], q []TV, ks, bs []int) {
	for _, k := range ks {
		for _, b := range bs {
			c.Step(func() string { return fmt.Sprintf("%s query %v k=%d budget=%d", w.what(), q, k, b) })
			var a answer[TV, TIX]
			if k < 0 { // meaningless, may be rejected
				func() {
					defer func() {
						if recover() != nil {
							ctx = w.idx.CreateContext()
						}
					}()
					a = ask(w.idx, q, k, b, ctx)
				}()
			} else {
				a = ask(w.idx, q, k, b, ctx)
			}
			if msg := lab.CheckAnswer(w.m, q, k, a.ids, a.ds); msg != "" {
				c.Fail("%s query %v k=%d budget=%d: %s", w.what(), q, k, b, msg)
			}
			c.Transition(1)
			if len(a.ids) > 0 {
				outcome(c, 0, a.ids)
			}
		}
	}
	c.Trace(1)
}

func c03world[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, w *world[TV, TIX], nq, full int) {
	ctx := w.idx.CreateContext()
	bs := append([]int{-1}, ladder(w.sp.T*w.n+2, full)...)
	ks := ladder(w.n+2, full/2)
	for qi, q := range queries(w.m, nq) {
		c03query(c, w, ctx, q, ks, bs)
		if qi < 3 {
			c03query(c, w, ctx, q, extremes, append([]int{1, w.n}, extremes...))
		}
	}
	// by item, and pairwise distances
	ids := w.m.IDs
	if len(ids) > 40 {
		ids = append(append([]uint64(nil), ids[:20]...), ids[len(ids)-20:]...)
	}
	for _, i := range ids {
		ri, rd := w.idx.GetNnsByItem(TIX(i), w.n, w.sp.T*w.n, ctx)
		if msg := lab.CheckAnswer(w.m, w.m.Vec[i], w.n, ri, rd); msg != "" {
			c.Fail("%s query item %d: %s", w.what(), i, msg)
		}
		by := map[uint64]TV{}
		for x, j := range ri {
			by[uint64(j)] = rd[x]
		}
		for _, j := range ids {
			d, e := w.idx.GetDistance(TIX(i), TIX(j)), w.idx.GetDistance(TIX(j), TIX(i))
			want := lab.Raw(w.m.Metric, w.m.Vec[i], w.m.Vec[j])
			tol := lab.Slack(w.m.Metric, w.m.Vec[i], w.m.Vec[j])
			s, ok := by[uint64(j)]
			for _, x := range []TV{d, e, s} {
				if math.IsNaN(float64(x)) || math.Abs(lab.RawOf(w.m.Metric, float64(x))-want) > tol {
					c.Fail("%s items %d, %d: distances %v, %v, from search %v (%v), reference raw %v", w.what(), i, j, d, e, s, ok, want)
				}
			}
			c.Eval(1)
		}
	}
}

func c03run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	full := 6
	if c.Thorough {
		full = 12
	}
	ts := []int{1, 3}
	if c.Thorough {
		ts = []int{1, 2, 3, 5}
	}
	worlds(c, s, searchSizes[TV, TIX](c, s), ts, searchSeeds(c), func(w *world[TV, TIX]) {
		c03world(c, w, 5, full)
	})
	c.Sample(func() string { return "k and budget ladders over every query" })
}

func c03big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, []int{150, 700}, []int{1, 6}, []uint64{0}, func(w *world[TV, TIX]) { c03world(c, w, 4, 3) })
}

func c03lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 4, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%2, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		ctx := w.idx.CreateContext()
		c.State(1)
		for _, p := range lab.Lattice(s.dim) {
			c03query(c, w, ctx, lab.Conv[TV](p), []int{1, w.n}, []int{-1, 1, 2, sp.T * w.n})
		}
		w.idx.Close()
	})
}

// ---------------------------------------------------------------------------------------------

var c04 = &rt.Check{
	ID: "C04",
	Rule: "configurations x item sets (up to 24/60/700 items) x trees x seeds x {built, saved, loaded}, every item and 6 probes x k = 0..n+3 with budgets T*n, T*n+1, 10*T*n+100, " +
		"2^31-1 and 2^63-1; all multisets of up to 6 lattice points x all lattice queries",
	Oracle: "brute force over the added vectors in float64, ties within rounding may be resolved either way, exact duplicates by id",
	Run: func(c *rt.Ctx) {
		each(c, searchScens(c), [4]func(*rt.Ctx, scen){c04run[float32, uint32], c04run[float32, uint64], c04run[float64, uint32], c04run[float64, uint64]})
		each(c, bigScens(), [4]func(*rt.Ctx, scen){c04big[float32, uint32], c04big[float32, uint64], c04big[float64, uint32], c04big[float64, uint64]})
		each(c, lattices(8), [4]func(*rt.Ctx, scen){c04lat[float32, uint32], c04lat[float32, uint64], c04lat[float64, uint32], c04lat[float64, uint64]})
		eachLarge(c, fns{c04large[float32, uint32], c04large[float32, uint64], c04large[float64, uint32], c04large[float64, uint64]})
	},
}

func c04world[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, w *world[TV, TIX], qs [][]TV, ks []int) {
	ctx := w.idx.CreateContext()
	full := w.sp.T * w.n
	for qi, q := range qs {
		r := lab.Rank(w.m, q)
		for ki, k := range ks {
			b := []int{full, full + 1, 10*full + 100, math.MaxInt32, math.MaxInt}[(qi+ki)%5]
			c.Step(func() string { return fmt.Sprintf("%s query %v k=%d budget=%d", w.what(), q, k, b) })
			a := ask(w.idx, q, k, b, ctx)
			msg := lab.CheckAnswer(w.m, q, k, a.ids, a.ds)
			if msg == "" {
				msg = lab.Exact(r, k, a.ids)
			}
			if msg != "" {
				c.Fail("%s query %v k=%d budget=%d: %s", w.what(), q, k, b, msg)
			}
			c.Transition(1)
			outcome(c, 0, a.ids)
		}
	}
	c.Trace(len(qs))
}

func c04run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, searchSizes[TV, TIX](c, s), []int{1, 2, 3, 7}, searchSeeds(c), func(w *world[TV, TIX]) {
		c04world(c, w, queries(w.m, 25), ladder(w.n+3, 8))
	})
}

func c04big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, []int{150, 700}, []int{1, 4}, []uint64{0}, func(w *world[TV, TIX]) {
		c04world(c, w, queries(w.m, 10), []int{1, 10, 19, 20, 21, 22, 100, w.n - 1, w.n, w.n + 5})
	})
}

func c04lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 5, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%2, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		c.State(1)
		var qs [][]TV
		for _, p := range lab.Lattice(s.dim) {
			qs = append(qs, lab.Conv[TV](p))
		}
		c04world(c, w, qs, []int{1, 2, w.n})
		w.idx.Close()
	})
}

// ---------------------------------------------------------------------------------------------

var c05 = &rt.Check{
	ID:     "C05",
	Rule:   "configurations x item sets (up to 24/60/700 items) x trees x seeds x {built, saved, loaded}, every item and 6 probes x every k = 0..n+3, and up to 2^63-1, with budget -1, fresh and reused contexts; vectors whose lengths overflow, vanish or are NaN; all multisets of up to 6 lattice points",
	Oracle: "exactly min(k, items) well-formed results",
	Run: func(c *rt.Ctx) {
		each(c, searchScens(c), [4]func(*rt.Ctx, scen){c05run[float32, uint32], c05run[float32, uint64], c05run[float64, uint32], c05run[float64, uint64]})
		each(c, bigScens(), [4]func(*rt.Ctx, scen){c05big[float32, uint32], c05big[float32, uint64], c05big[float64, uint32], c05big[float64, uint64]})
		each(c, grid(allTy, metrics, []int{1, 2, 3, 8, 40}, lab.Extreme, []string{"dense", "gap"}),
			[4]func(*rt.Ctx, scen){c05wild[float32, uint32], c05wild[float32, uint64], c05wild[float64, uint32], c05wild[float64, uint64]})
		each(c, lattices(8), [4]func(*rt.Ctx, scen){c05lat[float32, uint32], c05lat[float32, uint64], c05lat[float64, uint32], c05lat[float64, uint64]})
		eachLarge(c, fns{c05large[float32, uint32], c05large[float32, uint64], c05large[float64, uint32], c05large[float64, uint64]})
	},
}

func c05world[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, w *world[TV, TIX], qs [][]TV, ks []int) {
	ctx := w.idx.CreateContext()
	huge := append(append([]int(nil), ks...), extremes[:11]...)
	for qi, q := range qs {
		ks := ks
		if qi < 2 {
			ks = huge
		}
		for _, k := range ks {
			c.Step(func() string { return fmt.Sprintf("%s query %v k=%d", w.what(), q, k) })
			cx := ctx
			if qi%5 == 0 {
				cx = w.idx.CreateContext()
			}
			a := ask(w.idx, q, k, -1, cx)
			want := k
			if len(w.m.IDs) < want {
				want = len(w.m.IDs)
			}
			if len(a.ids) != want || len(a.ds) != want {
				c.Fail("%s query %v k=%d: %d results %v, expected %d", w.what(), q, k, len(a.ids), a.ids, want)
			}
			if msg := lab.CheckAnswer(w.m, q, k, a.ids, a.ds); msg != "" {
				c.Fail("%s query %v k=%d: %s", w.what(), q, k, msg)
			}
			c.Transition(1)
			outcome(c, 0, a.ids)
		}
	}
	for _, id := range w.m.IDs {
		if id%7 == 0 {
			for _, k := range ks {
				ri, _ := w.idx.GetNnsByItem(TIX(id), k, -1, ctx)
				if want := int(math.Min(float64(k), float64(len(w.m.IDs)))); len(ri) != want {
					c.Fail("%s item %d k=%d: %d results, expected %d", w.what(), id, k, len(ri), want)
				}
				c.Transition(1)
			}
		}
	}
	c.Trace(len(qs))
}

func c05run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, searchSizes[TV, TIX](c, s), []int{1, 2, 3, 7}, searchSeeds(c), func(w *world[TV, TIX]) {
		c05world(c, w, queries(w.m, 10), ladder(w.n+3, 30))
	})
}

// c05wild: whatever the vectors are, the answer is complete, and made of distinct added items.
func c05wild[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, searchSizes[TV, TIX](c, s), []int{1, 3}, searchSeeds(c), func(w *world[TV, TIX]) {
		ctx := w.idx.CreateContext()
		for _, q := range queries(w.m, 8) {
			for _, k := range append(ladder(w.n+3, 8), extremes[:6]...) {
				for _, b := range []int{-1, 1, w.sp.T * w.n, math.MaxInt} {
					c.Step(func() string { return fmt.Sprintf("%s query %v k=%d budget=%d", w.what(), q, k, b) })
					a := ask(w.idx, q, k, b, ctx)
					want := k
					if len(w.m.IDs) < want {
						want = len(w.m.IDs)
					}
					if b == 1 {
						want = len(a.ids)
					}
					seen := map[TIX]bool{}
					for _, id := range a.ids {
						seen[id] = true
						if _, ok := w.m.Vec[uint64(id)]; !ok {
							c.Fail("%s query %v k=%d budget=%d: id %d was never added: %v", w.what(), q, k, b, id, a.ids)
						}
					}
					if len(a.ids) != want || len(a.ids) > k || len(a.ds) != want || len(seen) != want {
						c.Fail("%s query %v k=%d budget=%d: %d results, %d distances, %d distinct, expected %d: %v", w.what(), q, k, b,
							len(a.ids), len(a.ds), len(seen), want, a.ids)
					}
					c.Transition(1)
					outcome(c, 0, a.ids)
				}
			}
		}
		c.Trace(1)
	})
}

func c05big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, []int{150, 700}, []int{1, 4, 12}, []uint64{0}, func(w *world[TV, TIX]) {
		c05world(c, w, queries(w.m, 10), []int{1, 10, 21, 100, w.n - 1, w.n, w.n + 5})
	})
}

func c05lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 5, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%3, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		c.State(1)
		var qs [][]TV
		for _, p := range lab.Lattice(s.dim) {
			qs = append(qs, lab.Conv[TV](p))
		}
		c05world(c, w, qs, ladder(w.n+2, 20))
		w.idx.Close()
	})
}

// ---------------------------------------------------------------------------------------------

var c06 = &rt.Check{
	ID: "C06",
	Rule: "configurations x item sets (up to 24/60/700 items) x trees x seeds x {saved, loaded}, every item's vector (and its positive multiples) as query x budgets 1,2,3,T,2T,T*n x k = 1,2,n; " +
		"premise computed from the walked trees; all multisets of up to 6 lattice points",
	Oracle: "first result is the item or one that is equally close within rounding, whenever some tree separates the item strictly; and the answer of an angular query does not depend on its length",
	Run: func(c *rt.Ctx) {
		each(c, searchScens(c), [4]func(*rt.Ctx, scen){c06run[float32, uint32], c06run[float32, uint64], c06run[float64, uint32], c06run[float64, uint64]})
		each(c, bigScens(), [4]func(*rt.Ctx, scen){c06big[float32, uint32], c06big[float32, uint64], c06big[float64, uint32], c06big[float64, uint64]})
		each(c, lattices(8), [4]func(*rt.Ctx, scen){c06lat[float32, uint32], c06lat[float32, uint64], c06lat[float64, uint32], c06lat[float64, uint64]})
		eachLarge(c, fns{c06large[float32, uint32], c06large[float32, uint64], c06large[float64, uint32], c06large[float64, uint64]})
	},
}

func c06world[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, w *world[TV, TIX], max int) {
	built := w.idx.CreateContext() // searched first as it is
	type hit struct {
		id TIX
		d  TV
	}
	first := map[uint64][]hit{}
	bs := []int{1, 2, 3, w.sp.T, 2 * w.sp.T, w.sp.T * w.n, -1}
	ids := w.m.IDs
	if len(ids) > max {
		var l []uint64
		for i := 0; i < len(ids); i += len(ids)/max + 1 {
			l = append(l, ids[i])
		}
		ids = l
	}
	for _, id := range ids {
		for bi, b := range bs {
			k := []int{1, 2, w.n}[bi%3]
			c.Step(func() string { return fmt.Sprintf("%s own vector of item %d k=%d budget=%d", w.what(), id, k, b) })
			var a answer[TV, TIX]
			if bi%2 == 0 {
				a = ask(w.idx, w.m.Vec[id], k, b, built)
			} else {
				a.ids, a.ds = w.idx.GetNnsByItem(TIX(id), k, b, built)
			}
			c.Transition(1)
			if len(a.ids) == 0 {
				first[id] = append(first[id], hit{0, TV(math.NaN())})
				continue
			}
			first[id] = append(first[id], hit{a.ids[0], a.ds[0]})
		}
	}
	// the premise, from the trees of the saved index
	f := forestOf(c, w.idx, w.sp, "c06")
	for _, r := range f.Roots() {
		if msg, _, _ := f.CheckTree(w.m, r); msg != "" {
			c.Note("malformed_trees", 1) // C02's verdict; the premise cannot be computed
			return
		}
	}
	strict := map[uint64]bool{}
	for _, r := range f.Roots() {
		for id, mg := range f.Margins(w.m, r) {
			if mg > 0 {
				strict[id] = true
			}
		}
	}
	for _, id := range ids {
		if !strict[id] {
			c.Note("items_on_a_plane_in_all_trees", 1)
			continue
		}
		c.Note("items_strictly_separated", 1)
		v := w.m.Vec[id]
		best := lab.Raw(w.m.Metric, v, v)
		for bi, h := range first[id] {
			if math.IsNaN(float64(h.d)) {
				c.Fail("%s own vector of item %d, budget %d: no result", w.what(), id, bs[bi])
			}
			if w.m.Metric == "dot" {
				continue // the nearest by dot product need not be the item; see below
			}
			got := lab.Raw(w.m.Metric, v, w.m.Vec[uint64(h.id)])
			if uint64(h.id) != id && math.Abs(got-best) > 2*lab.Slack(w.m.Metric, v, v) {
				c.Fail("%s own vector of item %d, budget %d: first result is %d at raw distance %v", w.what(), id, bs[bi], h.id, got)
			}
			outcome(c, 1, []TIX{TIX(id), h.id})
		}
		if w.m.Metric == "dot" {
			// the item is among the candidates: it is in the answer if k is large enough
			for _, b := range bs {
				a := ask(w.idx, v, len(w.m.IDs), b, w.idx.CreateContext())
				found := false
				for _, x := range a.ids {
					found = found || uint64(x) == id
				}
				if !found && b != 0 {
					c.Fail("%s own vector of item %d, budget %d: item is not among the results %v", w.what(), id, b, a.ids)
				}
				c.Transition(1)
			}
		}
	}
	// lengths do not matter
	if w.m.Metric == "ang" {
		ctx := w.idx.CreateContext()
		for _, id := range ids {
			if len(ids) > 12 && id%5 != 0 {
				continue
			}
			for _, b := range []int{1, -1} {
				a := ask(w.idx, w.m.Vec[id], 1, b, ctx)
				for _, sc := range []TV{0.25, 16} {
					q := make([]TV, w.m.Dim)
					for j := range q {
						q[j] = sc * w.m.Vec[id][j]
					}
					o := ask(w.idx, q, 1, b, ctx)
					if len(o.ids) != len(a.ids) || len(o.ids) > 0 && o.ids[0] != a.ids[0] {
						c.Fail("%s item %d budget %d: %v finds %v, scaled by %v %v", w.what(), id, b, w.m.Vec[id], a.ids, sc, o.ids)
					}
					c.Transition(1)
				}
			}
		}
	}
	c.Trace(len(ids))
}

func c06run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	ns := searchSizes[TV, TIX](c, s)
	if s.dim > 8 {
		ns = append(ns, 120)
	}
	worlds(c, s, ns, []int{1, 2, 3, 5}, searchSeeds(c), func(w *world[TV, TIX]) { c06world(c, w, 60) })
}

func c06big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, []int{150, 700}, []int{1, 4}, []uint64{0}, func(w *world[TV, TIX]) { c06world(c, w, 100) })
}

func c06lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 5, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%2, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		c.State(1)
		c06world(c, w, 100)
		w.idx.Close()
	})
}

// ---------------------------------------------------------------------------------------------

var c07 = &rt.Check{
	ID: "C07",
	Rule: "configurations x item sets (up to 24/60 items) x trees x seeds x {built, saved, loaded}, every item and 6 probes: all budgets 0..T*n+2 (thinned out above 40) x all k (thinned out above 8), k up to 2^63-1, " +
		"all pairs related by transitivity; multisets of up to 4 lattice points",
	Oracle: "distances never worse and results never fewer from one budget to the next; k-prefix property; search by item equals search by vector",
	Run: func(c *rt.Ctx) {
		each(c, searchScens(c), [4]func(*rt.Ctx, scen){c07run[float32, uint32], c07run[float32, uint64], c07run[float64, uint32], c07run[float64, uint64]})
		each(c, bigScens(), [4]func(*rt.Ctx, scen){c07big[float32, uint32], c07big[float32, uint64], c07big[float64, uint32], c07big[float64, uint64]})
		each(c, lattices(7), [4]func(*rt.Ctx, scen){c07lat[float32, uint32], c07lat[float32, uint64], c07lat[float64, uint32], c07lat[float64, uint64]})
		eachLarge(c, fns{c07large[float32, uint32], c07large[float32, uint64], c07large[float64, uint32], c07large[float64, uint64]})
	},
}

func c07world[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, w *world[TV, TIX], qs [][]TV, full int, kfull int) {
	ctx := w.idx.CreateContext()
	bs := ladder(w.sp.T*w.n+2, full)
	ks := ladder(w.n+2, kfull)
	kmax := w.n + 2
	for _, q := range qs {
		// beyond the number of items neither k nor the budget matters
		all := ask(w.idx, q, w.n, w.sp.T*w.n, ctx)
		for _, k := range append([]int{w.n, w.n + 1}, extremes[:11]...) {
			for _, b := range []int{-1, w.sp.T * w.n, math.MaxInt} {
				if o := ask(w.idx, q, k, b, ctx); !o.eq(all) {
					c.Fail("%s query %v: k=%d budget=%d gives %v %v, k=%d budget=%d gives %v %v",
						w.what(), q, k, b, o.ids, o.ds, w.n, w.sp.T*w.n, all.ids, all.ds)
				}
				c.Transition(1)
			}
		}
		var prev answer[TV, TIX]
		for bi, b := range bs {
			c.Step(func() string { return fmt.Sprintf("%s query %v budget=%d", w.what(), q, b) })
			a := ask(w.idx, q, kmax, b, ctx)
			c.Transition(1)
			if bi > 0 {
				if len(a.ids) < len(prev.ids) {
					c.Fail("%s query %v: budget %d gives %d results, budget %d only %d", w.what(), q, bs[bi-1], len(prev.ids), b, len(a.ids))
				}
				for i := range prev.ds {
					if lab.RawOf(w.m.Metric, float64(a.ds[i])) > lab.RawOf(w.m.Metric, float64(prev.ds[i])) {
						c.Fail("%s query %v: result %d is at %v with budget %d, but at %v with budget %d",
							w.what(), q, i, prev.ds[i], bs[bi-1], a.ds[i], b)
					}
				}
			}
			prev = a
			for _, k := range ks {
				if k >= kmax || (bi+k)%3 != 0 && full < 40 {
					continue
				}
				o := ask(w.idx, q, k, b, ctx)
				n := len(a.ids)
				if k < n {
					n = k
				}
				if !o.eq(answer[TV, TIX]{a.ids[:n], a.ds[:n]}) {
					c.Fail("%s query %v budget %d: k=%d gives %v %v, k=%d gives %v %v", w.what(), q, b, k, o.ids, o.ds, kmax, a.ids, a.ds)
				}
				c.Transition(1)
			}
			if len(a.ids) > 0 {
				outcome(c, b, a.ids)
			}
		}
	}
	for _, id := range w.m.IDs {
		if len(w.m.IDs) > 30 && id%9 != 0 {
			continue
		}
		for _, b := range []int{-1, 1, w.n/2 + 1, w.sp.T * w.n} {
			for _, k := range []int{1, w.n/2 + 1, kmax} {
				a := ask(w.idx, w.m.Vec[id], k, b, ctx)
				var o answer[TV, TIX]
				o.ids, o.ds = w.idx.GetNnsByItem(TIX(id), k, b, ctx)
				if !o.eq(a) {
					c.Fail("%s item %d k=%d budget=%d: by item %v %v, by vector %v %v", w.what(), id, k, b, o.ids, o.ds, a.ids, a.ds)
				}
				c.Transition(2)
			}
		}
	}
	c.Trace(len(qs))
}

func c07run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	full := 16
	if c.Thorough {
		full = 60
	}
	worlds(c, s, searchSizes[TV, TIX](c, s), []int{1, 2, 3}, searchSeeds(c), func(w *world[TV, TIX]) {
		c07world(c, w, queries(w.m, 6), full, 6)
	})
}

func c07big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, []int{150, 700}, []int{1, 4}, []uint64{0}, func(w *world[TV, TIX]) {
		c07world(c, w, queries(w.m, 4), 8, 3)
	})
}

func c07lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 4, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%2, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		c.State(1)
		var qs [][]TV
		for _, p := range lab.Lattice(s.dim) {
			qs = append(qs, lab.Conv[TV](p))
		}
		c07world(c, w, qs, 12, 12)
		w.idx.Close()
	})
}
