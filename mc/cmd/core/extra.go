package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	stdsort "sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---------------------------------------------------------------------------------------------
// C19: dot product

var c19 = &rt.Check{
	ID: "C19",
	Rule: "dot product indexes: vector lengths 1-9, 16, 40 x item sets (12 data sets, norms apart by 2^24, zeros, opposite directions) x ids x sizes x trees x {built, saved, loaded}, every item and 6 probes x k; " +
		"all multisets of up to 6 lattice points x lattice queries; all pairs of integer vectors over -3..3 (length 1-3) through the distance itself",
	Oracle: "reported distance is the dot product (exactly, for integer vectors), largest first; unlimited budget equals brute force; item distances are dot products",
	Run: func(c *rt.Ctx) {
		ms := []string{"dot"}
		l := rotated(ms, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
		if c.Thorough {
			l = grid(allTy, ms, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
		}
		each(c, l, [4]func(*rt.Ctx, scen){c19run[float32, uint32], c19run[float32, uint64], c19run[float64, uint32], c19run[float64, uint64]})
		var lat []scen
		for _, s := range lattices(8) {
			if s.metric == "dot" {
				lat = append(lat, s)
			}
		}
		each(c, lat, [4]func(*rt.Ctx, scen){c19lat[float32, uint32], c19lat[float32, uint64], c19lat[float64, uint32], c19lat[float64, uint64]})
		var p []scen
		for _, dim := range []int{1, 2, 3} {
			for _, ty := range allTy {
				p = append(p, scen{ty: ty, metric: "dot", dim: dim, data: "integer pairs"})
			}
		}
		each(c, p, [4]func(*rt.Ctx, scen){c19pairs[float32, uint32], c19pairs[float32, uint64], c19pairs[float64, uint32], c19pairs[float64, uint64]})
	},
}

func c19run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	worlds(c, s, searchSizes[TV, TIX](c, s), []int{1, 2, 5}, searchSeeds(c), func(w *world[TV, TIX]) {
		qs := queries(w.m, 12)
		c04world(c, w, qs, ladder(w.n+2, 6))
		// reported values rank by dot product, for every budget
		ctx := w.idx.CreateContext()
		for _, q := range qs {
			for _, b := range []int{-1, 1, w.n} {
				a := ask(w.idx, q, w.n, b, ctx)
				for i := range a.ids {
					want := -lab.Raw("dot", q, w.m.Vec[uint64(a.ids[i])])
					if math.Abs(float64(a.ds[i])-want) > lab.Slack("dot", q, w.m.Vec[uint64(a.ids[i])]) {
						c.Fail("%s query %v budget %d: item %d reported at %v, dot product %v", w.what(), q, b, a.ids[i], a.ds[i], want)
					}
					if i > 0 && a.ds[i] > a.ds[i-1] {
						c.Fail("%s query %v budget %d: %v is not in decreasing order", w.what(), q, b, a.ds)
					}
				}
				c.Transition(1)
			}
		}
		for x, i := range w.m.IDs {
			for y, j := range w.m.IDs {
				if x > 20 || y > 20 {
					continue
				}
				d := float64(w.idx.GetDistance(TIX(i), TIX(j)))
				if want := -lab.Raw("dot", w.m.Vec[i], w.m.Vec[j]); !(math.Abs(d-want) <= lab.Slack("dot", w.m.Vec[i], w.m.Vec[j])) {
					c.Fail("%s items %d, %d: distance %v, dot product %v", w.what(), i, j, d, want)
				}
				c.Eval(1)
			}
		}
	})
}

func c19lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "gc"
	eachLattice(c, s, 5, func(items []lab.Item, pick []int) {
		sp := spec(l, 1+len(items)%2, 0)
		w := &world[TV, TIX]{s: s, sp: sp, n: len(items), state: "built"}
		w.idx, w.m = lab.Built[TV, TIX](sp, items)
		c.State(1)
		var qs [][]TV
		for _, p := range lab.Lattice(s.dim) {
			qs = append(qs, lab.Conv[TV](p))
		}
		c04world(c, w, qs, []int{1, 2, w.n})
		ctx := w.idx.CreateContext()
		for _, q := range qs { // small integers: exact
			a := ask(w.idx, q, w.n, 100*w.n, ctx)
			for i, id := range a.ids {
				if want := -lab.Raw("dot", q, w.m.Vec[uint64(id)]); float64(a.ds[i]) != want {
					c.Fail("%s query %v: item %d at %v, dot product %v", w.what(), q, id, a.ds[i], want)
				}
			}
		}
		w.idx.Close()
	})
}

func c19pairs[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	d := dotproduct.Distance[TV](TIX(s.dim))
	mk := func() interfaces.Node[TV, TIX] {
		mem := make([]uint64, int(d.NodeSize())/8+2)
		return d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	}
	x, y := mk(), mk()
	lab.Sequences(7, s.dim, func(a []int) {
		va := make([]TV, s.dim)
		for i := range va {
			va[i] = TV(a[i] - 3)
		}
		x.SetVector(va)
		d.InitNode(x)
		lab.Sequences(7, s.dim, func(b []int) {
			vb := make([]TV, s.dim)
			want := 0
			for i := range vb {
				vb[i] = TV(b[i] - 3)
				want += (a[i] - 3) * (b[i] - 3)
			}
			y.SetVector(vb)
			d.InitNode(y)
			if got := d.NormalizedDistance(d.Distance(x, y)); got != TV(want) {
				c.Fail("dot product of %v and %v is reported as %v", va, vb, got)
			}
			c.Eval(1)
		})
		c.Tick()
		c.State(1)
	})
	c.Trace(1)
	c.Transition(1)
	c.Sample(func() string { return "all pairs of integer vectors over -3..3" })
}

// ---------------------------------------------------------------------------------------------
// C23: options

// mySorter is a user-supplied sorter.
type mySorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{ n *int }

func (s mySorter[TV, TIX]) SortSlice(x []TIX) {
	*s.n++
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func (s mySorter[TV, TIX]) SortPairs(p []*interfaces.Pair[TV, TIX]) {
	*s.n++
	stdsort.SliceStable(p, func(i, j int) bool { return p[i].Less(p[j]) })
}

// PartialSortSlice leaves what is behind middle in another order than the default one.
func (s mySorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], begin, middle, end int) {
	*s.n++
	if begin < 0 || middle < begin || end < middle || end > len(p) {
		panic(fmt.Sprintf("sorter is asked to sort %d..%d..%d of %d", begin, middle, end, len(p)))
	}
	r := p[begin:end]
	stdsort.Slice(r, func(i, j int) bool { return r[i].Less(r[j]) })
	r = p[middle:end]
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
}

func sorters[TV interfaces.VectorType, TIX interfaces.IndexTypes](n *int) []interfaces.Sorter[TV, TIX] {
	return []interfaces.Sorter[TV, TIX]{
		nil,
		mySorter[TV, TIX]{n},
		&interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: sort.SortSlice2[TIX], SortPairsFunc: sort.SortPairs[TV, TIX],
			PartialSortSliceFunc: sort.PartialSortSlice2[TV, TIX]},
		&interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: sort.SortSlice3[TIX],
			SortPairsFunc:        func(p []*interfaces.Pair[TV, TIX]) { sort.SortPairs2(interfaces.Pairs[TV, TIX](p)) },
			PartialSortSliceFunc: sort.PartialSortSlice[TV, TIX]},
	}
}

var c23 = &rt.Check{
	ID: "C23",
	Rule: "item sets x the whole product of options: hint {none, 1, n, n+1, 3n, 1000} x verbose {off, on} x loader {mmap, gc} x sorter {default, 3 equivalents} x policy {single, multi with 1 worker, multi with 0 workers} " +
		"x made {directly, by the builder}",
	Oracle: "saved bytes equal and every answer (budgets, k, items, distances; before and after saving) equals the plain index's",
	Run: func(c *rt.Ctx) {
		l := rotated(metrics, []int{1, 2, 3, 8, 40}, []string{"gen", "grid", "mixz", "pairs"}, []string{"dense", "far", "over"})
		if c.Thorough {
			l = grid(allTy, metrics, []int{1, 2, 3, 5, 8, 40}, []string{"gen", "grid", "mixz", "pairs", "same", "coll"}, []string{"dense", "far", "over", "gap", "rev"})
		}
		each(c, l, [4]func(*rt.Ctx, scen){c23run[float32, uint32], c23run[float32, uint64], c23run[float64, uint32], c23run[float64, uint64]})
	},
}

func c23run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	K := kOf[TV, TIX](s)
	ns := []int{1, K + 1, 3*K + 2}
	if s.dim > 8 {
		ns = []int{2, K + 6}
	}
	for _, n := range ns {
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		T := 1 + n%3
		sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: T, W: 1, Seed: uint64(n % 2), Loader: "mmap", Via: "new"}
		idx, m := lab.Built[TV, TIX](sp, items)
		ref := observe(c, idx, m, T, 2, 2)
		fn, fo := file(c, "plain"), file(c, "other")
		must(c, idx.Save(fn), "save")
		want, _ := os.ReadFile(fn)
		idx.Close()
		combo := 0
		for _, hint := range []int{0, 1, n, n + 1, 3 * n, 1000} {
			for _, verbose := range []bool{false, true} {
				for _, loader := range []string{"mmap", "gc"} {
					used := 0
					for si, so := range sorters[TV, TIX](&used) {
						for pol := 0; pol < 3; pol++ {
							for _, via := range []string{"new", "builder"} {
								if via == "builder" && s.metric == "dot" {
									continue
								}
								combo++
								if !c.Thorough && verbose && combo%3 != 0 {
									continue
								}
								o := sp
								o.Hint, o.Verbose, o.Loader, o.Multi, o.Via = hint, verbose, loader, pol > 0, via
								o.W = []int{1, 1, 0}[pol]
								c.Tick()
								c.Step(func() string { return fmt.Sprintf("n=%d [%v] sorter %d", n, o, si) })
								var x interfaces.AnnoyIndex[TV, TIX]
								if via == "builder" {
									b := lab.Builder[TV, TIX](o)
									if pol == 0 {
										b.SingleWorkerPolicy()
									}
									if loader == "mmap" {
										b.MmapIndexAllocator()
									}
									if so != nil {
										b.UseSorter(so)
									}
									x = b.Build()
								} else {
									x = index.New[TV, TIX](lab.Rnd[TIX](o.Seed), lab.Dist[TV, TIX](o), lab.Policy(o.Multi), memory.GoGCIndexAllocator(),
										lab.Loader(loader), so, verbose, TIX(hint))
								}
								xm := lab.Fill(x, o, items)
								x.Build(T, o.W)
								fail := func(when, d string) {
									c.Fail("n=%d [%v] sorter %d, against the plain index, %s: %s", n, o, si, when, d)
								}
								if d := ref.diff(observe(c, x, xm, T, 2, 2)); d != "" {
									fail("built", d)
								}
								must(c, x.Save(fo), "save")
								if got, _ := os.ReadFile(fo); !bytes.Equal(got, want) {
									fail("saved", fmt.Sprintf("the files differ (%d and %d bytes)", len(want), len(got)))
								}
								if combo%4 == 0 {
									if d := ref.diff(observe(c, x, xm, T, 2, 2)); d != "" {
										fail("after saving", d)
									}
								}
								x.Close()
								c.State(1)
								c.Outcome(n, hint, verbose, loader, si, pol, via)
							}
						}
					}
				}
			}
		}
	}
	c.Sample(func() string { return "product of all options" })
}

// ---------------------------------------------------------------------------------------------
// C26: trees x workers

// fakeBuilder records the shares a policy hands out, and uses the locks it gets.
type fakeBuilder struct {
	mu    sync.Mutex
	calls [][2]int
	guard [3]int64
	bad   string
	x     int64
}

func (f *fakeBuilder) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	f.mu.Lock()
	f.calls = append(f.calls, [2]int{trees, worker})
	f.mu.Unlock()
	in := func(i int, lock, unlock func()) {
		lock()
		if atomic.AddInt64(&f.guard[i], 1) != 1 {
			f.mu.Lock()
			f.bad = fmt.Sprintf("lock %d does not exclude", i)
			f.mu.Unlock()
		}
		atomic.AddInt64(&f.guard[i], -1)
		unlock()
	}
	in(0, p.LockNNodes, p.UnlockNNodes)
	in(1, p.LockNodes, p.UnlockNodes)
	in(2, p.LockRoots, p.UnlockRoots)
	p.LockSharedNodes()
	p.UnlockSharedNodes()
}

// recRnd is a random generator that records what each clone was asked for first.
type recRnd[TIX interfaces.IndexTypes] struct {
	interfaces.Random[TIX]
	log *recLog
	own []uint64
	reg bool
}

type recLog struct {
	mu     sync.Mutex
	clones []*[]uint64
}

func (r *recRnd[TIX]) note(x uint64) {
	if !r.reg {
		r.reg = true
		r.log.mu.Lock()
		r.log.clones = append(r.log.clones, &r.own)
		r.log.mu.Unlock()
	}
	if len(r.own) < 24 {
		r.own = append(r.own, x)
	}
}
func (r *recRnd[TIX]) Next() TIX { x := r.Random.Next(); r.note(uint64(x)); return x }
func (r *recRnd[TIX]) NextSide() interfaces.Side {
	x := r.Random.NextSide()
	r.note(uint64(x))
	return x
}
func (r *recRnd[TIX]) NextIndex(n TIX) TIX {
	x := r.Random.Next() // the whole state of the answer, not only its remainder
	r.note(uint64(x))
	return x % n
}
func (r *recRnd[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return &recRnd[TIX]{Random: r.Random.CloneAndReset(), log: r.log}
}

var c26 = &rt.Check{
	ID:   "C26",
	Rule: "shares: both policies x trees -1..40 x workers -1..40 with a recording builder, and workers up to 3000 x trees up to 2^40; forests: both policies x trees 1..12 and -1 x workers -1..13 x item sets and sizes from 1 to 30 x types x metrics; up to 1000 workers and 300 trees",
	Oracle: "shares add up to the requested trees over distinct worker numbers; exactly T well-formed trees in the saved file (at least one and a bounded number for -1); " +
		"trees of different workers differ and no two generators draw the same sequence",
	Procs: 4,
	Run: func(c *rt.Ctx) {
		c.Unit("shares single", func() { c26shares(c, false) })
		c.Unit("shares multi", func() { c26shares(c, true) })
		each(c, grid(allTy, metrics, []int{1, 2, 3, 8}, []string{"gen", "same", "grid"}, []string{"dense", "gap"}),
			[4]func(*rt.Ctx, scen){c26run[float32, uint32], c26run[float32, uint64], c26run[float64, uint32], c26run[float64, uint64]})
	},
}

func c26shares(c *rt.Ctx, multi bool) {
	max := 40
	if c.Thorough {
		max = 150
	}
	var pairs [][2]int
	for T := -1; T <= max; T++ {
		for W := -1; W <= max; W++ {
			pairs = append(pairs, [2]int{T, W})
		}
	}
	ws := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 3000}
	for _, W := range append([]int{1, 2, 3, 7, 8}, ws...) {
		for _, T := range append([]int{-1, 0, 1, 2, 10, 65535, 65536, 65537, 1000003, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1<<40 + 3}, ws...) {
			pairs = append(pairs, [2]int{T, W})
		}
	}
	for _, p := range pairs {
		{
			T, W := p[0], p[1]
			var p interfaces.AnnoyIndexBuildPolicy = policy.SingleWorker()
			if multi {
				p = policy.MultiWorker()
			}
			f := &fakeBuilder{}
			c.Tick()
			c.Step(func() string { return fmt.Sprintf("T=%d W=%d", T, W) })
			p.Build(f, T, W)
			sum, seen := 0, map[int]bool{}
			for _, x := range f.calls {
				if seen[x[1]] {
					c.Fail("multi=%v T=%d W=%d: worker number %d twice: %v", multi, T, W, x[1], f.calls)
				}
				seen[x[1]] = true
				sum += x[0]
				if T == -1 && x[0] != -1 || T >= 0 && x[0] < 0 {
					c.Fail("multi=%v T=%d W=%d: share %d for a worker: %v", multi, T, W, x[0], f.calls)
				}
			}
			if len(f.calls) == 0 || T >= 0 && sum != T {
				c.Fail("multi=%v T=%d W=%d: shares %v add up to %d", multi, T, W, f.calls, sum)
			}
			if multi && f.bad != "" {
				c.Fail("T=%d W=%d: %s", T, W, f.bad)
			}
			if max := W; W > 0 && len(f.calls) > max {
				c.Fail("multi=%v T=%d W=%d: %d workers", multi, T, W, len(f.calls))
			}
			c.State(1)
			c.Transition(len(f.calls))
			c.Trace(1)
			c.Outcome(T, W, len(f.calls))
		}
	}
	c.Sample(func() string { return fmt.Sprintf("trees and workers -1..%d", max) })
}

func c26run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	K := kOf[TV, TIX](s)
	ts := []int{-1, 1, 2, 3, 4, 5, 7, 12}
	ws := []int{-1, 0, 1, 2, 3, 5, 8, 13}
	ns := []int{1, 2, K + 1, 3*K + 2, 30}
	if c.Thorough {
		ts, ws = []int{-1}, []int{-1, 0}
		for i := 1; i <= 14; i++ {
			ts, ws = append(ts, i), append(ws, i)
		}
		ns = append(ns, K-1, K, 60)
	}
	if s.dim == 2 {
		ts, ws = append(ts, 65, 300), append(ws, 65, 257, 1000)
	}
	fn := file(c, "c26")
	for _, n := range ns {
		if n < 1 {
			continue
		}
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		for _, T := range ts {
			for _, W := range ws {
				for _, multi := range []bool{false, true} {
					if !multi && W > 3 || (W > 50 || T > 50) && (n != K+1 && n != 2 || W <= 13 && T <= 12) {
						continue
					}
					c.Tick()
					sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: T, W: W, Multi: multi, Loader: "gc"}
					c.Step(func() string { return fmt.Sprintf("n=%d [%v]", n, sp) })
					log := &recLog{}
					d := lab.Dist[TV, TIX](sp)
					x := index.New[TV, TIX](&recRnd[TIX]{Random: lab.Rnd[TIX](3), log: log}, d, lab.Policy(multi), memory.GoGCIndexAllocator(), lab.Loader("gc"), nil, false, 0)
					m := lab.Fill(x, sp, items)
					x.Build(T, W)
					must(c, x.Save(fn), "save")
					x.Close()
					b, err := os.ReadFile(fn)
					must(c, err, "read")
					trees := T
					if T == -1 {
						trees = countRoots(b, d, m)
						workers := W
						if !multi || W < 1 {
							workers = 16
						}
						if N := int(m.N); trees < 1 || len(b)/int(d.NodeSize()) > (6+workers)*N+2*workers+8 {
							c.Fail("n=%d [%v]: %d trees, %d nodes for %d item slots", n, sp, trees, len(b)/int(d.NodeSize()), N)
						}
					}
					f, err := lab.NewForest(b, d, trees)
					must(c, err, "file")
					if msg := f.Check(m); msg != "" {
						c.Fail("n=%d [%v]: %s", n, sp, msg)
					}
					c.State(1)
					c.Transition(f.Len)
					c.Trace(1)
					can := f.Canon(m)
					for _, h := range can {
						c.OutcomeHash(h)
					}
					for i, a := range log.clones {
						for _, o := range log.clones[:i] {
							if len(*a) >= 8 && len(*o) >= 8 && fmt.Sprint((*a)[:8]) == fmt.Sprint((*o)[:8]) {
								c.Fail("n=%d [%v]: two generators draw the same sequence %v: their trees are the same", n, sp, (*a)[:8])
							}
						}
					}
					if s.data == "gen" && s.dim > 1 && n >= 30 && T > 0 {
						for i := 1; i < len(can); i++ {
							if can[i] == can[i-1] {
								c.Fail("n=%d [%v]: two trees are identical", n, sp)
							}
						}
					}
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("sizes %v, trees %v, workers %v", ns, ts, ws) })
}

// countRoots counts the trees of a file whose number of trees is not known.
func countRoots[TV interfaces.VectorType, TIX interfaces.IndexTypes](b []byte, d interfaces.Distance[TV, TIX], m *lab.Model[TV]) int {
	ns := int(d.NodeSize())
	n := 0
	for i := int(m.N); i < len(b)/ns; i++ {
		if uint64(*(*TIX)(unsafe.Pointer(&b[i*ns]))) == m.N {
			n++
		}
	}
	return n / 2
}

// ---------------------------------------------------------------------------------------------
// C29: plug-ins

// strictPolicy is a user-supplied policy that runs the workers in descending order and checks
// that each lock is released by the time it is asked for again.
type strictPolicy struct {
	workers int
	held    [4]int
	calls   [4]int
	bad     string
}

func (p *strictPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, _ int) {
	for i := p.workers - 1; i >= 0; i-- {
		b.ThreadBuild((trees+i)/p.workers, i, p)
	}
}
func (p *strictPolicy) lock(i int, what string) {
	p.calls[i]++
	if p.held[i]++; p.held[i] > 1 {
		p.bad = what + " is taken while it is held"
	}
	if i == 1 && p.held[2] > 0 || i == 2 && p.held[1] > 0 {
		p.bad = "nodes are locked exclusively while they are locked shared"
	}
}
func (p *strictPolicy) unlock(i int, what string) {
	if p.held[i]--; p.held[i] < 0 {
		p.bad = what + " is released but not held"
	}
}
func (p *strictPolicy) LockNNodes()        { p.lock(0, "the lock of the node counter") }
func (p *strictPolicy) UnlockNNodes()      { p.unlock(0, "the lock of the node counter") }
func (p *strictPolicy) LockNodes()         { p.lock(1, "the lock of the nodes") }
func (p *strictPolicy) UnlockNodes()       { p.unlock(1, "the lock of the nodes") }
func (p *strictPolicy) LockSharedNodes()   { p.lock(2, "the shared lock of the nodes") }
func (p *strictPolicy) UnlockSharedNodes() { p.unlock(2, "the shared lock of the nodes") }
func (p *strictPolicy) LockRoots()         { p.lock(3, "the lock of the roots") }
func (p *strictPolicy) UnlockRoots()       { p.unlock(3, "the lock of the roots") }

// movingAllocator is a user-supplied build allocator: every growth moves the memory and poisons
// the old one; exactly the requested size is given.
type movingAllocator struct {
	mem   []uint64
	size  int
	grows int
	frees int
}

func (a *movingAllocator) Free() { a.poison(); a.mem, a.size = nil, 0; a.frees++ }
func (a *movingAllocator) poison() {
	for i := range a.mem {
		a.mem[i] = 0x7ff4dead7fa4dead
	}
}
func (a *movingAllocator) Reallocate(n int) unsafe.Pointer {
	a.grows++
	mem := make([]uint64, n/8+2)
	copy(unsafe.Slice((*byte)(unsafe.Pointer(&mem[0])), n), unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(a.mem))), a.size))
	a.poison()
	a.mem, a.size = mem, n
	return unsafe.Pointer(&mem[0])
}

// readAllocator is a user-supplied index allocator.
type readAllocator struct{ open, opened int }
type readIndex struct {
	a    *readAllocator
	mem  []uint64
	size int64
}

func (a *readAllocator) Open(f string) (interfaces.AllocatedIndex, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	mem := make([]uint64, len(b)/8+1)
	copy(unsafe.Slice((*byte)(unsafe.Pointer(&mem[0])), len(b)), b)
	a.open++
	a.opened++
	return &readIndex{a, mem, int64(len(b))}, nil
}
func (a *readAllocator) Get(string) (interfaces.AllocatedIndex, bool) { return nil, false }
func (r *readIndex) Ptr() unsafe.Pointer                              { return unsafe.Pointer(&r.mem[0]) }
func (r *readIndex) Size() int64                                      { return r.size }
func (r *readIndex) Close() error                                     { r.a.open--; r.mem = nil; return nil }

var c29 = &rt.Check{
	ID: "C29",
	Rule: "custom distances: {angular, dot product, a Euclidean one with its own node} x 12 variants (margins flipped, scaled, shifted; constant, negated and infinite priorities; planes that separate nothing or badly; other raw scale) " +
		"x bucket sizes from 2 to the natural one x 4 random generators x lock-checking policies with 1-3 workers x moving build allocator x own file allocator x own sorter x item sets",
	Oracle: "trees well formed with the custom bucket size, answers well formed, default budget complete, unlimited budget exact, saved and loaded index answers the same; every plug-in is used and its contract kept (locks balanced, allocations closed)",
	Run: func(c *rt.Ctx) {
		var l []scen
		i := 0
		for _, m := range []string{"ang", "dot", "euc"} {
			for _, d := range []int{1, 2, 3, 8} {
				for _, v := range lab.Variants {
					for _, da := range []string{"gen", "grid", "mixz", "same", "pos"} {
						tys := []int{i % 4}
						if c.Thorough {
							tys = allTy
						}
						i++
						for _, ty := range tys {
							l = append(l, scen{ty: ty, metric: m, dim: d, data: da, ids: lab.AllIDs[(i+d)%len(lab.AllIDs)], note: " variant=" + v, loader: v})
						}
					}
				}
			}
		}
		each(c, l, [4]func(*rt.Ctx, scen){c29run[float32, uint32], c29run[float32, uint64], c29run[float64, uint32], c29run[float64, uint64]})
	},
}

func c29run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	v := s.loader
	nat := lab.MaxChildren[TV, TIX](lab.Spec{Metric: s.metric, Dim: s.dim})
	i := 0
	for K := 2; K <= nat; K++ {
		if K > 3 && K < nat-1 && !c.Thorough {
			continue
		}
		ns := []int{1, K, K + 1, 2*K + 1, 16}
		for _, n := range ns {
			items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
			for mode := 0; mode < 4; mode++ {
				i++
				c.Tick()
				W := 1 + i%3
				sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 1 + i%4, W: W, Variant: v, MaxK: K}
				if K == nat && i%2 == 0 {
					sp.MaxK = 0
				}
				c.Step(func() string { return fmt.Sprintf("n=%d mode=%d [%v]", n, mode, sp) })
				d := lab.Dist[TV, TIX](sp)
				pol := &strictPolicy{workers: W}
				al := &movingAllocator{}
				ra := &readAllocator{}
				sorted, draws := 0, 0
				mk := func(hint TIX) interfaces.AnnoyIndex[TV, TIX] {
					return index.New[TV, TIX](&adv[TIX]{base: lab.Rnd[TIX](0), mode: mode, draws: &draws, seed: 7}, d, pol, al, ra,
						mySorter[TV, TIX]{&sorted}, false, hint)
				}
				x := mk(TIX(i % 5))
				w := &world[TV, TIX]{s: s, sp: sp, n: n, state: "built", idx: x}
				w.m = lab.Fill(x, sp, items)
				x.Build(sp.T, W)
				use := func(what string, ok bool) {
					if !ok {
						c.Fail("%s mode=%d: %s", w.what(), mode, what)
					}
				}
				use("build policy: "+pol.bad, pol.bad == "")
				use(fmt.Sprintf("locks are held after the build: %v", pol.held), pol.held == [4]int{})
				use("the build allocator is not used", al.grows > 0)
				use("the random generator is not used", draws > 0 || n <= K || v == "oneside" || v == "otherside")
				use("the build does not lock the node counter and the roots", pol.calls[0] > 0 && pol.calls[3] > 0)
				checkItems(c, x, w.m, "built")
				qs := queries(w.m, 3)
				ref := observe(c, x, w.m, sp.T, 2, 2)
				c04world(c, w, qs, ladder(n+1, 3))
				c05world(c, w, qs[:1], []int{1, n, n + 2})
				use("the sorter is not used", sorted > 0)
				f := forestOf(c, x, sp, "c29")
				if msg := f.Check(w.m); msg != "" {
					c.Fail("%s mode=%d: %s", w.what(), mode, msg)
				}
				if msg := ref.diff(observe(c, x, w.m, sp.T, 2, 2)); msg != "" {
					c.Fail("%s mode=%d after saving: %s", w.what(), mode, msg)
				}
				must(c, x.Load(file(c, "c29")), "load")
				if msg := ref.diff(observe(c, x, w.m, sp.T, 2, 2)); msg != "" {
					c.Fail("%s mode=%d after loading: %s", w.what(), mode, msg)
				}
				use(fmt.Sprintf("%d of %d allocations are open with one file loaded", ra.open, ra.opened), ra.open == 1)
				x.Close()
				use(fmt.Sprintf("%d allocations are open after close", ra.open), ra.open == 0)
				use("the build allocator is never freed", al.frees > 0)
				c.State(3)
				for _, h := range f.Canon(w.m) {
					c.OutcomeHash(h)
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("bucket sizes 2..%d x 4 generators", nat) })
}
