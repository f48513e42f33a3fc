package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"sort"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// The large units: sizes past the powers of two where narrow counters end (2^8, 2^12, 2^16), vector
// lengths past those of the lattices, many trees. One index each, few searches.
const largeRule = "large indexes: 20 combinations of up to 150000 items, ids up to 200000, vectors up to 2000 long and up to 5000 trees x types x metrics, with thinned out searches"

type largeSize struct {
	dim, n, T int
	data, ids string
}

var largeSizes = []largeSize{
	{2, 70000, 1, "gen", "dense"}, // ids beyond 2^16
	{2, 150000, 1, "fine", "rev"}, // counts beyond 2^16 below the root
	{2, 9, 5000, "gen", "dense"},
	{3, 5000, 4, "clust", "gap"}, // several levels
	{4, 4200, 2, "pairs", "rev"},
	{2, 16, 3, "gen", "vast"}, // ids far apart, beyond 2^16
	{1, 40, 2, "gen", "vast"},
	{3, 30, 70, "gen", "dense"}, // many trees
	{2, 9, 300, "circle", "gap"},
	{100, 300, 2, "gen", "dense"}, // long vectors
	{130, 400, 3, "fine", "gap"},
	{257, 600, 2, "scale", "dense"},
	{784, 1000, 2, "gen", "gap"},
	{1536, 1700, 1, "fine", "dense"},
	{2000, 40, 2, "gen", "off"},
	{63, 80, 2, "fine", "rev"}, // odd lengths
	{67, 100, 2, "gen", "dense"},
	{131, 200, 1, "scale", "gap"},
	{255, 300, 2, "gen", "off"},
	{1031, 1200, 1, "gen", "gap"},
}

func largeScens() (out []scen) {
	for i, z := range largeSizes {
		for _, ty := range allTy {
			for mi, m := range metrics {
				if z.n*z.dim > 100000 && (i+ty+mi)%2 == 0 { // half of the product for the big ones
					continue
				}
				out = append(out, scen{ty: ty, metric: m, dim: z.dim, data: z.data, ids: z.ids,
					note: fmt.Sprintf(" n=%d trees=%d", z.n, z.T), loader: fmt.Sprintf("%d/%d", z.n, z.T)})
			}
		}
	}
	return
}

type fns = [4]func(*rt.Ctx, scen)

func eachLarge(c *rt.Ctx, f fns) { each(c, largeScens(), f) }

// large makes the index of a large scenario, built, saved or loaded.
func large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen, f func(w *world[TV, TIX])) {
	var n, T int
	fmt.Sscanf(s.loader, "%d/%d", &n, &T)
	s.loader = ""
	for seed := uint64(0); seed < 3; seed++ {
		if n*s.dim*T > 20000 && seed != uint64(s.ty+s.dim)%3 {
			continue
		}
		sp := spec(s, T, seed)
		fn := file(c, "large")
		w := &world[TV, TIX]{s: s, sp: sp, n: n, state: []string{"built", "saved", "loaded"}[seed]}
		w.idx, w.m = lab.Built[TV, TIX](sp, lab.Items(s.ids, lab.Data(s.data, s.dim, n)))
		if seed > 0 {
			must(c, w.idx.Save(fn), "save")
		}
		if seed > 1 {
			w.idx.Close()
			w.idx = lab.Make[TV, TIX](sp)
			must(c, w.idx.Load(fn), "load")
		}
		c.Tick()
		c.Step(func() string { return w.what() })
		c.State(1)
		f(w)
		c.Tick()
		w.idx.Close()
		os.Remove(fn)
	}
}

// someKs are the result counts of a large index.
func someKs(n int) []int {
	var out []int
	for _, k := range []int{0, 1, 10, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, n / 2, n - 1, n, n + 1} {
		if k <= n+1 {
			out = append(out, k)
		}
	}
	return out
}

func (w *world[TV, TIX]) queries() [][]TV {
	qs := queries(w.m, 3)
	return append(qs[:3:3], qs[len(qs)-3:]...)
}

func c01large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		checkItems(c, w.idx, w.m, w.what())
		w.idx.GetNnsByVector(w.queries()[0], w.n, -1, w.idx.CreateContext())
		checkItems(c, w.idx, w.m, w.what()+" after a search")
		c.Transition(2 * w.n)
	})
}

func c02large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		f := forestOf(c, w.idx, w.sp, "c02l")
		if msg := f.Check(w.m); msg != "" {
			c.Fail("%s: %s", w.what(), msg)
		}
		c.Transition(f.Len)
		c.NoteMax("max_nodes", int64(f.Len))
	})
}

func c03large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		ctx := w.idx.CreateContext()
		for _, q := range w.queries() {
			c.Tick()
			c03query(c, w, ctx, q, someKs(w.n), []int{-1, 1, 300, w.sp.T * w.n})
		}
		ids := w.m.IDs
		for _, i := range []uint64{ids[0], ids[len(ids)/2], ids[len(ids)-1]} {
			for _, k := range []int{1, 300, w.n} {
				ri, rd := w.idx.GetNnsByItem(TIX(i), k, -1, ctx)
				if msg := lab.CheckAnswer(w.m, w.m.Vec[i], k, ri, rd); msg != "" {
					c.Fail("%s query item %d: %s", w.what(), i, msg)
				}
			}
			for _, j := range []uint64{ids[1], ids[len(ids)/3], ids[len(ids)-1]} {
				d := float64(w.idx.GetDistance(TIX(i), TIX(j)))
				if want := lab.Raw(w.m.Metric, w.m.Vec[i], w.m.Vec[j]); !(math.Abs(lab.RawOf(w.m.Metric, d)-want) <= lab.Slack(w.m.Metric, w.m.Vec[i], w.m.Vec[j])) {
					c.Fail("%s items %d, %d: distance %v, reference raw %v", w.what(), i, j, d, want)
				}
			}
		}
	})
}

func c04large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) { c04world(c, w, w.queries()[1:], someKs(w.n)) })
}

func c05large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		ctx := w.idx.CreateContext()
		for _, q := range w.queries() {
			c.Tick()
			for _, k := range append(someKs(w.n), math.MaxInt) {
				a := ask(w.idx, q, k, -1, ctx)
				want := int(math.Min(float64(k), float64(w.n)))
				if len(a.ids) != want || len(a.ds) != want {
					c.Fail("%s query k=%d: %d results, expected %d", w.what(), k, len(a.ids), want)
				}
				if msg := lab.CheckAnswer(w.m, q, k, a.ids, a.ds); msg != "" {
					c.Fail("%s query k=%d: %s", w.what(), k, msg)
				}
				c.Transition(1)
			}
		}
	})
}

func c06large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) { c06world(c, w, 40) })
}

func c07large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		ctx := w.idx.CreateContext()
		for _, q := range w.queries() {
			var prev answer[TV, TIX]
			bs := []int{0, 1, 2, 3, 100, 255, 256, 300, w.n / 2, w.n, w.sp.T*w.n - 1, w.sp.T * w.n, math.MaxInt}
			sort.Ints(bs)
			for _, b := range bs {
				c.Tick()
				a := ask(w.idx, q, w.n, b, ctx)
				if len(a.ids) < len(prev.ids) {
					c.Fail("%s query: a budget of %d gives %d results, a smaller one %d", w.what(), b, len(a.ids), len(prev.ids))
				}
				for i := range prev.ds {
					if lab.RawOf(w.m.Metric, float64(a.ds[i])) > lab.RawOf(w.m.Metric, float64(prev.ds[i])) {
						c.Fail("%s query: result %d is at %v with budget %d, but at %v with a smaller one", w.what(), i, a.ds[i], b, prev.ds[i])
					}
				}
				prev = a
				for _, k := range someKs(w.n) {
					o := ask(w.idx, q, k, b, ctx)
					n := len(a.ids)
					if k < n {
						n = k
					}
					if !o.eq(answer[TV, TIX]{a.ids[:n], a.ds[:n]}) {
						c.Fail("%s query, budget %d: the answer for k=%d is not a prefix of the one for k=%d", w.what(), b, k, w.n)
					}
					c.Transition(1)
				}
			}
		}
		ids := w.m.IDs
		for _, id := range []uint64{ids[0], ids[len(ids)/2], ids[len(ids)-1]} {
			for _, b := range []int{-1, 1, w.n} {
				a := ask(w.idx, w.m.Vec[id], 300, b, ctx)
				var o answer[TV, TIX]
				o.ids, o.ds = w.idx.GetNnsByItem(TIX(id), 300, b, ctx)
				if !o.eq(a) {
					c.Fail("%s item %d budget %d: by item %v, by vector %v", w.what(), id, b, o.ids, a.ids)
				}
			}
		}
	})
}

// c08large: the answers before a save, after it, and after loading by other indexes.
func c08large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	var n, T int
	fmt.Sscanf(s.loader, "%d/%d", &n, &T)
	s.loader = ""
	sp := spec(s, T, 1)
	sp.Multi, sp.W = T > 1, 1+T%7
	idx, m := lab.Built[TV, TIX](sp, lab.Items(s.ids, lab.Data(s.data, s.dim, n)))
	w := &world[TV, TIX]{s: s, sp: sp, n: n, m: m, state: "built"}
	look := func(x interfaces.AnnoyIndex[TV, TIX]) (out []answer[TV, TIX]) {
		ctx := x.CreateContext()
		for _, q := range w.queries() {
			for _, b := range []int{-1, 1, 300, T * n} {
				out = append(out, ask(x, q, 300, b, ctx))
			}
		}
		c.Tick()
		return append(out, ask(x, w.queries()[0], n, T*n, ctx))
	}
	ref := look(idx)
	same := func(x interfaces.AnnoyIndex[TV, TIX], what string) {
		checkItems(c, x, m, what)
		for i, a := range look(x) {
			if !a.eq(ref[i]) {
				c.Fail("%s: %s: search %d answers differently", w.what(), what, i)
			}
		}
		c.Transition(len(ref))
	}
	f1, f2 := file(c, "l1"), file(c, "l2")
	must(c, idx.Save(f1), "save")
	same(idx, "after save")
	for _, l := range []string{"mmap", "gc"} {
		s2 := sp
		s2.Loader = l
		x := lab.Make[TV, TIX](s2)
		must(c, x.Load(f1), "load")
		same(x, "loaded with "+l)
		must(c, x.Save(f2), "save again")
		same(x, "saved again with "+l)
		b1, _ := os.ReadFile(f1)
		b2, _ := os.ReadFile(f2)
		if !bytes.Equal(b1, b2) {
			c.Fail("%s: saved again, the file differs", w.what())
		}
		x.Close()
	}
	idx.Close()
	os.Remove(f1)
	os.Remove(f2)
	c.State(1)
	c.Trace(1)
}

// c16large: many searches on one context.
func c16large[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	large(c, s, func(w *world[TV, TIX]) {
		qs := w.queries()
		ks := []int{10, 1, w.n}
		b := []int{-1, 1, w.n}
		var ref []answer[TV, TIX]
		for i, q := range qs {
			ref = append(ref, ask(w.idx, q, ks[i%3], b[i%3], w.idx.CreateContext()))
		}
		ctx := w.idx.CreateContext()
		for r := 0; r < 3; r++ {
			for i, q := range qs {
				if a := ask(w.idx, q, ks[i%3], b[i%3], ctx); !a.eq(ref[i]) {
					c.Fail("%s: search %d of round %d on one context differs from the one on a fresh context", w.what(), i, r)
				}
				c.Transition(1)
			}
			c.Tick()
		}
		if w.n > 50 {
			return
		}
		// beyond 2^16 searches on one context
		rounds := 70000
		if w.sp.T > 100 {
			rounds = 500
		}
		for r := 0; r < rounds; r++ {
			i := r % len(qs)
			if r%1000 == 0 {
				c.Tick()
			}
			kb := i % 3
			if w.sp.T > 10 {
				i, kb = 1, 1
			}
			if a := ask(w.idx, qs[i], ks[kb], b[kb], ctx); !a.eq(ref[i]) {
				c.Fail("%s: search %d on one context differs from the one on a fresh context: %v %v, %v %v", w.what(), r, a.ids, a.ds, ref[i].ids, ref[i].ds)
			}
		}
		c.Transition(rounds)
	})
}
