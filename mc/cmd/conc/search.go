package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
	"verif/mc/vsync"
)

// ---- C13

var c13 = &rt.Check{
	ID: "C13",
	Rule: "for built, saved and loaded (both allocators) indexes over metrics and data sets: all pairs (and some triples) of searches by vector, by item, reads of items and distances, and context creations, " +
		"each in its own goroutine, and two goroutines that fill, build, save, load and search an index of their own, or load the same file, with all the parts that indexes of one builder share; all schedules up to a preemption bound over the points where the shared index is touched (every call of the distance: node access, margin, distance)",
	Oracle:      "answers equal to those of the same operation alone; happens-before monitor over all memory accesses; deadlock monitor",
	Assumptions: []string{"as for C11; reads of a memory mapped file are not seen by the happens-before monitor (the mapping is read-only)"},
	Procs:       1, BigVM: true,
	Run: func(c *rt.Ctx) {
		fs := [4]func(*rt.Ctx, bscen, string){c13run[float32, uint32], c13run[float32, uint64], c13run[float64, uint32], c13run[float64, uint64]}
		gs := [4]func(*rt.Ctx, bscen, string){c13own[float32, uint32], c13own[float32, uint64], c13own[float64, uint32], c13own[float64, uint64]}
		i := 0
		sizes := []int{5, 9}
		datas := []string{"gen", "pairs", "mixz"}
		if c.Thorough {
			sizes = []int{1, 3, 5, 9, 14}
			datas = lab.AllData
		}
		for _, m := range []string{"ang", "dot"} {
			for _, d := range datas {
				for _, n := range sizes {
					for _, state := range []string{"built", "saved", "mmap", "gc"} {
						if !c.Thorough && state == "saved" && d != "gen" {
							continue
						}
						s := bscen{ty: i % 4, metric: m, dim: 1 + i%3, data: d, ids: []string{"dense", "gap"}[i%2], n: n, T: 2 + i%2, W: 1, seed: uint64(i%3) + 1, note: " state=" + state}
						i++
						st := state
						if d == "gen" && n == sizes[0] { // hardly any item
							r := s
							r.n = 1
							c.Unit(r.key(), func() { fs[r.ty](c, r, st) })
							if st == "built" {
								r.n = 0
								c.Unit(r.key(), func() { fs[r.ty](c, r, st) })
							}
						}
						c.Unit(s.key(), func() { fs[s.ty](c, s, st) })
					}
				}
			}
			// large: every pair in both orders, without preemptions
			for _, x := range [][4]int{{2, 700, 3, 5}, {40, 300, 12, 1}, {300, 600, 2, 3}, {1, 5000, 2, 7}, {3, 60, 70, 1}} {
				for k, state := range []string{"built", "mmap"} {
					s := bscen{ty: (i + k) % 4, metric: m, dim: x[0], data: "gen", ids: []string{"dense", "gap"}[i%2], n: x[1], T: x[2], W: 1, seed: uint64(x[3]), first: 1, note: " state=" + state}
					i++
					st := state
					c.Unit(s.key(), func() { fs[s.ty](c, s, st) })
				}
			}
			for j := 0; j < 4; j++ {
				for _, parts := range []string{"own", "shared", "builder"} {
					for w := 1; w <= 2; w++ {
						if w == 2 && (parts == "own" || !c.Thorough && (j+len(m)+len(parts))%3 != 0) || m == "dot" && parts == "builder" {
							continue
						}
						s := bscen{ty: j, metric: m, dim: 2, data: "gen", ids: "dense", n: 6 - w, T: 2, W: w, seed: 1, note: " an index each, parts: " + parts}
						parts := parts
						c.Unit(s.key(), func() { gs[s.ty](c, s, parts) })
					}
				}
			}
		}
	},
}

// pointed makes every use of the distance by a search a scheduling point.
type pointed[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	lab.Wrapped[TV, TIX]
	on *bool
}

func (p pointed[TV, TIX]) point() {
	if *p.on {
		vsync.Point()
	}
}

func (p pointed[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	p.point()
	return p.Wrapped.Margin(n, y)
}

func (p pointed[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	p.point()
	return p.Wrapped.Distance(x, y)
}

func (p pointed[TV, TIX]) NormalizedDistance(d TV) TV {
	p.point()
	return p.Wrapped.NormalizedDistance(d)
}

func (p pointed[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) {
	p.Wrapped.InitNode(n)
	p.point()
}

func mk[TV interfaces.VectorType, TIX interfaces.IndexTypes](s bscen, loader string, on *bool) interfaces.AnnoyIndex[TV, TIX] {
	sp := s.spec()
	return index.New[TV, TIX](lab.Rnd[TIX](s.seed), pointed[TV, TIX]{lab.Dist[TV, TIX](sp), on}, lab.Policy(false),
		memory.GoGCIndexAllocator(), lab.Loader(loader), nil, false, 0)
}

func show[TV interfaces.VectorType, TIX interfaces.IndexTypes](ids []TIX, ds []TV) string {
	b := make([]string, 0, len(ids))
	for i := range ids {
		d := "?"
		if i < len(ds) {
			d = fmt.Sprintf("%x", math.Float64bits(float64(ds[i])))
		}
		b = append(b, fmt.Sprintf("%d:%s", ids[i], d))
	}
	return fmt.Sprint(b, len(ids), len(ds))
}

type oper struct {
	name string
	f    func() string
}

func c13run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s bscen, state string) {
	items := lab.Items(s.ids, lab.Data(s.data, s.dim, s.n))
	on := false
	file := filepath.Join(c.Dir, "c13.ann")
	loader := "mmap"
	if state == "gc" || state == "saved" {
		loader = "gc"
	}
	var idx interfaces.AnnoyIndex[TV, TIX]
	var m *lab.Model[TV]
	have := false
	fresh := func() {
		if idx != nil {
			idx.Close()
		}
		idx = mk[TV, TIX](s, loader, &on)
		if have && (state == "mmap" || state == "gc") {
			if err := idx.Load(file); err != nil {
				c.Fail("load: %v", err)
			}
			return
		}
		m = lab.Fill(idx, s.spec(), items)
		idx.Build(s.T, 1)
		if state != "built" {
			if err := idx.Save(file); err != nil {
				c.Fail("save: %v", err)
			}
			have = true
			if state != "saved" {
				idx.Close()
				if err := idx.Load(file); err != nil {
					c.Fail("load: %v", err)
				}
			}
		}
	}
	fresh()
	defer func() { on = false; idx.Close() }()
	// operations: each makes its own context
	var ops []oper
	byVec := func(v []TV, k, budget int) oper {
		return oper{fmt.Sprintf("search %v k=%d budget=%d", v, k, budget), func() string {
			q := append([]TV(nil), v...)
			ids, ds := idx.GetNnsByVector(q, k, budget, idx.CreateContext())
			return show(ids, ds)
		}}
	}
	byItem := func(id uint64, k, budget int) oper {
		return oper{fmt.Sprintf("search item %d k=%d budget=%d", id, k, budget), func() string {
			ids, ds := idx.GetNnsByItem(TIX(id), k, budget, idx.CreateContext())
			return show(ids, ds)
		}}
	}
	if len(m.IDs) == 0 {
		p := lab.Probes(s.dim)
		for i, x := range [][2]int{{3, -1}, {1, 5}, {0, 0}, {7, 1}} {
			ops = append(ops, byVec(lab.Conv[TV](p[i%len(p)]), x[0], x[1]))
		}
		ops = append(ops, oper{"contexts", func() string {
			for i := 0; i < 3; i++ {
				vsync.Point()
				idx.CreateContext()
			}
			return fmt.Sprint(idx.VectorLength())
		}})
		c13all(c, ops, &on, fresh, false)
		return
	}
	last := m.IDs[len(m.IDs)-1]
	mid := m.IDs[len(m.IDs)/2]
	ops = append(ops,
		byVec(m.Vec[m.IDs[0]], 3, -1), byVec(lab.Conv[TV](lab.Probes(s.dim)[0]), s.n, 1000), byVec(m.Vec[last], 2, 2),
		byItem(last, 2, -1), byItem(mid, s.n+1, 3),
		oper{"two searches with one context", func() string {
			ctx := idx.CreateContext()
			a, da := idx.GetNnsByItem(TIX(m.IDs[0]), 2, -1, ctx)
			r := show(a, da)
			b, db := idx.GetNnsByVector(append([]TV(nil), m.Vec[last]...), 3, -1, ctx)
			return r + show(b, db)
		}},
		oper{"read items", func() string {
			r := ""
			for _, id := range m.IDs {
				vsync.Point()
				r += fmt.Sprint(idx.GetItem(TIX(id)))
			}
			return r
		}},
		oper{"distances", func() string {
			return fmt.Sprint(idx.GetDistance(TIX(m.IDs[0]), TIX(last)), idx.GetDistance(TIX(mid), TIX(mid)))
		}},
		oper{"contexts", func() string {
			for i := 0; i < 3; i++ {
				vsync.Point()
				idx.CreateContext()
			}
			return fmt.Sprint(idx.VectorLength())
		}},
	)
	c13all(c, ops, &on, fresh, s.first > 0)
}

// c13all runs the operations concurrently.
func c13all(c *rt.Ctx, ops []oper, on *bool, fresh func(), large bool) {
	want := make([]string, len(ops))
	for i, o := range ops {
		want[i] = o.f()
	}
	again := false // a new index in every execution: nothing has been used before
	bound := 2
	if c.Thorough {
		bound = 3
	}
	if large {
		bound = 0
	}
	run := func(sel []int, bound int) {
		got := make([]string, len(sel))
		var names []string
		for _, k := range sel {
			names = append(names, ops[k].name)
		}
		what := strings.Join(names, " || ")
		if again {
			what += " on an unused index"
		}
		*on = true
		explore(c, bound, what, func() {
			if again {
				*on = false
				fresh()
				*on = true
			}
			var wg vsync.WaitGroup
			wg.Add(len(sel))
			for i, k := range sel {
				i, k := i, k
				vsync.Go(func() {
					defer wg.Done()
					got[i] = ops[k].f()
				})
			}
			wg.Wait()
		}, func() {
			for i, k := range sel {
				c.Eval(1)
				if got[i] != want[k] {
					c.Fail("%s: %s gave %s, alone it gives %s, schedule %s", what, ops[k].name, got[i], want[k], strings.Join(vsync.Trace(), " "))
				}
			}
		})
	}
	c.Outcome(want)
	for i := range ops {
		for j := i; j < len(ops); j++ {
			if c.Cut() {
				return
			}
			run([]int{i, j}, bound)
		}
	}
	again = true
	for i := range ops {
		if large && i != 0 && i != 4 { // a build for each
			continue
		}
		for j := i; j < len(ops); j++ {
			if c.Cut() {
				return
			}
			run([]int{i, j}, max(bound-1, 0))
		}
	}
	again = false
	run([]int{0, 3, 1}, max(bound-1, 0))
	if len(ops) > 7 {
		run([]int{2, 4, 7}, max(bound-1, 0))
	}
	c.Sample(func() string { return strings.Join([]string{ops[0].name, ops[1].name, want[0]}, " ; ") })
}

// c13own: every goroutine has an index of its own; they share nothing, or all the parts that the
// indexes of one builder share (policy, generator, distance, file allocator), or come from a builder.
func c13own[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s bscen, parts string) {
	on := true
	sp := s.spec()
	sp.Loader = []string{"mmap", "gc"}[s.ty%2]
	sp.Multi = s.W > 1
	bld := lab.Builder[TV, TIX](sp)
	loader, rnd, pol := lab.Loader(sp.Loader), lab.Rnd[TIX](s.seed), lab.Policy(sp.Multi)
	dist := pointed[TV, TIX]{lab.Dist[TV, TIX](sp), &on}
	var made []interfaces.AnnoyIndex[TV, TIX]
	fresh := func(k int) interfaces.AnnoyIndex[TV, TIX] {
		switch parts {
		case "own":
			r := s
			r.seed += uint64(k)
			return mk[TV, TIX](r, []string{"mmap", "gc", "gc"}[k], &on)
		case "builder":
			return bld.Build()
		}
		return index.New[TV, TIX](rnd, dist, pol, memory.GoGCIndexAllocator(), loader, nil, false, 0)
	}
	search := func(idx interfaces.AnnoyIndex[TV, TIX], id uint64, k, b int) string {
		vsync.Point()
		ids, ds := idx.GetNnsByItem(TIX(id), k, b, idx.CreateContext())
		return show(ids, ds)
	}
	job := func(k int, idx interfaces.AnnoyIndex[TV, TIX]) string {
		data := []string{"gen", "pairs", "pos"}[k]
		items := lab.Items("dense", lab.Data(data, s.dim, s.n))
		vsync.Point()
		m := lab.Fill(idx, sp, items)
		vsync.Point()
		idx.Build(s.T, s.W)
		out := search(idx, m.IDs[1], 3, -1)
		f := filepath.Join(c.Dir, fmt.Sprintf("own%d.ann", k))
		vsync.Point()
		if err := idx.Save(f); err != nil {
			return err.Error()
		}
		out += search(idx, m.IDs[0], 2, -1)
		vsync.Point()
		idx.Close()
		vsync.Point()
		if err := idx.Load(f); err != nil {
			return err.Error()
		}
		out += search(idx, m.IDs[2], 5, 4)
		vsync.Point()
		idx.Close()
		return out
	}
	// reader loads one and the same file, again and again
	common := filepath.Join(c.Dir, "common.ann")
	{
		idx := fresh(0)
		lab.Fill(idx, sp, lab.Items("dense", lab.Data("gen", s.dim, s.n)))
		idx.Build(s.T, 1)
		if err := idx.Save(common); err != nil {
			c.Fail("save: %v", err)
		}
		idx.Close()
	}
	reader := func(k int, idx interfaces.AnnoyIndex[TV, TIX]) string {
		out := ""
		for r := 0; r < 2; r++ {
			vsync.Point()
			if err := idx.Load(common); err != nil {
				return err.Error()
			}
			out += search(idx, uint64(k), 3, -1)
			vsync.Point()
			if r == 1 {
				idx.Close()
			}
		}
		return out
	}
	// saver saves all indexes under one name
	one := filepath.Join(c.Dir, "one.ann")
	saver := func(k int, idx interfaces.AnnoyIndex[TV, TIX]) string {
		lab.Fill(idx, sp, lab.Items("dense", lab.Data([]string{"gen", "pairs", "pos"}[k], s.dim, s.n+k)))
		idx.Build(s.T, 1)
		vsync.Point()
		if idx.Save(one) != nil { // it may be refused
			return "refused"
		}
		b, err := os.ReadFile(one)
		if err != nil {
			return err.Error()
		}
		return string(b)
	}
	bound := 1
	if c.Thorough {
		bound = 2
	}
	if s.W == 1 {
		var want [3]string
		for k := range want {
			idx := fresh(k)
			want[k] = saver(k, idx)
			idx.Close()
			if want[k] == "refused" {
				c.Fail("a save that is alone is refused")
			}
		}
		for si, sel := range [][]int{{0, 1}, {0, 1, 2}} {
			var got [3]string
			explore(c, bound+1-si, fmt.Sprintf("saves of %v under one name, parts: %s", sel, parts), func() {
				made = made[:0]
				os.Remove(one)
				for _, k := range sel {
					made = append(made, fresh(k))
				}
				var wg vsync.WaitGroup
				for i, k := range sel {
					k, idx := k, made[i]
					wg.Go(func() { got[k] = saver(k, idx) })
				}
				wg.Wait()
			}, func() {
				last, err := os.ReadFile(one)
				saved := 0
				for i, k := range sel {
					made[i].Close()
					c.Eval(1)
					if got[k] != "refused" {
						saved++
						if got[k] != want[0] && got[k] != want[1] && got[k] != want[2] {
							c.Fail("saves of %v under one name (parts: %s): after the save of %d the file holds none of the indexes (%d bytes), schedule %s", sel, parts, k, len(got[k]), strings.Join(vsync.Trace(), " "))
						}
					}
				}
				if saved > 0 && (err != nil || string(last) != want[0] && string(last) != want[1] && string(last) != want[2]) {
					c.Fail("saves of %v under one name (parts: %s): the file holds none of the indexes (%d bytes, %v), schedule %s", sel, parts, len(last), err, strings.Join(vsync.Trace(), " "))
				}
			})
		}
	}
	for _, jobs := range []struct {
		name string
		f    func(int, interfaces.AnnoyIndex[TV, TIX]) string
		sels [][]int
	}{{"life", job, [][]int{{0, 1}, {1, 2}, {0, 2}}}, {"readers", reader, [][]int{{0, 1}, {0, 1, 2}}}} {
		var want [3]string
		canon := sp.Multi && jobs.name == "life" // the order of the trees depends on the schedule
		for k := range want {
			idx := fresh(k)
			want[k] = jobs.f(k, idx)
			idx.Close()
		}
		for si, sel := range jobs.sels {
			if s.W > 1 && (si > 0 || jobs.name == "readers") {
				continue
			}
			var got [3]string
			b := bound
			if s.W > 1 {
				b = 1 // four workers
			}
			if jobs.name == "readers" && len(sel) == 2 {
				b++
			}
			explore(c, b, fmt.Sprintf("%s of %v, parts: %s", jobs.name, sel, parts), func() {
				made = made[:0]
				for _, k := range sel {
					made = append(made, fresh(k))
				}
				var wg vsync.WaitGroup
				for i, k := range sel {
					k, idx := k, made[i]
					wg.Go(func() { got[k] = jobs.f(k, idx) })
				}
				wg.Wait()
			}, func() {
				for _, k := range sel {
					c.Eval(1)
					if got[k] != want[k] && !(canon && len(got[k]) == len(want[k])) {
						c.Fail("%s: index %d of %v (parts: %s): %s, alone %s, schedule %s", jobs.name, k, sel, parts, got[k], want[k], strings.Join(vsync.Trace(), " "))
					}
				}
			})
		}
		c.Outcome(want)
	}
}
