package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// obs is everything one can observe of a built index, as one comparable record.
type obs[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	label []string
	ans   []answer[TV, TIX]
	items [][]TV
	dists []TV
	vlen  TIX
}

func observe[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, idx interfaces.AnnoyIndex[TV, TIX], m *lab.Model[TV], T, nq, full int) *obs[TV, TIX] {
	o := &obs[TV, TIX]{vlen: idx.VectorLength()}
	n := len(m.IDs)
	ctx := idx.CreateContext()
	bs := append([]int{-1}, ladder(T*n+2, full)...)
	for qi, q := range queries(m, nq) {
		for _, b := range bs {
			for _, k := range []int{n + 1, 1 + qi%3} {
				o.ans = append(o.ans, ask(idx, q, k, b, ctx))
				o.label = append(o.label, fmt.Sprintf("query %v k=%d budget=%d", q, k, b))
				c.Transition(1)
			}
		}
	}
	for i, id := range m.IDs {
		o.items = append(o.items, append([]TV(nil), idx.GetItem(TIX(id))...))
		if i < 12 {
			var a answer[TV, TIX]
			a.ids, a.ds = idx.GetNnsByItem(TIX(id), n, -1, ctx)
			o.ans = append(o.ans, a)
			o.label = append(o.label, fmt.Sprintf("item %d k=%d", id, n))
			for _, j := range m.IDs {
				o.dists = append(o.dists, idx.GetDistance(TIX(id), TIX(j)))
			}
		}
	}
	c.Trace(1)
	return o
}

func sameVec[TV interfaces.VectorType](a, b []TV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(float64(a[i])) && math.IsNaN(float64(b[i]))) {
			return false
		}
	}
	return true
}

// diff tells what differs, or "".
func (o *obs[TV, TIX]) diff(p *obs[TV, TIX]) string {
	if o.vlen != p.vlen {
		return fmt.Sprintf("vector length %d, then %d", o.vlen, p.vlen)
	}
	for i := range o.items {
		if !bits(o.items[i], p.items[i]) {
			return fmt.Sprintf("item number %d: %v, then %v", i, o.items[i], p.items[i])
		}
	}
	if !sameVec(o.dists, p.dists) {
		return fmt.Sprintf("item distances: %v, then %v", o.dists, p.dists)
	}
	for i := range o.ans {
		if !o.ans[i].eq(p.ans[i]) {
			return fmt.Sprintf("%s: %v %v, then %v %v", o.label[i], o.ans[i].ids, o.ans[i].ds, p.ans[i].ids, p.ans[i].ds)
		}
	}
	return ""
}

// ---- build policies that own the schedule

// ordered runs the workers one after the other in a given order.
type ordered struct {
	order []int // worker numbers in order of execution
}

func (p *ordered) Build(b interfaces.AnnoyIndexBuilder, trees, _ int) {
	w := len(p.order)
	for _, i := range p.order {
		b.ThreadBuild((trees+i)/w, i, p)
	}
}
func (p *ordered) LockNNodes()        {}
func (p *ordered) UnlockNNodes()      {}
func (p *ordered) LockNodes()         {}
func (p *ordered) UnlockNodes()       {}
func (p *ordered) LockSharedNodes()   {}
func (p *ordered) UnlockSharedNodes() {}
func (p *ordered) LockRoots()         {}
func (p *ordered) UnlockRoots()       {}

// turns runs the workers as coroutines: the schedule decides after which release of the node
// counter the next worker continues. Only one worker runs at a time, hence the locks need no
// mutual exclusion; workers are switched only where they hold no lock.
type turns struct {
	w        int
	schedule func(step int, alive []int) int
	mu       sync.Mutex
	cond     *sync.Cond
	current  int
	alive    []bool
	step     int
}

func (p *turns) Build(b interfaces.AnnoyIndexBuilder, trees, _ int) {
	p.cond = sync.NewCond(&p.mu)
	p.alive = make([]bool, p.w)
	for i := range p.alive {
		p.alive[i] = true
	}
	p.current, p.step = 0, 0
	var wg sync.WaitGroup
	var failed any
	for i := 0; i < p.w; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					p.mu.Lock()
					failed = r
					p.mu.Unlock()
				}
				p.mu.Lock()
				p.alive[i] = false
				p.pick()
				p.mu.Unlock()
			}()
			p.wait(i)
			b.ThreadBuild((trees+i)/p.w, i, &turnOf{p, i})
		}(i)
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

func (p *turns) pick() {
	var a []int
	for i, x := range p.alive {
		if x {
			a = append(a, i)
		}
	}
	if len(a) > 0 {
		p.current = a[p.schedule(p.step, a)%len(a)]
		p.step++
	}
	p.cond.Broadcast()
}

func (p *turns) wait(i int) {
	p.mu.Lock()
	for p.current != i {
		p.cond.Wait()
	}
	p.mu.Unlock()
}

func (p *turns) yield(i int) {
	p.mu.Lock()
	p.pick()
	for p.current != i {
		p.cond.Wait()
	}
	p.mu.Unlock()
}

func (p *turns) LockNNodes()        {}
func (p *turns) UnlockNNodes()      {}
func (p *turns) LockNodes()         {}
func (p *turns) UnlockNodes()       {}
func (p *turns) LockSharedNodes()   {}
func (p *turns) UnlockSharedNodes() {}
func (p *turns) LockRoots()         {}
func (p *turns) UnlockRoots()       {}

type turnOf struct {
	*turns
	i int
}

func (p *turnOf) LockSharedNodes() { p.yield(p.i) }
func (p *turnOf) LockRoots()       { p.yield(p.i) }

func permutations(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int(nil), p...))
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

func withPolicy[TV interfaces.VectorType, TIX interfaces.IndexTypes](sp lab.Spec, p interfaces.AnnoyIndexBuildPolicy) interfaces.AnnoyIndex[TV, TIX] {
	return index.New[TV, TIX](lab.Rnd[TIX](sp.Seed), lab.Dist[TV, TIX](sp), p, memory.GoGCIndexAllocator(),
		lab.Loader(sp.Loader), nil, false, TIX(sp.Hint))
}

// ---------------------------------------------------------------------------------------------

var c08 = &rt.Check{
	ID: "C08",
	Rule: "configurations x item sets (0, 1, ... items, gaps) x trees x seeds x both loaders, single and multi worker policy, every completion order of up to 4 workers and interleavings " +
		"of 2-3 workers by schedule; chain build -> save -> load elsewhere (both loaders) -> save again (same name, other name) -> load; searches over budgets 0..T*n+2; lattice multisets up to 4 points; " +
		"all sequences of up to 4 and 5 saves, loads, removals and refills of two indexes under two names; indexes without trees",
	Oracle: "all items, distances and answers bit for bit as before the save; re-saved files byte for byte equal",
	Run: func(c *rt.Ctx) {
		l := rotated(metrics, []int{1, 2, 3, 4, 8, 9, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
		if c.Thorough {
			l = grid(allTy, metrics, []int{1, 2, 3, 4, 5, 8, 9, 40}, allData, append([]string{"zig"}, lab.AllIDs...))
		}
		each(c, l, [4]func(*rt.Ctx, scen){c08run[float32, uint32], c08run[float32, uint64], c08run[float64, uint32], c08run[float64, uint64]})
		l = rotated(metrics, []int{1, 2, 3}, []string{"gen", "same", "grid", "mixz"}, []string{"dense", "gap"})
		for i := range l {
			l[i].note = " schedules"
		}
		each(c, l, [4]func(*rt.Ctx, scen){c08sched[float32, uint32], c08sched[float32, uint64], c08sched[float64, uint32], c08sched[float64, uint64]})
		each(c, lattices(7), [4]func(*rt.Ctx, scen){c08lat[float32, uint32], c08lat[float32, uint64], c08lat[float64, uint32], c08lat[float64, uint64]})
		each(c, histScens(), fns{c08hist[float32, uint32], c08hist[float32, uint64], c08hist[float64, uint32], c08hist[float64, uint64]})
		l = rotated(metrics, []int{1, 2, 3}, []string{"gen", "zero"}, []string{"dense", "gap"})
		for i := range l {
			l[i].note = " no trees"
		}
		each(c, l, fns{c08noTrees[float32, uint32], c08noTrees[float32, uint64], c08noTrees[float64, uint32], c08noTrees[float64, uint64]})
		eachLarge(c, fns{c08large[float32, uint32], c08large[float32, uint64], c08large[float64, uint32], c08large[float64, uint64]})
	},
}

// chain follows an index through saves and loads.
func c08chain[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, sp lab.Spec, idx interfaces.AnnoyIndex[TV, TIX], m *lab.Model[TV], what string, nq, full int) {
	fail := func(step, d string) { c.Fail("[%v] %s: %s: %s", sp, what, step, d) }
	f1, f2 := file(c, "a.ann"), file(c, "b.ann")
	os.Remove(f1)
	os.Remove(f2)
	o := observe(c, idx, m, sp.T, nq, full)
	if err := idx.Save(f1); err != nil {
		fail("save", err.Error())
	}
	b1, _ := os.ReadFile(f1)
	if d := o.diff(observe(c, idx, m, sp.T, nq, full)); d != "" {
		fail("after save", d)
	}
	for i, loader := range []string{"mmap", "gc"} {
		s2 := sp
		s2.Loader = loader
		x := lab.Make[TV, TIX](s2)
		if err := x.Load(f1); err != nil {
			fail("load with "+loader, err.Error())
		}
		if d := o.diff(observe(c, x, m, sp.T, nq, full)); d != "" {
			fail("loaded with "+loader, d)
		}
		// save again: other name, then same name
		for _, name := range []string{f2, f1} {
			if err := x.Save(name); err != nil {
				fail("save of the loaded index to "+filepath.Base(name), err.Error())
			}
			b2, _ := os.ReadFile(name)
			if !bytes.Equal(b1, b2) {
				fail("save of the loaded index to "+filepath.Base(name), fmt.Sprintf("%d bytes differ from the first file's %d bytes", len(b2), len(b1)))
			}
		}
		if i == 0 || c.Thorough {
			if d := observe(c, x, m, sp.T, nq, full); o.diff(d) != "" {
				fail("loaded and saved again", o.diff(d))
			}
		}
		x.Close()
	}
	// the first index loads the re-saved file in place
	if err := idx.Load(f2); err != nil {
		fail("load of the re-saved file", err.Error())
	}
	if d := o.diff(observe(c, idx, m, sp.T, nq, full)); d != "" {
		fail("re-saved file loaded", d)
	}
	idx.Close()
	c.State(5)
	c.Outcome(len(b1), string(b1[:int(math.Min(200, float64(len(b1))))]))
}

func c08run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	ns := append([]int{0}, searchSizes[TV, TIX](c, s)...)
	nq := 2
	if c.Thorough {
		nq = 5
	}
	for _, n := range ns {
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		for _, T := range []int{1, 2, 3} {
			seeds := []uint64{uint64(n + T)}
			if c.Thorough {
				seeds = []uint64{0, 1, 2}
			}
			for _, seed := range seeds {
				for _, W := range []int{1, 2, 5} {
					if W == 5 && T != 3 {
						continue
					}
					c.Tick()
					sp := spec(s, T, seed)
					sp.Multi, sp.W = W > 1, W
					c.Step(func() string { return fmt.Sprintf("[%v] n=%d", sp, n) })
					idx, m := lab.Built[TV, TIX](sp, items)
					c08chain(c, sp, idx, m, fmt.Sprintf("%d items", n), nq, nq)
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("sizes %v x trees 1,2,3 x workers 1,2,5", ns) })
}

func c08sched[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	K := kOf[TV, TIX](s)
	for _, n := range []int{1, K, K + 1, K + 3, 3*K + 2} {
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		try := func(T int, p interfaces.AnnoyIndexBuildPolicy, what string) {
			c.Tick()
			sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: T, Loader: "mmap"}
			c.Step(func() string { return fmt.Sprintf("n=%d T=%d %s", n, T, what) })
			idx := withPolicy[TV, TIX](sp, p)
			m := lab.Fill(idx, sp, items)
			idx.Build(T, 0)
			c08chain(c, sp, idx, m, fmt.Sprintf("%d items, %s", n, what), 2, 4)
			c.Note("schedules", 1)
		}
		for W := 2; W <= 4; W++ {
			permutations(W, func(o []int) {
				if W == 4 && o[0] != 3 && !c.Thorough {
					return
				}
				try(W, &ordered{o}, fmt.Sprintf("worker order %v", o))
				try(W+1, &ordered{o}, fmt.Sprintf("worker order %v", o))
			})
		}
		// interleavings: bit j of the mask decides whether step j switches
		for W := 2; W <= 3; W++ {
			for mask := 0; mask < 64; mask++ {
				if mask%4 != 1 && !c.Thorough && W == 3 {
					continue
				}
				cur := 0
				sch := func(step int, alive []int) int {
					if mask>>(step%6)&1 == 1 {
						cur++
					}
					return cur
				}
				try(W+1, &turns{w: W, schedule: sch}, fmt.Sprintf("%d workers, switch mask %b", W, mask))
			}
		}
	}
	c.Sample(func() string { return "all completion orders of 2..4 workers; all switch masks over 6 steps" })
}

func c08lat[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	l := s
	l.loader = "mmap"
	eachLattice(c, s, 3, func(items []lab.Item, pick []int) {
		c.Step(func() string { return fmt.Sprintf("lattice points %v", pick) })
		sp := spec(l, 1+len(items)%3, 0)
		idx, m := lab.Built[TV, TIX](sp, items)
		c08chain(c, sp, idx, m, fmt.Sprintf("lattice points %v", pick), 2, 6)
	})
}

// ---------------------------------------------------------------------------------------------

var c10 = &rt.Check{
	ID: "C10",
	Rule: "for each type, metric, vector length and loader: every kind of bad path (missing, missing directory, empty, directory, unreadable name, dangling link), every truncation length of a good file " +
		"and good file plus 1..nodeSize-1 bytes, file of another vector length; each before and after a good load and on a freshly filled index; then a good load; files of 2^8 to 2^34 bytes and a few whole nodes; " +
		"every system call of the load of a good file failing with each of 6 errnos, and all pairs of failing calls, in 6 prior states",
	Oracle: "error, no panic; no more files or mappings than before; the next load of a good file answers exactly; a load that returns no error in spite of a failing call answers exactly",
	Run: func(c *rt.Ctx) {
		each(c, grid(allTy, metrics, []int{1, 2, 3, 8}, []string{"gen"}, []string{"dense"}),
			[4]func(*rt.Ctx, scen){c10run[float32, uint32], c10run[float32, uint64], c10run[float64, uint32], c10run[float64, uint64]})
		c10faults(c)
		c10big(c)
	},
}

func c10run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	const n = 7
	ns := int(lab.Dist[TV, TIX](lab.Spec{Metric: s.metric, Dim: s.dim}).NodeSize())
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: "mmap", Via: "builder"}
	items := lab.Items("dense", lab.Data("gen", s.dim, n))
	good := file(c, "good.ann")
	idx, m := lab.Built[TV, TIX](sp, items)
	ref := observe(c, idx, m, sp.T, 3, 3)
	must(c, idx.Save(good), "save")
	idx.Close()
	whole, err := os.ReadFile(good)
	must(c, err, "read")

	type bad struct{ name, path string }
	var bads []bad
	mk := func(name string, b []byte) {
		p := file(c, "bad-"+name)
		must(c, os.WriteFile(p, b, 0o644), "write")
		bads = append(bads, bad{name, p})
	}
	bads = append(bads, bad{"missing", file(c, "nowhere.ann")}, bad{"missing directory", file(c, "no/where.ann")},
		bad{"no name", ""}, bad{"NUL name", "x\x00y"}, bad{"component is a file", good + "/x"}, bad{"directory", c.Dir})
	mk("empty", nil)
	os.Remove(file(c, "dangling"))
	must(c, os.Symlink(file(c, "nowhere2.ann"), file(c, "dangling")), "symlink")
	bads = append(bads, bad{"dangling link", file(c, "dangling")})
	for l := 1; l < len(whole); l++ {
		if l%ns != 0 && (l < 2*ns || l > len(whole)-2*ns || l%7 == 0 || c.Thorough) {
			mk(fmt.Sprintf("truncated to %d of %d bytes (node size %d)", l, len(whole), ns), whole[:l])
		}
	}
	for l := 1; l < ns; l++ {
		mk(fmt.Sprintf("%d extra bytes", l), append(append([]byte(nil), whole...), whole[:l]...))
	}
	for l := 1; l < 12; l++ { // smaller than a node, other contents
		if l < ns {
			mk(fmt.Sprintf("%d bytes of 0xff", l), bytes.Repeat([]byte{0xff}, l))
		}
	}
	for _, od := range []int{s.dim + 1, s.dim + 2, s.dim + 5} { // index of another shape
		osp := sp
		osp.Dim = od
		ox, _ := lab.Built[TV, TIX](osp, lab.Items("dense", lab.Data("gen", od, n)))
		p := file(c, fmt.Sprintf("other%d.ann", od))
		must(c, ox.Save(p), "save")
		ox.Close()
		if fi, _ := os.Stat(p); fi.Size()%int64(ns) != 0 {
			bads = append(bads, bad{fmt.Sprintf("index of vector length %d", od), p})
		}
	}
	for _, loader := range []string{"mmap", "gc"} {
		sp.Loader = loader
		for prior := 0; prior < 4; prior++ { // fresh, filled, built, loaded
			for bi, b := range bads {
				if bi > 30 && (bi+prior)%3 != 0 && !c.Thorough {
					continue
				}
				c.Tick()
				what := fmt.Sprintf("[%v] %s, prior state %d", sp, b.name, prior)
				c.Step(func() string { return what })
				before := resources(c, c.Dir)
				debug.SetGCPercent(-1) // a finalizer shall not hide a leak
				x := lab.Make[TV, TIX](sp)
				if prior == 1 || prior == 2 {
					lab.Fill(x, sp, items)
				}
				if prior == 2 {
					x.Build(2, 1)
				}
				if prior == 3 {
					must(c, x.Load(good), "good load before")
				}
				var err error
				if r := rt.Panics(func() { err = x.Load(b.path) }); r != nil {
					c.Fail("%s: load panics: %v", what, r)
				}
				if err == nil {
					c.Fail("%s: load returns no error", what)
				}
				if after := resources(c, c.Dir); after != before {
					c.Fail("%s: files and mappings before %q, after the failed load %q", what, before, after)
				}
				debug.SetGCPercent(400)
				if bi%2 == 0 { // once more
					if err = x.Load(b.path); err == nil {
						c.Fail("%s: second load returns no error", what)
					}
				}
				if err = x.Load(good); err != nil {
					c.Fail("%s: good file afterwards: %v", what, err)
				}
				if d := ref.diff(observe(c, x, m, 2, 3, 3)); d != "" {
					c.Fail("%s: good file afterwards: %s", what, d)
				}
				x.Close()
				if after := resources(c, c.Dir); after != before {
					c.Fail("%s: files and mappings before %q, after close %q", what, before, after)
				}
				c.State(1)
				c.Outcome(err, b.name)
				c.Trace(1)
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%d bad files, node size %d", len(bads), ns) })
}
