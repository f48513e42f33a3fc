package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---------------------------------------------------------------------------------------------
// C14: the lifecycle

const (
	opAdd0 = iota
	opAdd1
	opAdd3
	opOver0
	opBuild1
	opBuild2
	opSave
	opLoadGood
	opLoadOwn
	opLoadBad
	opClose
	opWrongLen
	opQueryWrong
	opSaveBad
	opSearch
	nOps
)

var opNames = [nOps]string{"add 0", "add 1", "add 3", "overwrite 0", "build 1 tree", "build 2 trees", "save", "load good", "load own", "load bad",
	"close", "add wrong length", "query wrong length", "save to bad path", "search"}

func opString(seq []int) string {
	var s []string
	for _, o := range seq {
		s = append(s, opNames[o])
	}
	return strings.Join(s, ", ")
}

// mstate is the model of the lifecycle.
type mstate struct {
	phase string // "fill", "built", "loaded"
	items string // id:vector pairs, canonical
	T     int
	file  string // contents of the own file: "" none, or items|T
}

func addTo(items string, id, vec int) string {
	m := map[int]int{}
	for _, p := range strings.Fields(items) {
		var a, b int
		fmt.Sscanf(p, "%d:%d", &a, &b)
		m[a] = b
	}
	m[id] = vec
	out := ""
	for i := 0; i < 10; i++ {
		if v, ok := m[i]; ok {
			out += fmt.Sprintf("%d:%d ", i, v)
		}
	}
	return out
}

// lifecycle executes sequences of operations for one configuration.
type lifecycle[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	c       *rt.Ctx
	sp      lab.Spec
	vecs    [][]TV
	good    string // good file
	bad     string
	own     string
	goodIts string
	cache   map[string][]byte
	models  map[string]*lab.Model[TV]
	ranks   map[string]*lab.Ranked[TV]
}

const goodItems = "0:4 1:5 2:0 3:1 5:2 6:3 "

func newLifecycle[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) *lifecycle[TV, TIX] {
	l := &lifecycle[TV, TIX]{c: c, cache: map[string][]byte{}, models: map[string]*lab.Model[TV]{}, ranks: map[string]*lab.Ranked[TV]{}}
	l.sp = lab.Spec{Metric: s.metric, Dim: s.dim, T: 1, W: 1, Loader: s.loader, Via: s.ids, Multi: s.data == "multi"}
	for _, v := range lab.Data("gen", s.dim, 6) {
		l.vecs = append(l.vecs, lab.Conv[TV](v))
	}
	l.good, l.bad, l.own = file(c, "good"), file(c, "bad"), file(c, "own")
	b := l.bytes(goodItems, 3)
	must(c, os.WriteFile(l.good, b, 0o644), "write")
	must(c, os.WriteFile(l.bad, b[:len(b)-3], 0o644), "write")
	l.goodIts = goodItems
	return l
}

func (l *lifecycle[TV, TIX]) model(items string) *lab.Model[TV] {
	if m, ok := l.models[items]; ok {
		return m
	}
	m := lab.NewModel[TV](l.sp.Metric, l.sp.Dim)
	for _, p := range strings.Fields(items) {
		var a, b int
		fmt.Sscanf(p, "%d:%d", &a, &b)
		m.Add(uint64(a), l.vecs[b])
	}
	l.models[items] = m
	return m
}

// bytes is what a fresh index with these items saves.
func (l *lifecycle[TV, TIX]) bytes(items string, T int) []byte {
	k := fmt.Sprint(items, "|", T)
	if b, ok := l.cache[k]; ok {
		return b
	}
	x := lab.Make[TV, TIX](l.sp)
	m := l.model(items)
	for _, id := range m.IDs {
		x.AddItem(TIX(id), m.Vec[id])
	}
	x.Build(T, 1)
	fn := file(l.c, "fresh")
	must(l.c, x.Save(fn), "save of a fresh index")
	b, err := os.ReadFile(fn)
	must(l.c, err, "read")
	x.Close()
	l.cache[k] = b
	return b
}

func (l *lifecycle[TV, TIX]) fail(seq []int, format string, a ...any) {
	l.c.Fail("[%v] %s: %s", l.sp, opString(seq), fmt.Sprintf(format, a...))
}

// do executes one operation on the index and on the model.
func (l *lifecycle[TV, TIX]) do(x interfaces.AnnoyIndex[TV, TIX], st *mstate, op int, seq []int) {
	add := func(id, vec int) {
		v := append([]TV(nil), l.vecs[vec]...)
		r := rt.Panics(func() { x.AddItem(TIX(id), v) })
		if st.phase == "fill" {
			if r != nil {
				l.fail(seq, "add panics: %v", r)
			}
			st.items = addTo(st.items, id, vec)
		} else if r == nil {
			l.fail(seq, "add to a %s index is accepted", st.phase)
		}
	}
	switch op {
	case opAdd0:
		add(0, 0)
	case opAdd1:
		add(1, 1)
	case opAdd3:
		add(3, 2)
	case opOver0:
		add(0, 3)
	case opBuild1, opBuild2:
		T := op - opBuild1 + 1
		r := rt.Panics(func() { x.Build(T, 1) })
		if st.phase == "fill" {
			if r != nil {
				l.fail(seq, "build panics: %v", r)
			}
			st.phase, st.T = "built", T
		} else if r == nil {
			l.fail(seq, "build of a %s index is accepted", st.phase)
		}
	case opSave:
		var err error
		if r := rt.Panics(func() { err = x.Save(l.own) }); r != nil {
			if st.phase != "fill" {
				l.fail(seq, "save panics: %v", r)
			}
			return
		}
		if st.phase == "fill" {
			if err == nil {
				l.fail(seq, "save of an index that is not built is accepted")
			}
			return
		}
		if err != nil {
			l.fail(seq, "save: %v", err)
		}
		st.file = fmt.Sprint(st.items, "|", st.T)
		st.phase = "loaded"
	case opSaveBad:
		var err error
		if r := rt.Panics(func() { err = x.Save(l.good + "/no/such") }); r == nil && err == nil {
			l.fail(seq, "save to a bad path is accepted")
		} else if r != nil && st.phase != "fill" {
			l.fail(seq, "save to a bad path panics: %v", r)
		}
	case opLoadGood:
		if err := x.Load(l.good); err != nil {
			l.fail(seq, "load: %v", err)
		}
		st.phase, st.items, st.T = "loaded", l.goodIts, 3
	case opLoadOwn:
		err := x.Load(l.own)
		if st.file == "" {
			if err == nil {
				l.fail(seq, "load of a missing file is accepted")
			}
			st.phase, st.items, st.T = "fill", "", 0
			return
		}
		if err != nil {
			l.fail(seq, "load of the own file: %v", err)
		}
		p := strings.Split(st.file, "|")
		st.phase, st.items = "loaded", p[0]
		fmt.Sscan(p[1], &st.T)
	case opLoadBad:
		if err := x.Load(l.bad); err == nil {
			l.fail(seq, "load of a truncated file is accepted")
		}
		st.phase, st.items, st.T = "fill", "", 0
	case opClose:
		if err := x.Close(); err != nil {
			l.fail(seq, "close: %v", err)
		}
		st.phase, st.items, st.T = "fill", "", 0
	case opWrongLen:
		for _, n := range []int{0, l.sp.Dim - 1, l.sp.Dim + 1} {
			if n >= 0 && rt.Panics(func() { x.AddItem(0, make([]TV, n)) }) == nil {
				l.fail(seq, "add of a vector of length %d is accepted", n)
			}
		}
	case opQueryWrong:
		ctx := x.CreateContext()
		for _, n := range []int{0, l.sp.Dim - 1, l.sp.Dim + 1} {
			if n >= 0 && rt.Panics(func() { x.GetNnsByVector(make([]TV, n), 2, 5, ctx) }) == nil {
				l.fail(seq, "query of length %d is accepted", n)
			}
		}
	case opSearch:
		l.search(x, st, seq)
	}
}

func (l *lifecycle[TV, TIX]) search(x interfaces.AnnoyIndex[TV, TIX], st *mstate, seq []int) {
	ctx := x.CreateContext()
	if st.phase == "fill" {
		a := ask(x, l.vecs[0], 4, 100, ctx)
		if len(a.ids) != 0 {
			l.fail(seq, "search of an index that is neither built nor loaded finds %v", a.ids)
		}
		return
	}
	m := l.model(st.items)
	for qi := 0; qi < 2; qi++ {
		q := l.vecs[qi*2]
		rk := fmt.Sprint(st.items, qi)
		r, ok := l.ranks[rk]
		if !ok {
			r = lab.Rank(m, q)
			l.ranks[rk] = r
		}
		a := ask(x, q, 4, 100, ctx)
		msg := lab.CheckAnswer(m, q, 4, a.ids, a.ds)
		if msg == "" {
			msg = lab.Exact(r, 4, a.ids)
		}
		if msg != "" {
			l.fail(seq, "query %v: %s", q, msg)
		}
	}
}

// verify observes the final state completely; the index is used up.
func (l *lifecycle[TV, TIX]) verify(x interfaces.AnnoyIndex[TV, TIX], st *mstate, seq []int) {
	m := l.model(st.items)
	if int(x.VectorLength()) != l.sp.Dim {
		l.fail(seq, "vector length reads %d", x.VectorLength())
	}
	for _, id := range m.IDs {
		if !bits(x.GetItem(TIX(id)), m.Vec[id]) {
			l.fail(seq, "item %d reads %v, expected %v", id, x.GetItem(TIX(id)), m.Vec[id])
		}
	}
	l.search(x, st, seq)
	T := st.T
	if st.phase == "fill" { // must behave as a fresh index with these items
		T = 2
		if r := rt.Panics(func() { x.Build(2, 1) }); r != nil {
			l.fail(seq, "build afterwards panics: %v", r)
		}
	}
	fin := file(l.c, "fin")
	if err := x.Save(fin); err != nil {
		l.fail(seq, "save afterwards: %v", err)
	}
	b, err := os.ReadFile(fin)
	must(l.c, err, "read")
	if w := l.bytes(st.items, T); !bytes.Equal(b, w) {
		l.fail(seq, "the saved index differs from that of a fresh index with the same items (%s; %d bytes, %d expected)", st.items, len(b), len(w))
	}
	if own, err := os.ReadFile(l.own); (err == nil) != (st.file != "") {
		l.fail(seq, "own file exists: %v, expected %v", err == nil, st.file != "")
	} else if st.file != "" && !bytes.Equal(own, l.fileBytes(st.file)) {
		l.fail(seq, "the own file's contents changed")
	}
	if err := x.Close(); err != nil {
		l.fail(seq, "close afterwards: %v", err)
	}
	if err := x.Close(); err != nil {
		l.fail(seq, "second close: %v", err)
	}
}

func (l *lifecycle[TV, TIX]) fileBytes(f string) []byte {
	p := strings.Split(f, "|")
	var T int
	fmt.Sscan(p[1], &T)
	return l.bytes(p[0], T)
}

var c14 = &rt.Check{
	ID: "C14",
	Rule: fmt.Sprintf("all sequences of up to 4 (per type, metric, loader, policy) and 5 (two configurations per type; thorough: all) of %d operations: %s; "+
		"full observation at the end of each sequence, all prefixes being sequences themselves", nOps, strings.Join(opNames[:], ", ")),
	Oracle: "lifecycle state machine: rejections and acceptances, items, exact answers, own file; finally the saved bytes equal those of a fresh index with the same items",
	Run: func(c *rt.Ctx) {
		f := [4]func(*rt.Ctx, scen){c14run[float32, uint32], c14run[float32, uint64], c14run[float64, uint32], c14run[float64, uint64]}
		var l []scen
		for _, ty := range allTy {
			for mi, m := range metrics {
				for li, ld := range []string{"mmap", "gc"} {
					for pi, pol := range []string{"single", "multi"} {
						depth := 4
						if (mi == 0 && li == 0 && pi == 0) || c.Thorough {
							depth = 5
						}
						for first := 0; first < nOps; first++ {
							l = append(l, scen{ty: ty, metric: m, dim: 1 + (ty+mi+li)%3, loader: ld, data: pol,
								ids: []string{"builder", "new"}[(li+pi)%2], note: fmt.Sprintf(" loader=%s depth=%d first=%d", ld, depth, first)})
						}
					}
				}
			}
		}
		each(c, l, f)
		l = nil
		for _, ty := range allTy {
			for _, m := range metrics {
				for _, ld := range []string{"mmap", "gc"} {
					l = append(l, scen{ty: ty, metric: m, dim: 2, data: "gen", ids: "dense", loader: ld, note: " close reports an error"},
						scen{ty: ty, metric: m, dim: 2, data: "gen", ids: "dense", loader: ld, note: " no trees"})
				}
			}
		}
		for i := range l {
			l[i].note = " loader=" + l[i].loader + l[i].note
		}
		each(c, l, fns{c14edge[float32, uint32], c14edge[float32, uint64], c14edge[float64, uint32], c14edge[float64, uint64]})
	},
}

func c14run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	var ld string
	var depth, first int
	fmt.Sscanf(s.note, " loader=%s depth=%d first=%d", &ld, &depth, &first)
	l := newLifecycle[TV, TIX](c, s)
	states := map[mstate]bool{}
	for n := 0; n < depth; n++ {
		lab.Sequences(nOps, n, func(rest []int) {
			seq := append([]int{first}, rest...)
			c.Tick()
			c.Step(func() string { return opString(seq) })
			os.Remove(l.own)
			x := lab.Make[TV, TIX](l.sp)
			st := mstate{phase: "fill"}
			for i, op := range seq {
				l.do(x, &st, op, seq[:i+1])
				c.Transition(1)
			}
			if !states[st] {
				states[st] = true
				c.State(1)
			}
			c.Outcome(st)
			l.verify(x, &st, seq)
			c.Trace(1)
		})
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d model states from sequences starting with %s", len(states), opNames[first])
	})
}

// ---------------------------------------------------------------------------------------------
// C15: resources

var c15 = &rt.Check{
	ID: "C15",
	Rule: "all sequences of up to 5 (thorough 6) of the operations: load of two files, of a missing, a truncated and an empty file, save to a file, to a bad path, refill and build, close, double close; " +
		"both loaders, all types; every system call, and all pairs of them, of a close, load or save failed; garbage collection off so that no finalizer hides a leak",
	Oracle: "after every operation: at most one open file and one mapping, only of the loaded file; nothing after close; the allocator lists exactly the loaded file",
	Run: func(c *rt.Ctx) {
		var l []scen
		for _, ty := range allTy {
			for _, ld := range []string{"mmap", "gc"} {
				for first := 0; first < 9; first++ {
					l = append(l, scen{ty: ty, metric: metrics[ty%2], dim: 2, data: "gen", ids: "dense", loader: ld, note: fmt.Sprintf(" loader=%s first=%d", ld, first)})
				}
			}
		}
		each(c, l, [4]func(*rt.Ctx, scen){c15run[float32, uint32], c15run[float32, uint64], c15run[float64, uint32], c15run[float64, uint64]})
		c15faults(c)
	},
}

func c15run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	names := []string{"load A", "load B", "load missing", "load truncated", "load empty", "save", "save to bad path", "refill and build", "close"}
	var ld string
	var first int
	fmt.Sscanf(s.note, " loader=%s first=%d", &ld, &first)
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: ld}
	items := lab.Items("dense", lab.Data("gen", s.dim, 6))
	fa, fb, ft, fe, fs := file(c, "A.ann"), file(c, "B.ann"), file(c, "T.ann"), file(c, "E.ann"), file(c, "S.ann")
	x, _ := lab.Built[TV, TIX](sp, items)
	must(c, x.Save(fa), "save")
	x.Close()
	x, _ = lab.Built[TV, TIX](sp, items[:3])
	must(c, x.Save(fb), "save")
	x.Close()
	b, _ := os.ReadFile(fa)
	must(c, os.WriteFile(ft, b[:len(b)-1], 0o644), "write")
	must(c, os.WriteFile(fe, nil, 0o644), "write")
	debug.SetGCPercent(-1)
	defer debug.SetGCPercent(400)
	depth := 5
	if c.Thorough {
		depth = 6
	}
	baseline := resources(c, c.Dir)
	runs := 0
	for n := 0; n < depth; n++ {
		if n == 4 && s.ty%3 != 0 && !c.Thorough {
			continue
		}
		lab.Sequences(len(names), n, func(rest []int) {
			seq := append([]int{first}, rest...)
			c.Tick()
			what := func() string {
				o := ""
				for _, x := range seq {
					o += names[x] + ", "
				}
				return o
			}
			c.Step(what)
			if runs++; runs%200 == 0 {
				runtime.GC()
			}
			alloc := lab.Loader(ld)
			x := index.New[TV, TIX](lab.Rnd[TIX](0), lab.Dist[TV, TIX](sp), lab.Policy(false), memory.GoGCIndexAllocator(), alloc, nil, false, 0)
			open := ""      // file that is loaded
			phase := "fill" // fill, built, loaded
			for i, op := range seq {
				var err error
				wantErr := false
				switch op {
				case 0:
					err, open, phase = x.Load(fa), fa, "loaded"
				case 1:
					err, open, phase = x.Load(fb), fb, "loaded"
				case 2:
					err, open, phase, wantErr = x.Load(file(c, "missing")), "", "fill", true
				case 3:
					err, open, phase, wantErr = x.Load(ft), "", "fill", true
				case 4:
					err, open, phase, wantErr = x.Load(fe), "", "fill", true
				case 5:
					if phase == "fill" {
						err, wantErr = x.Save(fs), true
					} else {
						err, open, phase = x.Save(fs), fs, "loaded"
					}
				case 6:
					err, wantErr = x.Save(file(c, "no/such/dir")), true
				case 7:
					if phase != "fill" {
						x.Close()
					}
					lab.Fill(x, sp, items)
					x.Build(2, 1)
					open, phase = "", "built"
				case 8:
					err, open, phase = x.Close(), "", "fill"
					if i%2 == 0 {
						err = x.Close()
					}
				}
				if (err != nil) != wantErr {
					c.Fail("[%v] %sstep %d (%s): error %v", sp, what(), i, names[op], err)
				}
				c.Transition(1)
				got := resources(c, c.Dir)
				bad := got != baseline
				if open != "" && ld == "mmap" {
					nf, nm := 0, 0
					bad = false
					for _, r := range strings.Split(got, "; ") {
						switch {
						case r == "fd "+open:
							nf++
						case r == "map "+open:
							nm++
						case r != "" && !strings.Contains(baseline, r):
							bad = true
						}
					}
					bad = bad || nf > 1 || nm != 1
				}
				if bad {
					c.Fail("[%v] %safter step %d (%s) with %q loaded: %s", sp, what(), i, names[op], open, got)
				}
				for _, f := range []string{fa, fb, ft, fe, fs} {
					if _, ok := alloc.Get(f); ok != (f == open) {
						c.Fail("[%v] %safter step %d (%s) with %q loaded: allocator lists %q: %v", sp, what(), i, names[op], open, f, ok)
					}
				}
				c.Outcome(open, phase, op)
			}
			c.State(1)
			c.Trace(1)
			if err := x.Close(); err != nil {
				c.Fail("[%v] %sclose: %v", sp, what(), err)
			}
			if got := resources(c, c.Dir); got != baseline {
				c.Fail("[%v] %safter the final close: %s", sp, what(), got)
			}
		})
	}
	c.Sample(func() string { return fmt.Sprintf("sequences up to %d operations of %v", depth, names) })
}

// ---------------------------------------------------------------------------------------------
// C16: purity and reuse

var c16 = &rt.Check{
	ID: "C16",
	Rule: "configurations x item sets; on each, all sequences of up to 3 (thorough 4) of 16 searches (by vector and by item, k 0, 1, n, n+5 and large, budgets 0, 1, -1, T*n) on one context, " +
		"plus long sequences cycling through all of them; one slice for all queries or a new one each; contexts from before a save, and from before the index was closed and filled anew; results are scribbled over by the caller; queries that are very large, very small or not numbers",
	Oracle: "each answer equals the one of a fresh context; query vectors, earlier answers, items and the saved bytes unchanged",
	Run: func(c *rt.Ctx) {
		l := rotated(metrics, []int{1, 2, 3, 8}, []string{"gen", "pairs", "grid", "mixz", "same"}, []string{"dense", "gap"})
		if c.Thorough {
			l = grid(allTy, metrics, []int{1, 2, 3, 8, 40}, allData, []string{"dense", "gap"})
		}
		each(c, l, [4]func(*rt.Ctx, scen){c16run[float32, uint32], c16run[float32, uint64], c16run[float64, uint32], c16run[float64, uint64]})
		eachLarge(c, fns{c16large[float32, uint32], c16large[float32, uint64], c16large[float64, uint32], c16large[float64, uint64]})
	},
}

func c16run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	K := kOf[TV, TIX](s)
	for _, n := range []int{2, K + 1, 3*K + 2, 40, 120} {
		for _, T := range []int{1, 3} {
			if n == 120 && T == 1 {
				continue
			}
			sp := spec(s, T, uint64(n))
			items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
			idx, m := lab.Built[TV, TIX](sp, items)
			if n%2 == 0 {
				must(c, idx.Save(file(c, "p0")), "save")
			}
			type search struct {
				item bool
				id   uint64
				q    []TV
				k, b int
			}
			qs := queries(m, 3)
			last := m.IDs[len(m.IDs)-1]
			alpha := []search{
				{q: qs[0], k: n, b: T * n}, {q: qs[1], k: 1, b: 1}, {item: true, id: m.IDs[0], k: n + 5, b: -1},
				{q: qs[len(qs)-1], k: 0, b: -1}, {q: qs[len(qs)-2], k: n, b: 0}, {item: true, id: last, k: 2, b: T * n},
				{q: qs[len(qs)-3], k: 3, b: -1}, {q: qs[0], k: n / 2, b: n}, {item: true, id: last, k: 1, b: -1},
				{q: qs[1], k: 10 * n, b: 100 * T * n}, {q: qs[len(qs)-4], k: 1000, b: -1}, {q: qs[2%len(qs)], k: 22, b: 30},
				{q: qs[len(qs)-1], k: n, b: T * n}, {q: qs[len(qs)-2], k: 3, b: -1},
				{q: qs[0], k: n / 2, b: 1}, {q: qs[0], k: 1, b: n}, // the same query
			}
			// the caller may use one slice for all queries
			var shared []TV
			run := func(a search, ctx interfaces.AnnoyIndexContext[TV, TIX]) answer[TV, TIX] {
				if a.item {
					var r answer[TV, TIX]
					r.ids, r.ds = idx.GetNnsByItem(TIX(a.id), a.k, a.b, ctx)
					return r
				}
				q := shared
				if q == nil {
					q = make([]TV, len(a.q))
				}
				copy(q, a.q)
				r := ask(idx, q, a.k, a.b, ctx)
				if !bits(q, a.q) {
					c.Fail("[%v] n=%d: query vector %v becomes %v", sp, n, a.q, q)
				}
				return r
			}
			clone := func(a answer[TV, TIX]) answer[TV, TIX] {
				return answer[TV, TIX]{append([]TIX(nil), a.ids...), append([]TV(nil), a.ds...)}
			}
			ref := make([]answer[TV, TIX], len(alpha))
			for i, a := range alpha {
				ref[i] = clone(run(a, idx.CreateContext()))
			}
			play := func(seq []int) {
				c.Tick()
				c.Step(func() string { return fmt.Sprintf("[%v] n=%d searches %v of %+v", sp, n, seq, alpha) })
				ctx := idx.CreateContext()
				var got []answer[TV, TIX]
				if shared = nil; seq[0]%2 == 1 {
					shared = make([]TV, s.dim)
				}
				for i, x := range seq {
					a := run(alpha[x], ctx)
					c.Transition(1)
					if !a.eq(ref[x]) {
						c.Fail("[%v] n=%d: search %+v as number %d of %v on one context gives %v %v, on a fresh one %v %v",
							sp, n, alpha[x], i, seq, a.ids, a.ds, ref[x].ids, ref[x].ds)
					}
					got = append(got, a)
				}
				for i, a := range got {
					if !a.eq(ref[seq[i]]) {
						c.Fail("[%v] n=%d: the answer of search %d of %v was overwritten by later searches: %v", sp, n, i, seq, a.ids)
					}
				}
				// scribbling over the answers must not matter to anyone
				for _, a := range got {
					for i := range a.ids {
						a.ids[i], a.ds[i] = ^TIX(0), TV(math.NaN())
					}
				}
				x := seq[0]
				if a := run(alpha[x], ctx); !a.eq(ref[x]) {
					c.Fail("[%v] n=%d: search %+v after the caller changed his answers gives %v %v, before %v %v", sp, n, alpha[x], a.ids, a.ds, ref[x].ids, ref[x].ds)
				}
				c.State(1)
				c.Trace(1)
				outcome(c, seq[0], ref[x].ids)
			}
			depth := 3
			if n > 30 {
				depth = 2
			}
			if c.Thorough {
				depth++
			}
			for d := 1; d <= depth; d++ {
				lab.Sequences(len(alpha), d, play)
			}
			var long []int
			for i := 0; i < 60; i++ {
				long = append(long, (i*i+i/12)%len(alpha))
			}
			play(long)
			// unusual queries, in the middle of a larger slice
			octx := idx.CreateContext()
			for qi, q := range [][]TV{qs[0], qs[1]} {
				for _, f := range []float64{1e3, 1e6, 1e18, 1e38, -1e9, 1e-3, 1e-6, 1e-18, 1e-38, 0, -1, math.Copysign(0, -1), math.NaN(), math.Inf(1)} {
					wide := make([]TV, s.dim+6)
					for i := range wide {
						wide[i] = TV(i) + 0.5
					}
					v := wide[3 : 3+s.dim]
					for i := range v {
						if i == 0 || qi == 0 { // all, or just the first
							v[i] = q[i] * TV(f)
						} else {
							v[i] = q[i]
						}
					}
					before := append([]TV(nil), wide...)
					for _, k := range []int{1, n} {
						a, b := ask(idx, v, k, -1, octx), ask(idx, v, k, -1, idx.CreateContext())
						c.Transition(2)
						if !bits(wide, before) {
							c.Fail("[%v] n=%d: query vector %v (with its surroundings) becomes %v", sp, n, before, wide)
						}
						if !lab.Eq[TV](a.ids, nil, b.ids, nil) || !bits(a.ds, b.ds) {
							c.Fail("[%v] n=%d: query %v k=%d gives %v %v, with a fresh context %v %v", sp, n, v, k, a.ids, a.ds, b.ids, b.ds)
						}
					}
				}
			}
			checkItems(c, idx, m, "after unusual queries")
			play(long)
			// contexts which have been created and used before the index is saved (and loaded again)
			old := idx.CreateContext()
			for i, a := range alpha {
				if r := run(a, old); !r.eq(ref[i]) {
					c.Fail("[%v] n=%d: search %+v gives %v %v, before %v %v", sp, n, a, r.ids, r.ds, ref[i].ids, ref[i].ds)
				}
			}
			must(c, idx.Save(file(c, "p3")), "save")
			for i, a := range alpha {
				if r := run(a, old); !r.eq(ref[i]) {
					c.Fail("[%v] n=%d: search %+v with a context from before the save gives %v %v, before %v %v", sp, n, a, r.ids, r.ds, ref[i].ids, ref[i].ds)
				}
			}
			checkItems(c, idx, m, "after the searches")
			// the index itself: same bytes as one that was never searched
			must(c, idx.Save(file(c, "p1")), "save")
			o, _ := lab.Built[TV, TIX](sp, items)
			must(c, o.Save(file(c, "p2")), "save")
			b1, _ := os.ReadFile(file(c, "p1"))
			b2, _ := os.ReadFile(file(c, "p2"))
			if !bytes.Equal(b1, b2) {
				c.Fail("[%v] n=%d: searches changed the index", sp, n)
			}
			o.Close()
			// and from before the index is closed and filled with other items
			idx.Close()
			half := append([]lab.Item(nil), items...)
			for i := range half {
				half[i].Vec = items[len(items)-1-i].Vec
			}
			half = half[:min(len(half), 1+len(half)*(n%3)/2)]
			lab.Fill(idx, sp, half)
			idx.Build(T, 1)
			for i, a := range alpha {
				if a.item {
					continue
				}
				if r, w := run(a, old), run(a, idx.CreateContext()); !r.eq(w) {
					c.Fail("[%v] n=%d: after closing and filling anew, search %d %+v with a context from before gives %v %v, with a new one %v %v", sp, n, i, a, r.ids, r.ds, w.ids, w.ds)
				}
			}
			for _, x := range half {
				a := search{item: true, id: x.ID, k: 3, b: -1}
				if r, w := run(a, old), run(a, idx.CreateContext()); !r.eq(w) {
					c.Fail("[%v] n=%d: after closing and filling anew, search %+v with a context from before gives %v %v, with a new one %v %v", sp, n, a, r.ids, r.ds, w.ids, w.ds)
				}
			}
			idx.Close()
		}
	}
	c.Sample(func() string { return "all sequences of 16 searches" })
}

// ---------------------------------------------------------------------------------------------
// C17: independence

var c17 = &rt.Check{
	ID: "C17",
	Rule: "all interleavings of the operation sequences of two indexes (add items, build, save, load, search, refill after close: 6 operations each, 924 interleavings) x {same builder, two builders, " +
		"shared loader} x {same file, own files} x loaders x policies x types; of three indexes in steps of two operations (1680); " +
		"and of two or three indexes of 0.1 to 5 MB in steps of two operations",
	Oracle: "each observation equals the one of the same operations on an index of its own (the file shared by name holds what was last saved to it)",
	Run: func(c *rt.Ctx) {
		var l []scen
		for _, ty := range allTy {
			for _, share := range []string{"builder", "loader", "none"} {
				for _, fl := range []string{"same", "own"} {
					for _, ld := range []string{"mmap", "gc"} {
						for _, pol := range []string{"single", "multi"} {
							for _, m := range metrics {
								if share == "builder" && m == "dot" {
									continue // the builder makes angular indexes only
								}
								note := fmt.Sprintf(" share=%s file=%s loader=%s policy=%s", share, fl, ld, pol)
								l = append(l, scen{ty: ty, metric: m, dim: 1 + ty%3, data: "gen", ids: "dense", loader: ld, note: note})
								if (len(l)+ty)%3 == 0 || c.Thorough {
									l = append(l, scen{ty: ty, metric: m, dim: 1 + ty%3, data: "gen", ids: "dense", loader: ld, note: note + " three"})
								}
								if fl == "own" && pol == "single" {
									l = append(l, scen{ty: ty, metric: m, dim: []int{4, 120, 9, 300}[(ty+len(share))%4], data: "gen", ids: "gap", loader: ld, note: note + " large"})
								}
							}
						}
					}
				}
			}
		}
		each(c, l, [4]func(*rt.Ctx, scen){c17run[float32, uint32], c17run[float32, uint64], c17run[float64, uint32], c17run[float64, uint64]})
	},
}

func c17run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	var share, fl, ld, pol string
	fmt.Sscanf(s.note, " share=%s file=%s loader=%s policy=%s", &share, &fl, &ld, &pol)
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: ld, Multi: pol == "multi"}
	h := s.ty + len(share) + len(fl) + len(pol) + 2*len(ld)
	sp.Hint, sp.Seed = []int{0, 5000, 3}[h%3], []uint64{0, 7}[h/3%2]
	three, big := strings.HasSuffix(s.note, " three"), strings.HasSuffix(s.note, " large")
	N := 2
	if three {
		N = 3
	}
	items := [][]lab.Item{
		lab.Items("dense", lab.Data("gen", s.dim, 9)),
		lab.Items("gap", lab.Data("circle", s.dim, 6)),
		lab.Items("rev", lab.Data("pairs", s.dim, 12)),
	}
	if big {
		items[0] = lab.Items("gap", lab.Data("gen", s.dim, 3000))
		items[1] = lab.Items("gap", lab.Data("fine", s.dim, 2500))
	}
	items = items[:N]
	files := []string{file(c, "x.ann"), file(c, "y.ann"), file(c, "z.ann")}
	if fl == "same" {
		files[1], files[2] = files[0], files[0]
	}
	var models []*lab.Model[TV]
	for i := range items {
		m := lab.NewModel[TV](s.metric, s.dim)
		for _, it := range items[i] {
			m.Add(it.ID, lab.Conv[TV](it.Vec))
		}
		models = append(models, m)
	}
	look := func(x interfaces.AnnoyIndex[TV, TIX], m *lab.Model[TV]) []answer[TV, TIX] {
		var out []answer[TV, TIX]
		ctx := x.CreateContext()
		for i, id := range m.IDs {
			if i < 3 {
				out = append(out, ask(x, m.Vec[id], 4, 2+i, ctx))
			}
		}
		return append(out, ask(x, m.Vec[m.IDs[0]], len(m.IDs), 1000, ctx))
	}
	// reference observations of each index alone
	var ref [][]answer[TV, TIX]
	for i := range items {
		x, m := lab.Built[TV, TIX](sp, items[i])
		ref = append(ref, look(x, m))
		x.Close()
	}
	mk := func() []interfaces.AnnoyIndex[TV, TIX] {
		out := make([]interfaces.AnnoyIndex[TV, TIX], N)
		switch share {
		case "builder":
			b := lab.Builder[TV, TIX](sp)
			for i := range out {
				out[i] = b.Build()
			}
		case "loader":
			a := lab.Loader(ld)
			r := lab.Rnd[TIX](sp.Seed)
			p := lab.Policy(sp.Multi)
			d := lab.Dist[TV, TIX](sp)
			for i := range out {
				out[i] = index.New[TV, TIX](r, d, p, memory.GoGCIndexAllocator(), a, nil, false, TIX(sp.Hint))
			}
		default:
			for i := range out {
				out[i] = lab.Make[TV, TIX](sp)
			}
		}
		return out
	}
	opn := []string{"add all", "build", "save", "load", "search", "close and refill"}
	run := func(order []int) {
		x := mk()
		for _, f := range files {
			os.Remove(f)
		}
		inFile := map[string]int{} // which index's data a file holds
		holds := []int{0, 1, 2}    // which data an index holds
		var pos [3]int
		c.Tick()
		trace := func() string {
			t := ""
			var p [3]int
			for _, i := range order {
				t += fmt.Sprintf("%d:%s, ", i, opn[p[i]])
				p[i]++
			}
			return t
		}
		c.Step(trace)
		for b, i := range order {
			op := pos[i]
			pos[i]++
			idx := x[i]
			m := models[holds[i]]
			c.Transition(1)
			switch op {
			case 0:
				for _, it := range items[i] {
					idx.AddItem(TIX(it.ID), lab.Conv[TV](it.Vec))
				}
			case 1:
				idx.Build(2, 1)
			case 2:
				if err := idx.Save(files[i]); err != nil {
					c.Fail("[%v]%s %s: save: %v", sp, s.note, trace(), err)
				}
				inFile[files[i]] = i
			case 3:
				if err := idx.Load(files[i]); err != nil {
					c.Fail("[%v]%s %s: load: %v", sp, s.note, trace(), err)
				}
				holds[i] = inFile[files[i]]
				m = models[holds[i]]
			case 5:
				if err := idx.Close(); err != nil {
					c.Fail("[%v]%s %s: close: %v", sp, s.note, trace(), err)
				}
				for _, it := range items[i] {
					idx.AddItem(TIX(it.ID), lab.Conv[TV](it.Vec))
				}
				idx.Build(2, 1)
				holds[i] = i
				m = models[i]
			}
			for k, id := range m.IDs {
				if big && k%50 != 0 {
					continue
				}
				if !bits(idx.GetItem(TIX(id)), m.Vec[id]) {
					c.Fail("[%v]%s %s: after step %d index %d item %d reads %v, expected %v", sp, s.note, trace(), b, i, id, idx.GetItem(TIX(id)), m.Vec[id])
				}
			}
			for j := range x { // all indexes, whoever moved
				if pos[j] < 2 {
					continue
				}
				if b < len(order)-1 && (j == i && op != 4) {
					continue // own observations at the search operation and at the end
				}
				got := look(x[j], models[holds[j]])
				for k := range got {
					if !got[k].eq(ref[holds[j]][k]) {
						c.Fail("[%v]%s %s: after step %d index %d answers %v %v, alone %v %v", sp, s.note, trace(), b, j,
							got[k].ids, got[k].ds, ref[holds[j]][k].ids, ref[holds[j]][k].ds)
					}
				}
			}
		}
		c.State(1)
		c.Trace(1)
		c.Outcome(order)
		for _, y := range x {
			y.Close()
		}
	}
	step, total := 1, 0
	if three || big {
		step = 2 // two operations at a time
	}
	lab.Merges(N, len(opn)/step, func(o []int) {
		var order []int
		for _, i := range o {
			for k := 0; k < step; k++ {
				order = append(order, i)
			}
		}
		total++
		run(order)
	})
	c.Sample(func() string { return fmt.Sprintf("%d interleavings of %v on %d indexes", total, opn, N) })
}
