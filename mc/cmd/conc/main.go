// Command conc explores the schedules of parallel builds and of concurrent searches on the real code,
// compiled with the race detector and with package sync and go statements replaced (cmd/instrument).
package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
	"verif/mc/vsync"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "C12child" {
		fmt.Println(c12sums(os.Args[2]))
		return
	}
	rt.Main(c11, c12, c13)
}

var tyNames = []string{"f32/u32", "f32/u64", "f64/u32", "f64/u64"}

// races is the number of conflicts the race detector has reported so far.
func races() int { return runtime.RaceErrors() }

// raceReport is the (shortened) last report of the detector on standard error.
func raceReport() string {
	p, err := os.Readlink("/proc/self/fd/2")
	if err != nil {
		return ""
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "race") || strings.Contains(l, "RACE") || strings.Contains(l, " by ") || strings.Contains(l, "goannoy") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// explore runs body under all schedules; after is called after each execution.
func explore(c *rt.Ctx, bound int, what string, body func(), after func()) vsync.Stats {
	return exploreFirst(c, bound, 1<<62, what, body, after)
}

// exploreFirst ends after the first limit schedules (in depth-first order).
func exploreFirst(c *rt.Ctx, bound, limit int, what string, body func(), after func()) vsync.Stats {
	start := races()
	cut, left := false, limit
	st := vsync.Explore(bound, body, func(r vsync.Result) bool {
		c.Trace(1)
		c.Transition(r.Steps)
		c.State(r.Depth + 1)
		c.Tick()
		sched := func() string { return strings.Join(vsync.Trace(), " ") }
		c.Step(func() string { return what + ": schedule " + sched() })
		switch {
		case r.Deadlock != "":
			c.Fail("%s: deadlock:%s schedule %s", what, r.Deadlock, sched())
		case r.Livelock:
			c.Fail("%s: no end after %d steps, schedule %s", what, r.Steps, sched())
		case r.Panic != nil:
			c.Fail("%s: panic: %v, schedule %s", what, r.Panic, sched())
		case races() != start:
			c.Fail("%s: memory is accessed in conflict without synchronisation, schedule %s\n%s", what, sched(), raceReport())
		}
		after()
		left--
		if left == 0 || c.Cut() {
			cut = true
			return false
		}
		return true
	})
	c.Note("schedules", int64(st.Executions))
	c.Note("schedules_equivalent_to_others", int64(st.Redundant))
	c.NoteMax("decisions_in_a_schedule", int64(st.MaxDepth))
	c.NoteMax("threads", int64(st.Threads))
	c.NoteMax("natively_blocked_threads", int64(st.External))
	if !st.Complete && !cut {
		c.Note("explorations_too_deep", 1)
	}
	return st
}

type bscen struct {
	ty         int
	metric     string
	dim        int
	data, ids  string
	n, T, W    int
	seed       uint64
	hint       int
	bound      int
	first      int // only the first schedules
	note       string
	verbose    bool
	rebuild    bool
	rebuildTwo bool
}

func (s bscen) key() string {
	b := fmt.Sprint(s.bound)
	if s.bound < 0 {
		b = "all"
	}
	return fmt.Sprintf("%s %s dim=%d data=%s ids=%s items=%d trees=%d workers=%d seed=%d hint=%d preemptions=%s%s",
		tyNames[s.ty], s.metric, s.dim, s.data, s.ids, s.n, s.T, s.W, s.seed, s.hint, b, s.note)
}

func (s bscen) spec() lab.Spec {
	return lab.Spec{Metric: s.metric, Dim: s.dim, T: s.T, W: s.W, Seed: s.seed, Multi: true, Loader: "gc", Hint: s.hint, Via: "new", Verbose: s.verbose}
}

// forest reads the index that was saved in file.
func forest[TV interfaces.VectorType, TIX interfaces.IndexTypes](file string, s bscen, t int) (*lab.Forest[TV, TIX], error) {
	return lab.ReadForest[TV, TIX](file, lab.Dist[TV, TIX](s.spec()), t)
}

// treesOf counts the trees of a file by its root nodes (half of them are copies).
func treesOf[TV interfaces.VectorType, TIX interfaces.IndexTypes](file string, s bscen, n uint64) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 0
	}
	f, err := lab.NewForest[TV, TIX](b, lab.Dist[TV, TIX](s.spec()), 0)
	if err != nil {
		return 0
	}
	return f.CountRoots(n) / 2
}

func buildScens(thorough bool, forC12 bool) (out []bscen) {
	i := 0
	add := func(s bscen) {
		s.ty = i % 4
		i++
		out = append(out, s)
	}
	// every class of schedules: small enough for all of them
	for _, m := range []string{"ang", "dot"} {
		for _, x := range [][4]int{ // dim, items, trees, workers
			{1, 1, 2, 2}, {2, 2, 2, 2}, {2, 3, 2, 2}, {1, 3, 2, 2}, {1, 4, 2, 2}, {2, 0, 2, 2}, {1, 2, 3, 3}, {2, 2, 1, 2}, {2, 2, 1, 3}, {2, 5, 1, 2}, {2, 2, 3, 2}, {2, 2, 4, 2},
		} {
			if forC12 && x[1] == 0 {
				continue
			}
			add(bscen{metric: m, dim: x[0], data: "gen", ids: "dense", n: x[1], T: x[2], W: x[3], seed: 5, bound: -1})
		}
	}
	// preemption bounded
	b2, b3 := 2, 1
	if thorough {
		b2, b3 = 3, 2
	}
	for _, m := range []string{"ang", "dot"} {
		for _, d := range []string{"gen", "same", "pairs", "zero", "grid"} {
			for _, x := range [][4]int{{2, 6, 2, 2}, {1, 5, 3, 2}, {3, 7, 4, 2}} {
				add(bscen{metric: m, dim: x[0], data: d, ids: "dense", n: x[1], T: x[2], W: x[3], seed: 3, bound: b2})
			}
			for _, x := range [][4]int{{1, 4, 3, 3}, {2, 6, 5, 3}, {2, 5, 4, 4}} {
				add(bscen{metric: m, dim: x[0], data: d, ids: "dense", n: x[1], T: x[2], W: x[3], seed: 3, bound: b3})
			}
		}
		add(bscen{metric: m, dim: 2, data: "gen", ids: "gap", n: 5, T: 2, W: 2, seed: 1, bound: b2 + 1})
		add(bscen{metric: m, dim: 2, data: "gen", ids: "far", n: 4, T: 2, W: 2, seed: 1, bound: b2})
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 6, T: 2, W: 2, seed: 1, hint: 100, bound: b2 + 1})
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 6, T: 2, W: 2, seed: 1, hint: 1, bound: b2 + 1})
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 5, T: 2, W: 2, seed: 1, bound: b2, verbose: true, note: " verbose"})
		if !forC12 { // how many trees are built depends on the schedule
			add(bscen{metric: m, dim: 1, data: "gen", ids: "dense", n: 4, T: -1, W: 2, seed: 1, bound: b2 + 1})
			add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 6, T: -1, W: 3, seed: 1, bound: b2})
		}
	}
	// many workers: a few schedules
	if !forC12 {
		for i, w := range []int{9, 17, 33, 65, 129, 300} {
			add(bscen{metric: []string{"ang", "dot"}[i%2], dim: 1 + i%3, data: "gen", ids: "dense", n: 3, T: w, W: w, seed: 4, bound: 0, first: 3, note: " first 3 schedules"})
			add(bscen{metric: []string{"dot", "ang"}[i%2], dim: 1 + i%3, data: "pairs", ids: "gap", n: 6, T: 2, W: w, seed: 4, bound: 0, first: 3, note: " first 3 schedules"})
			add(bscen{metric: []string{"dot", "ang"}[i%2], dim: 2, data: "gen", ids: "dense", n: 2, T: 2*w + 1, W: w, seed: 4, bound: 1, first: 2, note: " first 2 schedules"})
		}
	}
	// large ones: the first schedules
	for i, m := range []string{"ang", "dot", "ang", "dot"} {
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 6000, T: 3, W: 3, seed: 7, bound: 0, first: 2, note: " first 2 schedules"})
		add(bscen{metric: m, dim: []int{300, 1100, 700, 270}[i], data: "gen", ids: "dense", n: 900, T: 2, W: 2, seed: 7, bound: 0, first: 2, note: " first 2 schedules"})
		add(bscen{metric: m, dim: 1, data: "pairs", ids: "gap", n: 400, T: 40, W: 4, seed: 7, bound: 0, first: 2, note: " first 2 schedules"})
		add(bscen{metric: m, dim: 130, data: "gen", ids: "dense", n: 140, T: 3, W: 3, seed: 7, bound: 0, first: 4, note: " first 4 schedules"})
	}
	// larger builds, with as many switches as workers that end (or one more)
	for _, m := range []string{"ang", "dot"} {
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 300, T: 3, W: 3, seed: 2, bound: 0})
		add(bscen{metric: m, dim: 40, data: "clust", ids: "gap", n: 120, T: 6, W: 3, seed: 2, bound: 0})
		add(bscen{metric: m, dim: 2, data: "mixz", ids: "dense", n: 700, T: 2, W: 2, seed: 2, bound: 0})
		add(bscen{metric: m, dim: 3, data: "gen", ids: "rev", n: 24, T: 2, W: 2, seed: 2, bound: 1})
		add(bscen{metric: m, dim: 2, data: "gen", ids: "dense", n: 3, T: 5, W: 5, seed: 2, bound: 0})
		add(bscen{metric: m, dim: 1, data: "gen", ids: "dense", n: 4, T: 13, W: 6, seed: 2, bound: 0})
	}
	return
}

// ---- C11

var c11 = &rt.Check{
	ID: "C11",
	Rule: "parallel builds over metric x vector length x data set x items x trees x workers x storage hint: for the small ones every class of equivalent schedules " +
		"(sleep sets over the lock operations), for the others every schedule up to a bound of preemptions; scheduling points are the start of a worker, every acquisition of a lock, every wait, every atomic operation; " +
		"the policy's lock semantics include writer preference",
	Oracle: "happens-before monitor over all memory accesses (the hand-over between workers adds no edges), deadlock and livelock monitor, walk of all trees of the saved index",
	Assumptions: []string{
		"between two scheduling points a worker runs undisturbed; sound for programs without unsynchronised conflicts, which the happens-before monitor establishes on every schedule",
		"sequentially consistent memory",
	},
	Procs: 1, BigVM: true,
	Run: func(c *rt.Ctx) {
		fs := [4]func(*rt.Ctx, bscen){c11run[float32, uint32], c11run[float32, uint64], c11run[float64, uint32], c11run[float64, uint64]}
		for _, s := range buildScens(c.Thorough, false) {
			s := s
			c.Unit(s.key(), func() { fs[s.ty](c, s) })
		}
	},
}

func c11run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s bscen) {
	items := lab.Items(s.ids, lab.Data(s.data, s.dim, s.n))
	file := filepath.Join(c.Dir, "c11.ann")
	var m *lab.Model[TV]
	var err error
	seen := map[string]bool{}
	c.Sample(func() string { return fmt.Sprintf("%d items", len(items)) })
	limit := s.first
	if limit == 0 {
		limit = 1 << 62
	}
	exploreFirst(c, s.bound, limit, "build", func() {
		idx := lab.Make[TV, TIX](s.spec())
		m = lab.Fill(idx, s.spec(), items)
		idx.Build(s.T, s.W)
		err = idx.Save(file)
		idx.Close()
	}, func() {
		sched := func() string { return strings.Join(vsync.Trace(), " ") }
		if err != nil && s.n > 0 {
			c.Fail("save: %v, schedule %s", err, sched())
		}
		if s.n == 0 {
			return
		}
		t := s.T
		if t < 0 {
			t = treesOf[TV, TIX](file, s, m.N)
			if t < 1 {
				c.Fail("no tree was built, schedule %s", sched())
			}
		}
		f, ferr := forest[TV, TIX](file, s, t)
		if ferr != nil {
			c.Fail("%v, schedule %s", ferr, sched())
		}
		if msg := f.Check(m); msg != "" {
			c.Fail("%s, schedule %s", msg, sched())
		}
		c.Eval(1)
		if h := string(f.Bytes); !seen[h] && len(seen) < 4096 {
			seen[h] = true
			c.Outcome(h)
		}
	})
}

// ---- C12

var c12 = &rt.Check{
	ID: "C12",
	Rule: "as C11: all classes of schedules of small parallel builds, all schedules up to a preemption bound of larger ones; " +
		"and, for one worker with either policy and for several workers, builds repeated with new indexes and after closing, for every data set, id pattern, metric, seed, number of trees",
	Oracle: "canonical form of the forest (node numbers and tree order abstracted), equal for every schedule; saved bytes for one worker",
	Assumptions: []string{
		"as for C11",
	},
	Procs: 1, BigVM: true,
	Run: func(c *rt.Ctx) {
		fs := [4]func(*rt.Ctx, bscen){c12run[float32, uint32], c12run[float32, uint64], c12run[float64, uint32], c12run[float64, uint64]}
		gs := [4]func(*rt.Ctx, bscen){c12again[float32, uint32], c12again[float32, uint64], c12again[float64, uint32], c12again[float64, uint64]}
		for _, s := range buildScens(c.Thorough, true) {
			s := s
			c.Unit(s.key(), func() { fs[s.ty](c, s) })
		}
		i := 0
		dims := []int{1, 2, 3, 6}
		for _, m := range []string{"ang", "dot"} {
			for _, d := range lab.AllData {
				for _, id := range lab.AllIDs {
					for _, dim := range dims {
						if !c.Thorough && (i+dim)%3 != 0 && id != "dense" {
							i++
							continue
						}
						s := bscen{ty: i % 4, metric: m, dim: dim, data: d, ids: id, note: " repeated"}
						i++
						c.Unit(s.key(), func() { gs[s.ty](c, s) })
					}
				}
			}
		}
		for _, m := range []string{"ang", "dot"} {
			for ty := range tyNames {
				for _, x := range [][3]int{{2, 3000}, {40, 300}, {200, 260}, {2, 30, 20}, {3, 12, 50}, {1, 9, 130}, {2, 40, 300}, {2, 5000, 1}, {1 + ty, 9000, 1}} {
					s := bscen{ty: ty, metric: m, dim: x[0], data: "gen", ids: "dense", n: x[1], T: x[2], note: " repeated large"}
					c.Unit(s.key(), func() { gs[s.ty](c, s) })
				}
			}
		}
		c.Unit("other processes", func() { c12processes(c) })
	},
}

// c12sums builds a few indexes and returns the sums of their files.
func c12sums(dir string) string {
	out := ""
	for i, s := range []bscen{{metric: "ang", dim: 2, n: 30}, {metric: "dot", dim: 3, n: 20}, {metric: "ang", dim: 9, n: 60, seed: 5}} {
		for _, w := range []int{1, 3} {
			s.T, s.W, s.data = 3, w, "gen"
			out += sum12[float32, uint32](dir, s) + sum12[float64, uint64](dir, s) + sum12[float32, uint64](dir, s) + fmt.Sprintln(i, w)
		}
	}
	return out
}

func sum12[TV interfaces.VectorType, TIX interfaces.IndexTypes](dir string, s bscen) string {
	sp := s.spec()
	sp.Via = ""
	if s.metric == "ang" {
		sp.Via = "builder"
	}
	idx, m := lab.Built[TV, TIX](sp, lab.Items("dense", lab.Data(s.data, s.dim, s.n)))
	file := filepath.Join(dir, "sum")
	if err := idx.Save(file); err != nil {
		return err.Error()
	}
	idx.Close()
	f, err := forest[TV, TIX](file, s, s.T)
	if err != nil {
		return err.Error()
	}
	h := fnv.New64a()
	if s.W == 1 {
		h.Write(f.Bytes)
	} else {
		fmt.Fprint(h, f.Canon(m))
	}
	return fmt.Sprintf("%x ", h.Sum64())
}

// c12processes compares builds of different processes, started at different times with different
// environments, process numbers and address spaces.
func c12processes(c *rt.Ctx) {
	want := c12sums(c.Dir)
	for i := 0; i < 3; i++ {
		if i == 2 {
			time.Sleep(1100 * time.Millisecond)
		}
		cmd := exec.Command("/proc/self/exe", "C12child", c.Dir)
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+i), "HOME=/nonexistent", fmt.Sprintf("GOGC=%d", 50*i+1))
		cmd.Dir = []string{"/", c.Dir, "/tmp"}[i]
		b, err := cmd.Output()
		if err != nil {
			c.Fail("process %d: %v", i, err)
		}
		if strings.TrimSpace(string(b)) != strings.TrimSpace(want) {
			c.Fail("builds in another process differ: %s, here %s", b, want)
		}
		c.Tick()
		c.State(1)
		c.Transition(18)
		c.Trace(1)
	}
}

func c12run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s bscen) {
	items := lab.Items(s.ids, lab.Data(s.data, s.dim, s.n))
	file := filepath.Join(c.Dir, "c12.ann")
	var m *lab.Model[TV]
	var err error
	first, firstSched := "", ""
	explore(c, s.bound, "build", func() {
		idx := lab.Make[TV, TIX](s.spec())
		m = lab.Fill(idx, s.spec(), items)
		idx.Build(s.T, s.W)
		err = idx.Save(file)
		idx.Close()
	}, func() {
		sched := strings.Join(vsync.Trace(), " ")
		if err != nil {
			c.Fail("save: %v, schedule %s", err, sched)
		}
		f, ferr := forest[TV, TIX](file, s, s.T)
		if ferr != nil {
			c.Fail("%v, schedule %s", ferr, sched)
		}
		canon := fmt.Sprint(f.Canon(m))
		c.Eval(1)
		if first == "" {
			first, firstSched = canon, sched
			c.Outcome(canon)
		} else if canon != first {
			c.Fail("the trees depend on the scheduling: %s with schedule %s, %s with schedule %s", first, firstSched, canon, sched)
		}
	})
}

// c12again builds the same content repeatedly.
func c12again[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s bscen) {
	file := filepath.Join(c.Dir, "c12.ann")
	type conf struct {
		multi bool
		w     int
	}
	sizes := []int{1, 2, 4, 9}
	seeds := []uint64{0, 1, 77}
	if c.Thorough {
		sizes = []int{1, 2, 3, 4, 5, 7, 9, 14, 23}
		seeds = []uint64{0, 1, 2, 77, 4294967295}
	}
	if s.n > 0 {
		sizes, seeds = []int{s.n}, seeds[1:2]
	}
	trees := []int{1, 3}
	if s.T > 0 {
		trees = []int{s.T}
	}
	for _, n := range sizes {
		items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
		for _, T := range trees {
			for _, seed := range seeds {
				if c.Cut() {
					return
				}
				single := ""
				for _, cf := range []conf{{false, 1}, {true, 1}, {true, 2}, {true, 3}} {
					sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: T, W: cf.w, Seed: seed, Multi: cf.multi, Loader: "gc", Via: "builder"}
					what := fmt.Sprintf("items=%d trees=%d seed=%d multi=%v workers=%d", n, T, seed, cf.multi, cf.w)
					c.Step(func() string { return what })
					first := ""
					var idx interfaces.AnnoyIndex[TV, TIX]
					for round := 0; round < 4; round++ { // new, rebuilt, rebuilt, new
						if round == 0 || round == 3 {
							idx = lab.Make[TV, TIX](sp)
						}
						if round == 2 { // it has served a loaded file in between
							if err := idx.Load(file); err != nil {
								c.Fail("%s round %d: load: %v", what, round, err)
							}
							idx.Close()
						}
						m := lab.Fill(idx, sp, items)
						idx.Build(T, cf.w)
						if err := idx.Save(file); err != nil {
							c.Fail("%s round %d: save: %v", what, round, err)
						}
						idx.Close()
						f, err := lab.ReadForest[TV, TIX](file, lab.Dist[TV, TIX](sp), T)
						if err != nil {
							c.Fail("%s round %d: %v", what, round, err)
						}
						got := fmt.Sprint(f.Canon(m))
						if cf.w == 1 {
							got = string(f.Bytes)
						}
						c.Eval(1)
						c.Transition(len(items) + 3)
						if first == "" {
							first = got
						} else if got != first {
							c.Fail("%s: build %d differs from the first one", what, round+1)
						}
						if cf.w == 1 {
							if single == "" {
								single = got
							} else if single != got {
								c.Fail("%s: differs from the single worker policy", what)
							}
						}
					}
					c.State(1)
					c.Outcome(first)
				}
			}
		}
		c.Tick()
	}
	c.Trace(1)
}
