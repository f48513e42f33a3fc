package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/fault"
	"verif/mc/lab"
	"verif/mc/rt"
)

// Loading a good file while system calls fail. A process is used for one configuration and prior
// state: the system call filter cannot be removed again.

var priors10 = []string{"fresh", "filled", "built", "saved", "the same file loaded", "another file loaded"}
var errnos10 = []string{"EIO", "EACCES", "EMFILE", "EINTR", "ENOMEM", "ENOSPC"}

type job10 struct {
	Dir, Loader, Via, Metric string
	Ty, Dim, Prior           int
	Pairs                    bool
}

type report10 struct {
	Done              bool
	Loads, Fired, Ok  int
	Calls             []string
	Trouble, NoFilter string
}

func child10(arg string) {
	var j job10
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	debug.SetGCPercent(-1)
	debug.SetPanicOnFault(true)
	var r report10
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Trouble += fmt.Sprintf(": panic: %v\n%s", p, debug.Stack())
			}
		}()
		[4]func(*job10, *report10){c10child[float32, uint32], c10child[float32, uint64], c10child[float64, uint32], c10child[float64, uint64]}[j.Ty](&j, &r)
	}()
	r.Done = true
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

func answers10[TV interfaces.VectorType, TIX interfaces.IndexTypes](x interfaces.AnnoyIndex[TV, TIX], dim, n int) string {
	var b bytes.Buffer
	ctx := x.CreateContext()
	for _, q := range append(lab.Probes(dim)[:4], lab.Data("gen", dim, 3)...) {
		for _, budget := range []int{-1, 1, 3, 1000} {
			ids, ds := x.GetNnsByVector(lab.Conv[TV](q), n, budget, ctx)
			fmt.Fprintln(&b, ids, ds)
		}
	}
	for i := 0; i < n; i++ {
		fmt.Fprintln(&b, x.GetItem(TIX(i)), x.GetDistance(0, TIX(i)))
	}
	return b.String()
}

// maps10 are the mappings only: a file whose closing was made to fail stays open
func maps10(l string) (n int) { return strings.Count(l, "map /") }

// left10 does not distinguish deleted files: a save replaces them
func left10(dir string) (string, error) {
	l, err := resourceList(dir)
	return strings.ReplaceAll(l, " (deleted)", ""), err
}

func c10child[TV interfaces.VectorType, TIX interfaces.IndexTypes](j *job10, r *report10) {
	const n, m = 7, 12
	sp := lab.Spec{Metric: j.Metric, Dim: j.Dim, T: 2, W: 1, Loader: j.Loader, Via: j.Via}
	build := func(name string, n int) (string, string) {
		x, _ := lab.Built[TV, TIX](sp, lab.Items("dense", lab.Data("gen", j.Dim, n)))
		p := filepath.Join(j.Dir, name)
		if err := x.Save(p); err != nil {
			panic(err)
		}
		defer x.Close()
		return p, answers10(x, j.Dim, n)
	}
	good, want := build("good.ann", n)
	another, wantOther := build("another.ann", m)
	plan := map[int]string{}
	var sup *fault.Supervisor
	if s, err := fault.Supervise(plan); err != nil {
		r.NoFilter = err.Error()
		return
	} else {
		sup = s
	}
	before, err := left10(j.Dir)
	if err != nil {
		panic(err)
	}
	run := func(p map[int]string) (calls int) {
		for k := range plan {
			delete(plan, k)
		}
		for k, v := range p {
			plan[k] = v
		}
		r.Trouble = fmt.Sprintf("load of a good file while system calls fail: %v", p)
		sup.N, sup.Names, sup.Fired, sup.Unclosed = 0, nil, 0, false
		x := lab.Make[TV, TIX](sp)
		if j.Prior >= 1 && j.Prior <= 3 {
			lab.Fill(x, sp, lab.Items("dense", lab.Data("gen", j.Dim, m)))
		}
		if j.Prior >= 2 && j.Prior <= 3 {
			x.Build(2, 1)
		}
		must10 := func(err error, what string) {
			if err != nil {
				panic(fmt.Sprint(what, ": ", err))
			}
		}
		switch j.Prior {
		case 3:
			must10(x.Save(filepath.Join(j.Dir, "saved.ann")), "save")
		case 4:
			must10(x.Load(good), "load")
		case 5:
			must10(x.Load(another), "load")
		}
		var loaded error
		sup.Do(func() { loaded = x.Load(good) })
		calls = sup.N
		if len(p) == 0 {
			r.Calls = sup.Names
			if loaded != nil {
				panic(fmt.Sprint("load of a good file: ", loaded))
			}
		}
		r.Loads++
		r.Fired += sup.Fired
		ids, _ := x.GetNnsByVector(make([]TV, j.Dim), n, -1, x.CreateContext())
		if loaded == nil {
			r.Ok++
			if got := answers10(x, j.Dim, n); got != want {
				panic(fmt.Sprintf("no error, but the answers are %s, not %s", got, want))
			}
		} else if len(ids) > 0 { // nothing, or what it was before, or what it shall be
			if got := answers10(x, j.Dim, n); got != want {
				if len(ids) < n || answers10(x, j.Dim, m) != wantOther {
					panic(fmt.Sprintf("error %v, and the index answers %s", loaded, got))
				}
			}
		} else if now, err := left10(j.Dir); err != nil || !sup.Unclosed && now != before || maps10(now) != maps10(before) {
			panic(fmt.Sprintf("error %v, index is empty, files and mappings before %q, now %q", loaded, before, now))
		}
		if loaded != nil {
			must10(x.Load(good), "load once more")
			if got := answers10(x, j.Dim, n); got != want {
				panic(fmt.Sprintf("loaded once more, the answers are %s, not %s", got, want))
			}
		}
		x.Close()
		if now, err := left10(j.Dir); err != nil || !sup.Unclosed && now != before || maps10(now) != maps10(before) {
			panic(fmt.Sprintf("closed: files and mappings before %q, now %q", before, now))
		} else {
			before = now
		}
		return
	}
	calls := run(nil)
	for i := 1; i <= calls; i++ {
		for _, e := range errnos10 {
			c2 := run(map[int]string{i: e})
			for k := i + 1; j.Pairs && k <= c2; k++ {
				run(map[int]string{i: e, k: "EIO"})
				run(map[int]string{i: e, k: e})
			}
		}
	}
	r.Trouble = ""
}

var self10, _ = os.Executable()

func c10faults(c *rt.Ctx) {
	for _, s := range grid(allTy, metrics, []int{3}, []string{"gen"}, []string{"dense"}) {
		for _, loader := range []string{"mmap", "gc"} {
			for prior, pn := range priors10 {
				via := []string{"builder", "new"}[prior%2]
				j := job10{Loader: loader, Via: via, Metric: s.metric, Ty: s.ty, Dim: s.dim, Prior: prior, Pairs: true}
				c.Unit(fmt.Sprintf("failing system calls: %s %s %s, %s", tyNames[s.ty], s.metric, loader, pn), func() {
					j.Dir = filepath.Join(c.Dir, "f")
					os.RemoveAll(j.Dir)
					must(c, os.MkdirAll(j.Dir, 0o755), "scratch directory")
					b, _ := json.Marshal(j)
					r := faulty(c, "C10child", string(b))
					if r.NoFilter != "" {
						c.Note("without_system_call_filter", 1)
						return
					}
					if len(r.Calls) == 0 {
						c.Note("no_calls_seen", 1)
					}
					c.State(r.Loads)
					c.Transition(r.Fired)
					c.Trace(r.Loads)
					c.Note("faults", int64(r.Fired))
					c.Outcome(r.Ok, len(r.Calls))
					c.Sample(func() string {
						return fmt.Sprintf("calls of a load: %v; %d loads, %d in spite of the fault", r.Calls, r.Loads, r.Ok)
					})
				})
			}
		}
	}
}

// c10big: files whose size is not a multiple of the node size, but is one when cut off to fewer bits.
func c10big(c *rt.Ctx) {
	for _, s := range grid(allTy, metrics, []int{3000}, []string{"gen"}, []string{"dense"}) {
		s := s
		c.Unit("large files: "+s.key(), func() {
			[4]func(*rt.Ctx, scen){c10bigrun[float32, uint32], c10bigrun[float32, uint64], c10bigrun[float64, uint32], c10bigrun[float64, uint64]}[s.ty](c, s)
		})
	}
}

func c10bigrun[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	const n = 5
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: "mmap", Via: "builder"}
	ns := int64(lab.Dist[TV, TIX](sp).NodeSize())
	items := lab.Items("dense", lab.Data("gen", s.dim, n))
	idx, m := lab.Built[TV, TIX](sp, items)
	ref := observe(c, idx, m, sp.T, 2, 2)
	good := file(c, "good.ann")
	must(c, idx.Save(good), "save")
	idx.Close()
	whole, err := os.ReadFile(good)
	must(c, err, "read")
	for _, loader := range []string{"mmap", "gc"} {
		sp.Loader = loader
		for _, bits := range []int{8, 16, 24, 31, 32, 33, 34} {
			if P := int64(1) << bits; P%ns != 0 && (loader == "mmap" || bits <= 24) {
				p := file(c, "large.ann")
				f, err := os.Create(p)
				must(c, err, "create")
				// zeros, and at the end a good file
				_, err = f.WriteAt(whole, P)
				f.Close()
				must(c, err, "write")
				c.Step(func() string {
					return fmt.Sprintf("[%v] file of 2^%d + %d bytes, node size %d", sp, bits, len(whole), ns)
				})
				c.Tick()
				x := lab.Make[TV, TIX](sp)
				var lerr error
				if r := rt.Panics(func() { lerr = x.Load(p) }); r != nil {
					c.Fail("[%v] file of 2^%d + %d bytes, node size %d: load panics: %v", sp, bits, len(whole), ns, r)
				}
				if lerr == nil {
					c.Fail("[%v] file of 2^%d + %d bytes, node size %d: load returns no error", sp, bits, len(whole), ns)
				}
				os.Remove(p)
				must(c, x.Load(good), "good file afterwards")
				if d := ref.diff(observe(c, x, m, sp.T, 2, 2)); d != "" {
					c.Fail("[%v] good file after one of 2^%d + %d bytes: %s", sp, bits, len(whole), d)
				}
				x.Close()
				if l := resources(c, c.Dir); l != "" {
					c.Fail("[%v] after a file of 2^%d + %d bytes, all closed: %s", sp, bits, len(whole), l)
				}
				c.State(1)
				c.Trace(1)
				c.Outcome(lerr, bits)
			}
		}
	}
}
