package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/fault"
	"verif/mc/lab"
	"verif/mc/rt"
)

// Nothing leaks when system calls of a close, a load or a save fail: what stays open or mapped is at
// most what the failing close or munmap itself would have released.

var priors15 = []string{"loaded", "saved", "loaded twice", "built"}
var ops15 = []string{"close", "load another", "load missing", "load truncated", "load again", "save elsewhere", "save in place"}

type job15 struct {
	Dir, Loader, Metric string
	Ty, Prior, Op       int
}

func child15(arg string) {
	var j job15
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	debug.SetGCPercent(-1)
	debug.SetPanicOnFault(true)
	var r report10
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Trouble += fmt.Sprintf(": panic: %v\n%s", p, debug.Stack())
			}
		}()
		[4]func(*job15, *report10){c15child[float32, uint32], c15child[float32, uint64], c15child[float64, uint32], c15child[float64, uint64]}[j.Ty](&j, &r)
	}()
	r.Done = true
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

func c15child[TV interfaces.VectorType, TIX interfaces.IndexTypes](j *job15, r *report10) {
	const n, m, dim = 7, 12, 3
	sp := lab.Spec{Metric: j.Metric, Dim: dim, T: 2, W: 1, Loader: j.Loader}
	ref, _ := lab.Built[TV, TIX](sp, lab.Items("dense", lab.Data("gen", dim, n)))
	other, _ := lab.Built[TV, TIX](sp, lab.Items("dense", lab.Data("gen", dim, m)))
	path := func(s string) string { return filepath.Join(j.Dir, s) }
	check := func(err error, what string) {
		if err != nil {
			panic(fmt.Sprint(what, ": ", err))
		}
	}
	check(ref.Save(path("good")), "save")
	check(other.Save(path("another")), "save")
	want := answers10(ref, dim, n)
	ref.Close()
	other.Close()
	b, err := os.ReadFile(path("good"))
	check(err, "read")
	check(os.WriteFile(path("short"), b[:len(b)-1], 0o644), "write")
	fault.WatchUnmap = true
	plan := map[int]string{}
	sup, err := fault.Supervise(plan)
	if err != nil {
		r.NoFilter = err.Error()
		return
	}
	count := func() (fds, maps int) {
		l, err := resourceList(j.Dir)
		check(err, "list")
		return strings.Count(l, "fd /"), strings.Count(l, "map /")
	}
	names := []string{"good", "another", "missing", "short", "first", "elsewhere"}
	run := func(p map[int]string) (calls int) {
		for k := range plan {
			delete(plan, k)
		}
		for k, v := range p {
			plan[k] = v
		}
		r.Trouble = fmt.Sprintf("%s, then %s while system calls fail: %v", priors15[j.Prior], ops15[j.Op], p)
		sup.N, sup.Names, sup.Fired, sup.Open, sup.Mapped = 0, nil, 0, 0, 0
		fds, maps := count()
		alloc := lab.Loader(j.Loader)
		x := index.New[TV, TIX](lab.Rnd[TIX](0), lab.Dist[TV, TIX](sp), lab.Policy(false), memory.GoGCIndexAllocator(), alloc, nil, false, 0)
		file := path("good")
		switch j.Prior {
		case 0:
			check(x.Load(file), "load")
		case 1, 3:
			lab.Fill(x, sp, lab.Items("dense", lab.Data("gen", dim, n)))
			x.Build(2, 1)
			if file = path("first"); j.Prior == 1 {
				check(x.Save(file), "save")
			}
		case 2:
			check(x.Load(path("another")), "load")
			check(x.Load(file), "load")
		}
		var result error
		sup.Do(func() {
			switch j.Op {
			case 0:
				result = x.Close()
			case 1:
				result = x.Load(path("another"))
			case 2:
				result = x.Load(path("missing"))
			case 3:
				result = x.Load(path("short"))
			case 4:
				result = x.Load(file)
			case 5:
				result = x.Save(path("elsewhere"))
			case 6:
				result = x.Save(file)
			}
		})
		calls = sup.N
		if len(p) == 0 {
			r.Calls = sup.Names
		}
		r.Loads++
		r.Fired += sup.Fired
		if result == nil {
			r.Ok++
		}
		left := func(when string) {
			if f, m := count(); f > fds+sup.Open || m > maps+sup.Mapped {
				l, _ := resourceList(j.Dir)
				panic(fmt.Sprintf("%s (%v): %d open files and %d mappings more, but only %d closes and %d munmaps failed: %s",
					when, result, f-fds, m-maps, sup.Open, sup.Mapped, l))
			}
			for _, f := range names {
				if _, ok := alloc.Get(path(f)); ok {
					panic(fmt.Sprintf("%s (%v): the allocator lists %s", when, result, f))
				}
			}
		}
		if j.Op != 0 {
			x.Close()
		}
		left("closed")
		// and it can be used as if it were new
		lab.Fill(x, sp, lab.Items("dense", lab.Data("gen", dim, n)))
		x.Build(2, 1)
		if got := answers10(x, dim, n); got != want {
			panic(fmt.Sprintf("filled again, the answers are %s, not %s", got, want))
		}
		check(x.Load(path("good")), "load afterwards")
		if got := answers10(x, dim, n); got != want {
			panic(fmt.Sprintf("loaded again, the answers are %s, not %s", got, want))
		}
		check(x.Close(), "close afterwards")
		left("closed again")
		return
	}
	calls := run(nil)
	for i := 1; i <= calls; i++ {
		for _, e := range []string{"EIO", "EINTR", "EACCES"} {
			c2 := run(map[int]string{i: e})
			for k := i + 1; k <= c2; k++ {
				run(map[int]string{i: e, k: "EIO"})
			}
		}
	}
	r.Trouble = ""
}

func c15faults(c *rt.Ctx) {
	for _, ty := range allTy {
		for li, loader := range []string{"mmap", "gc"} {
			for prior := range priors15 {
				for op := range ops15 {
					if prior == 3 && op == 4 || prior == 2 && op > 3 && !c.Thorough {
						continue
					}
					j := job15{Loader: loader, Metric: metrics[(ty+li+prior)%2], Ty: ty, Prior: prior, Op: op}
					c.Unit(fmt.Sprintf("failing system calls: %s %s %s, then %s", tyNames[ty], loader, priors15[prior], ops15[op]), func() {
						j.Dir = filepath.Join(c.Dir, "f")
						os.RemoveAll(j.Dir)
						must(c, os.MkdirAll(j.Dir, 0o755), "scratch directory")
						b, _ := json.Marshal(j)
						r := faulty(c, "C15child", string(b))
						if r.NoFilter != "" {
							c.Note("without_system_call_filter", 1)
							return
						}
						c.State(r.Loads)
						c.Transition(r.Fired)
						c.Trace(r.Loads)
						c.Note("faults", int64(r.Fired))
						c.Outcome(r.Ok, len(r.Calls))
						c.Sample(func() string { return fmt.Sprintf("calls: %v; %d runs, %d successful", r.Calls, r.Loads, r.Ok) })
					})
				}
			}
		}
	}
}

// faulty runs this program as a child that makes its own system calls fail.
func faulty(c *rt.Ctx, mode, job string) (r report10) {
	cmd := exec.Command(self10, mode, job)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(c, cmd.Start(), "start child")
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	late := !t.Stop()
	if json.Unmarshal(out.Bytes(), &r) != nil || !r.Done {
		if late {
			c.Fail("%s %s does not end", mode, job)
		}
		var ee *exec.ExitError
		errors.As(err, &ee)
		c.Fail("process ends with %v: %s", err, errb.String())
	}
	if r.Trouble != "" {
		c.Fail("%s (calls: %v)", r.Trouble, r.Calls)
	}
	return
}
