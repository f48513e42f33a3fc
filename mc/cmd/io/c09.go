package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/fault"
	"verif/mc/lab"
	"verif/mc/rt"
)

var c09 = &rt.Check{
	ID: "C09",
	Rule: "situations (no file, file of a larger or smaller index, of garbage, own file saved over, file loaded by the saving index and by two others, relative name) x element and id types, metrics and loaders: " +
		"every file system call of Save as crash point; each call failing with each of 6 errnos; all pairs of failing calls and of a failing call and a crash; " +
		"disk full at every byte of the file, alone and combined with a crash at every later call (torn files); each followed by another save, of the same process or of a new one with a smaller index; " +
		"a second process saving under the same name at each call of the first; names of 1 to 255 bytes with neighbours of 29 similar names, each loaded by another index; unwritable targets; saves over files loaded by up to 3 indexes under all spellings of the name",
	Oracle: "the file holds exactly the complete old or the complete new bytes (absent only if it was before); without error: the new ones; after an error: all answers as before or, with the new file complete, an empty index which can load it; " +
		"other loaded indexes answer as before; a following save succeeds; of two overlapping saves one complete file is left, and neither fails if both save the same; no other file is touched or left behind, not even one that is called like a file the save makes",
	Assumptions: []string{"the process dies, the operating system does not: data written is visible to others in program order",
		"the file changes by system calls only, hence crash points between them add nothing"},
	Procs: 4,
	Run: func(c *rt.Ctx) {
		signal.Ignore(syscall.SIGXFSZ)
		for _, ty := range types09 {
			for _, sit := range situations {
				c09faults(c, ty, sit)
				overlap09(c, ty, sit)
			}
		}
		for _, ty := range types09 {
			ty.targets(c)
			ty.near(c)
			ty.over(c)
		}
	},
}

type type09 struct {
	name    string
	sp      lab.Spec
	child   func(*job, *report)
	targets func(*rt.Ctx)
	over    func(*rt.Ctx)
	near    func(*rt.Ctx)
	bytes   func(c *rt.Ctx, n int) []byte
}

func mk09[TV interfaces.VectorType, TIX interfaces.IndexTypes](name string, sp lab.Spec) *type09 {
	sp.Dim, sp.T, sp.W, sp.MaxK = 2, 2, 1, 2
	t := &type09{name: name, sp: sp}
	t.child = func(j *job, r *report) { child09[TV, TIX](sp, j, r) }
	t.targets = func(c *rt.Ctx) { targets09[TV, TIX](c, name, sp) }
	t.near = func(c *rt.Ctx) { near09[TV, TIX](c, name, sp) }
	t.over = func(c *rt.Ctx) { over09[TV, TIX](c, name, sp); modes09[TV, TIX](c, name, sp) }
	t.bytes = func(c *rt.Ctx, n int) []byte {
		idx, _ := lab.Built[TV, TIX](sp, items09(n))
		defer idx.Close()
		p := filepath.Join(c.Dir, "ref.ann")
		must(c, idx.Save(p), "save")
		b, err := os.ReadFile(p)
		must(c, err, "read")
		return b
	}
	return t
}

var types09 = []*type09{
	mk09[float32, uint32]("f32 u32 ang mmap", lab.Spec{Metric: "ang", Loader: "mmap"}),
	mk09[float64, uint64]("f64 u64 dot gc", lab.Spec{Metric: "dot", Loader: "gc"}),
	mk09[float32, uint64]("f32 u64 ang gc", lab.Spec{Metric: "ang", Loader: "gc"}),
	mk09[float64, uint32]("f64 u32 dot mmap", lab.Spec{Metric: "dot", Loader: "mmap"}),
}

var situations = []string{"no file", "larger index", "smaller index", "garbage", "own file", "loaded by all", "relative"}

const nNew, nLarge, nSmall = 5, 11, 2

func items09(n int) []lab.Item { return lab.Items("dense", lab.Data("gen", 2, n)) }

// job is what a child process shall do.
type job struct {
	Dir   string
	Type  int
	Sit   string
	Plan  map[int]string
	FSize int64 // limit of the file size while saving, -1: none
	Small bool  // save the smaller index, over whatever the predecessor left
}

type report struct {
	Done     bool
	Err      string // of Save
	N        int    // calls of Save
	Names    []string
	Fired    int
	File     string // old, new, absent, or what is wrong
	State    string // same, empty, or what is wrong
	Trouble  string // anything else that is wrong
	CloseErr bool
	NoFilter string
}

func child(arg string) {
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	debug.SetGCPercent(-1)
	debug.SetPanicOnFault(true)
	signal.Ignore(syscall.SIGXFSZ)
	var r report
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Trouble = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		types09[j.Type].child(&j, &r)
	}()
	r.Done = true
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

// look is everything an index of the lab answers.
type look[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	ids   [][]TIX
	ds    [][]TV
	items [][]TV
}

func empty[TV interfaces.VectorType, TIX interfaces.IndexTypes](idx interfaces.AnnoyIndex[TV, TIX]) bool {
	ids, _ := idx.GetNnsByVector(make([]TV, 2), 5, -1, idx.CreateContext())
	return len(ids) == 0
}

func see[TV interfaces.VectorType, TIX interfaces.IndexTypes](idx interfaces.AnnoyIndex[TV, TIX], n int) (l look[TV, TIX]) {
	ctx := idx.CreateContext()
	qs := append(lab.Probes(2)[1:4], lab.Data("gen", 2, n)...)
	for _, q := range qs[:min(len(qs), 15)] {
		for _, b := range []int{-1, 1, 3, 1000} {
			ids, ds := idx.GetNnsByVector(lab.Conv[TV](q), n, b, ctx)
			l.ids, l.ds = append(l.ids, ids), append(l.ds, ds)
		}
	}
	for i := 0; i < n; i++ {
		l.items = append(l.items, append([]TV(nil), idx.GetItem(TIX(i))...))
		l.items = append(l.items, []TV{idx.GetDistance(0, TIX(i))})
	}
	return
}

func (l look[TV, TIX]) diff(o look[TV, TIX]) string {
	for i := range l.ids {
		if !lab.Eq(l.ids[i], l.ds[i], o.ids[i], o.ds[i]) {
			return fmt.Sprintf("answer %d: %v %v, then %v %v", i, l.ids[i], l.ds[i], o.ids[i], o.ds[i])
		}
	}
	for i := range l.items {
		if !same(l.items[i], o.items[i]) {
			return fmt.Sprintf("item or distance %d: %v, then %v", i, l.items[i], o.items[i])
		}
	}
	return ""
}

func fileIs(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "x.ann"))
	if errors.Is(err, os.ErrNotExist) {
		return "absent"
	}
	if err != nil {
		return err.Error()
	}
	for _, k := range []string{"new", "old", "small"} {
		if w, err := os.ReadFile(filepath.Join(dir, "ref-"+k)); err == nil && bytes.Equal(b, w) {
			return k
		}
	}
	return fmt.Sprintf("%d bytes which are neither the old nor the new contents", len(b))
}

func child09[TV interfaces.VectorType, TIX interfaces.IndexTypes](sp lab.Spec, j *job, r *report) {
	n := nNew
	want := "new"
	if j.Small {
		n, want = nSmall, "small"
	}
	path := filepath.Join(j.Dir, "x.ann")
	if j.Sit == "relative" {
		os.Chdir(j.Dir)
		path = "x.ann"
	}
	idx, _ := lab.Built[TV, TIX](sp, items09(n))
	type other struct {
		idx interfaces.AnnoyIndex[TV, TIX]
		l   look[TV, TIX]
	}
	var others []other
	open := func(loader string, n int) interfaces.AnnoyIndex[TV, TIX] {
		s := sp
		s.Loader = loader
		o := lab.Make[TV, TIX](s)
		if err := o.Load(path); err != nil {
			r.Trouble = "preparation: " + err.Error()
			return nil
		}
		others = append(others, other{o, see(o, n)})
		return o
	}
	if !j.Small {
		switch j.Sit {
		case "own file":
			if err := idx.Save(path); err != nil {
				r.Trouble = "preparation: " + err.Error()
				return
			}
			open("mmap", n)
		case "loaded by all": // this one holds its own index from another file
			if err := idx.Save(filepath.Join(j.Dir, "y.ann")); err != nil {
				r.Trouble = "preparation: " + err.Error()
				return
			}
			open("mmap", nLarge)
			open("gc", nLarge)
		}
	}
	if r.Trouble != "" {
		return
	}
	before := see(idx, n)
	was := fileIs(j.Dir)

	sup, err := fault.Supervise(j.Plan)
	if err != nil {
		r.NoFilter = err.Error()
		if len(j.Plan) > 0 {
			return
		}
	}
	var old syscall.Rlimit
	if j.FSize >= 0 {
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		lim := old
		lim.Cur = uint64(j.FSize)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			r.Trouble = "preparation: " + err.Error()
			return
		}
	}
	var saved error
	sup.Do(func() { saved = idx.Save(path) })
	if sup != nil {
		r.N, r.Names, r.Fired, r.CloseErr = sup.N, sup.Names, sup.Fired, sup.CloseFailed
	}
	if j.FSize >= 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	}
	if saved != nil {
		r.Err = saved.Error()
	}
	r.File = fileIs(j.Dir)
	if r.File == "old" && was == "new" || r.File == "new" && was == "old" && bytesEqual(j.Dir) {
		r.File = "new"
	}
	check := func(when string, wantFile string) bool {
		if f := fileIs(j.Dir); f != wantFile {
			r.Trouble = fmt.Sprintf("%s: file is %s", when, f)
			return false
		}
		if empty(idx) {
			r.Trouble = when + ": the index is empty"
			return false
		}
		if d := before.diff(see(idx, n)); d != "" {
			r.Trouble = when + ": " + d
			return false
		}
		return true
	}
	for i, o := range others {
		if d := o.l.diff(see(o.idx, len(o.l.items)/2)); d != "" {
			r.Trouble = fmt.Sprintf("other index %d, loaded from the file before the save: %s", i, d)
			return
		}
	}
	if empty(idx) {
		r.State = "empty"
		if saved != nil && r.File == want {
			if err := idx.Load(path); err != nil {
				r.Trouble = "load of the complete file after the failed save: " + err.Error()
				return
			}
			if !check("loaded after the failed save", want) {
				return
			}
		}
	} else if d := before.diff(see(idx, n)); d != "" {
		r.State = d
	} else {
		r.State = "same"
	}
	// the index is usable: once more
	if r.State == "same" || r.State == "empty" && r.File == want {
		if err := idx.Save(path); err != nil {
			r.Trouble = "second save: " + err.Error()
			return
		}
		check("after the second save", want)
	}
	// nothing is left when all are closed
	idx.Close()
	for _, o := range others {
		o.idx.Close()
	}
	if r.Trouble == "" && (sup == nil || !sup.Unclosed) {
		if l := leftIn(j.Dir); l != "" {
			r.Trouble = "all closed, but left: " + l
		}
	}
}

// bytesEqual: old and new contents are the same (a save over the own file)
func bytesEqual(dir string) bool {
	a, e1 := os.ReadFile(filepath.Join(dir, "ref-old"))
	b, e2 := os.ReadFile(filepath.Join(dir, "ref-new"))
	return e1 == nil && e2 == nil && bytes.Equal(a, b)
}

// ---- parent side

type lab09 struct {
	c    *rt.Ctx
	ty   int
	sit  string
	dir  string
	old  []byte // nil: no file
	neu  []byte
	smal []byte
	// other is called while the child is stopped at a call whose action is OTHER
	other func()
}

func typeIndex(t *type09) int {
	for i := range types09 {
		if types09[i] == t {
			return i
		}
	}
	panic("type")
}

func prepare09(c *rt.Ctx, t *type09, sit string) *lab09 {
	l := &lab09{c: c, ty: typeIndex(t), sit: sit, dir: filepath.Join(c.Dir, "d"), other: func() {}}
	l.neu, l.smal = t.bytes(c, nNew), t.bytes(c, nSmall)
	switch sit {
	case "larger index", "loaded by all", "relative":
		l.old = t.bytes(c, nLarge)
	case "smaller index":
		l.old = t.bytes(c, nSmall+1)
	case "garbage":
		l.old = pattern(5000, 0x5a)
	case "own file":
		l.old = l.neu
	}
	return l
}

func (l *lab09) reset() {
	os.RemoveAll(l.dir)
	must(l.c, os.MkdirAll(l.dir, 0o755), "scratch directory")
	put := func(n string, b []byte) {
		if b != nil {
			must(l.c, os.WriteFile(filepath.Join(l.dir, n), b, 0o644), "prepare")
		}
	}
	put("ref-new", l.neu)
	put("ref-small", l.smal)
	put("ref-old", l.old)
	put("x.ann", l.old)
	if l.sit == "garbage" || l.sit == "smaller index" { // not the permissions of new files
		must(l.c, os.Chmod(filepath.Join(l.dir, "x.ann"), 0o600), "chmod")
	}
}

var self, _ = os.Executable()

func (l *lab09) run(plan map[int]string, fsize int64, small bool) (r report, killed bool) {
	b, _ := json.Marshal(job{l.dir, l.ty, l.sit, plan, fsize, small})
	cmd := exec.Command(self, "C09child", string(b))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	for _, a := range plan {
		if a == "OTHER" {
			gr, gw, err := os.Pipe()
			must(l.c, err, "pipe")
			ar, aw, err := os.Pipe()
			must(l.c, err, "pipe")
			cmd.ExtraFiles = []*os.File{gr, aw}
			defer ar.Close()
			defer gr.Close()
			done := make(chan any, 1)
			defer func() {
				aw.Close()
				if p := <-done; p != nil {
					panic(p) // a failure of the other
				}
			}()
			go func() {
				defer func() { done <- recover(); gw.Close() }()
				if n, _ := ar.Read(make([]byte, 1)); n == 1 {
					l.other()
					gw.Write([]byte{1})
				}
			}()
		}
	}
	must(l.c, cmd.Start(), "start child")
	t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	late := !t.Stop()
	l.c.Tick()
	if json.Unmarshal(out.Bytes(), &r) == nil && r.Done {
		return r, false
	}
	if late {
		l.c.Fail("save does not end (plan %v, file size limit %d)", plan, fsize)
	}
	wantKill := false
	for _, a := range plan {
		wantKill = wantKill || a == "KILL"
	}
	var ee *exec.ExitError
	if wantKill && errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL {
		return r, true
	}
	l.c.Fail("process ends with %v: %s", err, errb.String())
	return
}

// overlap runs a second process, which saves an index under the same name, at each call of the first.
func overlap09(c *rt.Ctx, t *type09, sit string) {
	for _, small := range []bool{false, true} {
		c.Unit(fmt.Sprintf("%s, %s: saved by two processes at the same time, equal indexes: %v", t.name, sit, !small), func() {
			l := prepare09(c, t, sit)
			for n := 1; n < 60; n++ {
				c.Step(func() string { return fmt.Sprintf("second save at call %d of the first", n) })
				l.reset()
				var r2 report
				l.other = func() {
					sit := l.sit
					l.sit = "no file"
					defer func() { l.sit = sit }()
					r2, _ = l.run(nil, -1, small)
				}
				r, _ := l.run(map[int]string{n: "OTHER"}, -1, false)
				if r.NoFilter != "" {
					c.Note("without_system_call_filter", 1)
					return
				}
				if r.Fired == 0 {
					break
				}
				want := "new"
				if small {
					want = "small"
				}
				fail := func(f string, a ...any) {
					c.Fail("[%s] %s: another process saves at call %d (%s): %s", t.name, sit, n, r.Names[n-1], fmt.Sprintf(f, a...))
				}
				if !r2.Done || r2.Err != "" || r2.File != want || r2.State != "same" || r2.Trouble != "" {
					fail("the second process: error %q, file %s, index %s %s", r2.Err, r2.File, r2.State, r2.Trouble)
				}
				if r.File != "new" && r.File != "small" {
					fail("the file is %s (error %q)", r.File, r.Err)
				}
				if !small && (r.Err != "" || r.State != "same" || r.Trouble != "") {
					fail("error %q, index %s %s", r.Err, r.State, r.Trouble)
				}
				if small && r.Err != "" && r.State != "same" {
					fail("error %q, index %s", r.Err, r.State)
				}
				c.State(1)
				c.Transition(r.N + r2.N)
				c.Trace(1)
				c.Outcome(r.Err != "", r.File, r.State)
			}
		})
	}
}

func planText(plan map[int]string, fsize int64, names []string) string {
	var ks []int
	for k := range plan {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var o []string
	for _, k := range ks {
		s := fmt.Sprintf("call %d: %s", k, plan[k])
		if k <= len(names) {
			s = fmt.Sprintf("call %d (%s): %s", k, names[k-1], plan[k])
		}
		o = append(o, s)
	}
	if fsize >= 0 {
		o = append(o, fmt.Sprintf("disk full after %d bytes", fsize))
	}
	return strings.Join(o, ", ")
}

// try runs one save with faults and judges it. It returns the calls it made.
func (l *lab09) try(plan map[int]string, fsize int64, names []string) (report, bool) {
	c := l.c
	what := planText(plan, fsize, names)
	c.Step(func() string { return what })
	l.reset()
	r, killed := l.run(plan, fsize, false)
	c.State(1)
	c.Transition(r.N + 1)
	c.Trace(1)
	if r.NoFilter != "" {
		c.Note("without_system_call_filter", 1) // this kernel has none: only the file size limits remain
	}
	fail := func(f string, a ...any) {
		c.Fail("[%s] %s: %s: %s", types09[l.ty].name, l.sit, what, fmt.Sprintf(f, a...))
	}
	allowed := func(f string) bool { return f == "new" || f == "old" || f == "absent" && l.old == nil }
	if killed {
		f := fileIs(l.dir)
		if !allowed(f) {
			fail("after the crash the file is %s", f)
		}
		c.Note("crashes", 1)
		c.Outcome("killed", f)
		// the next process saves a smaller index under this name
		r2, _ := l.run(nil, -1, true)
		if r2.Trouble != "" || r2.Err != "" || r2.State != "same" || r2.File != "small" {
			fail("the process that saves after the crash: error %q, file %s, index %s %s", r2.Err, r2.File, r2.State, r2.Trouble)
		}
		return r, true
	}
	if r.Trouble != "" {
		fail("%s (save: %q)", r.Trouble, r.Err)
	}
	if !allowed(r.File) {
		fail("save returns %q, the file is %s", r.Err, r.File)
	}
	if r.Err == "" {
		if r.File != "new" && !(l.sit == "own file" && r.File == "old") {
			fail("save returns no error, the file is %s", r.File)
		}
		if r.State != "same" {
			fail("save returns no error, the index is changed: %s", r.State)
		}
		if r.CloseErr {
			fail("closing the written file failed, but save returns no error")
		}
	} else {
		if r.State != "same" && !(r.State == "empty" && (r.File == "new" || l.sit == "own file")) {
			fail("save returns %q, the file is %s, the index is changed: %s", r.Err, r.File, r.State)
		}
		if r.State == "empty" {
			c.Note("empty_index_after_failed_reading_back", 1)
		}
		c.Note("reported_failures", 1)
	}
	c.Outcome(r.Err != "", r.File, r.State, len(r.Names))
	return r, false
}

func c09faults(c *rt.Ctx, t *type09, sit string) {
	key := t.name + ", " + sit
	kinds := []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "EDQUOT"}
	c.Unit(key+": crash or failure of each call", func() {
		l := prepare09(c, t, sit)
		base, _ := l.try(nil, -1, nil)
		if base.Err != "" {
			c.Fail("save without faults: error %q, %d calls", base.Err, base.N)
		}
		c.NoteMax("system_calls_of_a_save", int64(base.N))
		for n := 1; n <= base.N; n++ {
			if _, killed := l.try(map[int]string{n: "KILL"}, -1, base.Names); !killed {
				c.Note("crash_point_not_reached", 1)
			}
			for _, k := range kinds {
				r, _ := l.try(map[int]string{n: k}, -1, base.Names)
				if r.Fired == 0 {
					c.Note("fault_not_reached", 1)
				}
			}
		}
		c.Sample(func() string { return fmt.Sprintf("calls %v x (KILL, %v)", base.Names, kinds) })
	})
	if sit != "smaller index" && sit != "relative" {
		c.Unit(key+": two faults", func() {
			l := prepare09(c, t, sit)
			for n := 1; n < 40; n++ {
				first, _ := l.try(map[int]string{n: "EIO"}, -1, nil)
				if first.Fired == 0 {
					break
				}
				for m := n + 1; m <= first.N; m++ {
					l.try(map[int]string{n: "EIO", m: "KILL"}, -1, first.Names)
					for i, k := range kinds {
						if i == 0 || c.Thorough {
							l.try(map[int]string{n: "EIO", m: k}, -1, first.Names)
						}
					}
				}
			}
		})
	}
	parts := 4
	for p := 0; p < parts; p++ {
		c.Unit(fmt.Sprintf("%s: disk full, part %d", key, p), func() {
			l := prepare09(c, t, sit)
			full := int64(len(l.neu))
			for k := int64(0); k <= full; k++ {
				if int(k)%parts != p {
					continue
				}
				r, _ := l.try(nil, k, nil)
				if k < full && r.Err == "" && sit != "own file" {
					// fine only if the file was completed, which try has checked
					c.Note("full_disk_not_noticed", 1)
				}
				if c.Thorough || k%5 == 0 || sit == "no file" || k < 3 || k > full-3 {
					for n := 1; n <= r.N; n++ {
						l.try(map[int]string{n: "KILL"}, k, r.Names)
						if c.Thorough && n > 1 {
							l.try(map[int]string{n: "EIO"}, k, r.Names)
						}
					}
				}
				if c.Cut() {
					return
				}
			}
			c.Sample(func() string { return fmt.Sprintf("limits 0..%d bytes x crash at every call", full) })
		})
	}
}

// ---- in this process

func targets09[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, name string, sp lab.Spec) {
	for state := 0; state < 3; state++ { // built, loaded with mmap, loaded with gc
		c.Unit(fmt.Sprintf("%s: unwritable targets, state %d", name, state), func() {
			os.RemoveAll(c.Dir)
			must(c, os.MkdirAll(filepath.Join(c.Dir, "dir/sub"), 0o755), "scratch")
			must(c, os.MkdirAll(filepath.Join(c.Dir, "emptydir"), 0o755), "scratch")
			plain := filepath.Join(c.Dir, "plain")
			must(c, os.WriteFile(plain, []byte("plain"), 0o644), "scratch")
			good := filepath.Join(c.Dir, "good.ann")
			b, _ := lab.Built[TV, TIX](sp, items09(nLarge))
			ref := see(b, nLarge)
			must(c, b.Save(good), "save")
			b.Close()
			for _, target := range []string{filepath.Join(c.Dir, "dir"), filepath.Join(c.Dir, "emptydir"), c.Dir,
				filepath.Join(c.Dir, "no/where"), plain + "/x", filepath.Join(c.Dir, strings.Repeat("x", 300)), "", "a\x00b", "/"} {
				c.Step(func() string { return fmt.Sprintf("save to %q", target) })
				x := lab.Make[TV, TIX](lab.Spec{Metric: sp.Metric, Dim: 2, T: sp.T, MaxK: sp.MaxK, Loader: []string{sp.Loader, "mmap", "gc"}[state]})
				if state == 0 {
					lab.Fill(x, sp, items09(nLarge))
					x.Build(sp.T, 1)
				} else {
					must(c, x.Load(good), "load")
				}
				held := left(c)
				for k := 0; k < 2; k++ {
					if err := x.Save(target); err == nil {
						c.Fail("[%s] save to %q gives no error", name, target)
					}
					if h := left(c); h != held {
						c.Fail("[%s] failed save to %q: open before %q, after %q", name, target, held, h)
					}
					if empty(x) {
						c.Fail("[%s] failed save to %q leaves the index empty", name, target)
					}
					if d := ref.diff(see(x, nLarge)); d != "" {
						c.Fail("[%s] failed save to %q: %s", name, target, d)
					}
				}
				for _, d := range []string{"dir/sub", "emptydir"} {
					if fi, err := os.Stat(filepath.Join(c.Dir, d)); err != nil || !fi.IsDir() {
						c.Fail("[%s] save to %q: directory %s is damaged", name, target, d)
					}
				}
				if b, _ := os.ReadFile(plain); string(b) != "plain" {
					c.Fail("[%s] save to %q: the plain file is damaged", name, target)
				}
				ok := filepath.Join(c.Dir, "ok.ann")
				must(c, x.Save(ok), "save after the failed ones")
				if d := ref.diff(see(x, nLarge)); d != "" {
					c.Fail("[%s] saved after failed save to %q: %s", name, target, d)
				}
				x.Close()
				c.State(1)
				c.Transition(3)
				c.Trace(1)
				c.Outcome(target, state)
				c.Tick()
			}
		})
	}
}

// modes09: a file keeps its permissions.
func modes09[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, name string, sp lab.Spec) {
	c.Unit(name+": permissions", func() {
		p := filepath.Join(c.Dir, "mode.ann")
		for _, mode := range []os.FileMode{0o600, 0o644, 0o640, 0o444, 0o666, 0o700, 0o755, 0o604} {
			for _, n := range []int{0, nSmall, nNew, nLarge} { // size of the old file
				for k := 0; k < 3; k++ { // built, loaded from another file, loaded from this one
					if n == 0 && k == 2 {
						continue
					}
					c.Step(func() string { return fmt.Sprintf("mode %o, old file of %d items, state %d", mode, n, k) })
					os.Remove(p)
					if n == 0 {
						must(c, os.WriteFile(p, []byte("other"), 0o600), "scratch")
					} else {
						o, _ := lab.Built[TV, TIX](sp, items09(n))
						must(c, o.Save(p), "save")
						o.Close()
					}
					must(c, os.Chmod(p, mode), "chmod")
					x, _ := lab.Built[TV, TIX](sp, items09(nNew))
					if k > 0 {
						must(c, x.Save(filepath.Join(c.Dir, "from.ann")), "save")
					}
					if k == 2 {
						must(c, x.Load(p), "load")
					}
					for i := 0; i < 2; i++ {
						must(c, x.Save(p), "save")
						st, err := os.Stat(p)
						must(c, err, "stat")
						if st.Mode().Perm() != mode {
							c.Fail("[%s] a file with permissions %o has %o after save %d", name, mode, st.Mode().Perm(), i+1)
						}
						c.Transition(1)
					}
					x.Close()
					c.State(1)
					c.Trace(1)
					c.Outcome(mode, n, k)
					c.Tick()
				}
			}
		}
	})
}

func over09[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, name string, sp lab.Spec) {
	loaders := []string{"mmap", "gc"}
	for k := 1; k <= 3; k++ { // indexes that have loaded the file
		c.Unit(fmt.Sprintf("%s: saves over a file loaded by %d", name, k), func() {
			os.RemoveAll(c.Dir)
			must(c, os.MkdirAll(filepath.Join(c.Dir, "sub"), 0o755), "scratch")
			path := filepath.Join(c.Dir, "x.ann")
			y := filepath.Join(c.Dir, "y.ann")
			spellings := []string{path, filepath.Join(c.Dir) + "/sub/../x.ann", filepath.Join(c.Dir, "link"), filepath.Join(c.Dir, "hard"), c.Dir + "//x.ann"}
			mk := func(loader string) interfaces.AnnoyIndex[TV, TIX] {
				s := sp
				s.Loader = loader
				return lab.Make[TV, TIX](s)
			}
			built := func(n int) interfaces.AnnoyIndex[TV, TIX] {
				x := mk(sp.Loader)
				lab.Fill(x, sp, items09(n))
				x.Build(sp.T, 1)
				return x
			}
			for _, nOld := range []int{1, nNew, 30} {
				for _, nSave := range []int{1, nNew, 30, 120} {
					for mask := 0; mask < 1<<k; mask++ {
						for kind := 0; kind < 4; kind++ { // saver: built, loaded from y (mmap, gc), one that has loaded x
							for si, spell := range spellings {
								c.Step(func() string {
									return fmt.Sprintf("%d items replaced by %d, loaders %b, saver kind %d, name %q", nOld, nSave, mask, kind, spell)
								})
								os.Remove(path)
								os.Remove(spellings[2])
								os.Remove(spellings[3])
								o := built(nOld)
								must(c, o.Save(path), "save")
								o.Close()
								must(c, os.Symlink(path, spellings[2]), "link")
								must(c, os.Link(path, spellings[3]), "link")
								var ls []interfaces.AnnoyIndex[TV, TIX]
								var looks []look[TV, TIX]
								for i := 0; i < k; i++ {
									x := mk(loaders[mask>>i&1])
									must(c, x.Load(spellings[(si+i)%len(spellings)]), "load")
									ls = append(ls, x)
									looks = append(looks, see(x, nOld))
								}
								saver := ls[0]
								n := nOld
								if kind < 3 {
									saver = built(nSave)
									n = nSave
									if kind > 0 {
										must(c, saver.Save(y), "save")
										saver.Close()
										saver = mk(loaders[kind-1])
										must(c, saver.Load(y), "load")
									}
								}
								mine := see(saver, n)
								for round := 0; round < 2; round++ {
									must(c, saver.Save(spell), "save")
									for i, x := range ls {
										if d := looks[i].diff(see(x, nOld)); d != "" {
											c.Fail("[%s] %d items replaced by %d under the name %q: index %d (%s), which had loaded the file: %s",
												name, nOld, n, spell, i, loaders[mask>>i&1], d)
										}
									}
									if d := mine.diff(see(saver, n)); d != "" {
										c.Fail("[%s] the saving index: %s", name, d)
									}
								}
								for i, x := range ls {
									must(c, x.Load(spell), "load again")
									if d := mine.diff(see(x, n)); d != "" {
										c.Fail("[%s] index %d loads the new file: %s", name, i, d)
									}
									x.Close()
								}
								saver.Close()
								c.State(1)
								c.Transition(2*k + 4)
								c.Trace(1)
								c.Outcome(nOld, n, mask, kind)
								c.Tick()
							}
						}
					}
				}
			}
		})
	}
}

// near09: a save touches no other file of the directory, whatever it is called, and leaves none behind.
func near09[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, name string, sp lab.Spec) {
	names := []string{"x.ann", "x", "a b c", "x.tmp", "ünïcode.ann", ".hidden", strings.Repeat("n", 200), strings.Repeat("l", 255)}
	for ni, base := range names {
		c.Unit(fmt.Sprintf("%s: names near %.20q (%d)", name, base, len(base)), func() {
			os.RemoveAll(c.Dir)
			must(c, os.MkdirAll(c.Dir, 0o755), "scratch")
			path := filepath.Join(c.Dir, base)
			var near []string
			for _, f := range []string{"%s.tmp", "%s.tmp.tmp", "%s~", "%s.bak", "%s.new", "%s.old", "%s.0", "%s.1", "%s.0.tmp", "%s.1.tmp", "%s.part", "%s.lock", "%s.swp",
				".%s", ".%s.tmp", ".%s.swp", "tmp.%s", "_%s", "%s_", "#%s#", "%s.ann", "%s2", "tmp", "temp", "index.tmp", ".tmp", "%s.temp", "%s.save", "%s-tmp"} {
				n := f
				if strings.Contains(f, "%") {
					n = fmt.Sprintf(f, base)
				}
				if n != base && len(n) <= 255 {
					near = append(near, n)
				}
			}
			type neighbour struct {
				path  string
				bytes []byte
				idx   interfaces.AnnoyIndex[TV, TIX]
				look  look[TV, TIX]
				n     int
			}
			mk := func(loader string) interfaces.AnnoyIndex[TV, TIX] {
				s := sp
				s.Loader = loader
				return lab.Make[TV, TIX](s)
			}
			b, _ := lab.Built[TV, TIX](sp, items09(nNew))
			mine := see(b, nNew)
			saver := []interfaces.AnnoyIndex[TV, TIX]{b, mk("mmap"), mk("gc")}
			src := filepath.Join(c.Dir, "source of the savers")
			s2, _ := lab.Built[TV, TIX](sp, items09(nNew))
			must(c, s2.Save(src), "save")
			s2.Close()
			must(c, saver[1].Load(src), "load")
			must(c, saver[2].Load(src), "load")
			ns := []*neighbour{{path: src, n: nNew}}
			for i, n := range near {
				x := &neighbour{path: filepath.Join(c.Dir, n), n: 1 + i%20}
				o, _ := lab.Built[TV, TIX](sp, items09(x.n))
				must(c, o.Save(x.path), "save a neighbour")
				o.Close()
				ns = append(ns, x)
			}
			for i, x := range ns {
				x.idx = mk([]string{"mmap", "gc"}[(i+ni)%2])
				must(c, x.idx.Load(x.path), "load a neighbour")
				x.look = see(x.idx, x.n)
				var err error
				x.bytes, err = os.ReadFile(x.path)
				must(c, err, "read")
			}
			for k := 0; k < 3; k++ {
				for si, s := range saver {
					c.Step(func() string { return fmt.Sprintf("save number %d of saver %d as %q", k, si, base) })
					must(c, s.Save(path), "save")
					if d := mine.diff(see(s, nNew)); d != "" {
						c.Fail("[%s] the saving index: %s", name, d)
					}
					for _, x := range ns {
						if b, err := os.ReadFile(x.path); err != nil || !bytes.Equal(b, x.bytes) {
							c.Fail("[%s] saving as %q changes the file %q (%v)", name, base, filepath.Base(x.path), err)
						}
						if d := x.look.diff(see(x.idx, x.n)); d != "" {
							c.Fail("[%s] saving as %q: the index of file %q: %s", name, base, filepath.Base(x.path), d)
						}
					}
					ents, err := os.ReadDir(c.Dir)
					must(c, err, "list")
					if len(ents) != len(ns)+1 {
						var l []string
						for _, e := range ents {
							l = append(l, e.Name())
						}
						c.Fail("[%s] saving as %q leaves other files: %q", name, base, l)
					}
					c.State(1)
					c.Transition(len(ns))
					c.Outcome(base, k, si)
					c.Tick()
				}
			}
			// and the names that the saves choose themselves: other files may be called like that
			foreign := map[string][]byte{}
			for round := 0; round < 4; round++ {
				for si, s := range saver {
					c.Step(func() string {
						return fmt.Sprintf("round %d of saver %d as %q, next to %d files", round, si, base, len(foreign))
					})
					var made []string
					var serr error
					made = watched(c.Dir, func() { serr = s.Save(path) })
					if d := mine.diff(see(s, nNew)); d != "" {
						c.Fail("[%s] the saving index (%v): %s", name, serr, d)
					}
					for n, want := range foreign {
						if b, err := os.ReadFile(filepath.Join(c.Dir, n)); err != nil || !bytes.Equal(b, want) {
							c.Fail("[%s] saving as %q destroys the file %q (%v), which another program may have made", name, base, n, err)
						}
						c.Eval(1)
					}
					for _, n := range made {
						if n == base {
							continue
						}
						for _, f := range append(counted(n), n) {
							b := []byte("this is " + f)
							if _, known := foreign[f]; !known && f != base && len(foreign) < 60 {
								if _, err := os.Lstat(filepath.Join(c.Dir, f)); err == nil {
									if f == n {
										c.Fail("[%s] saving as %q leaves the file %q", name, base, n)
									}
									continue
								}
								must(c, os.WriteFile(filepath.Join(c.Dir, f), b, 0o600), "write")
								foreign[f] = b
							}
						}
					}
					c.State(1)
					c.Tick()
				}
			}
			for _, x := range ns {
				x.idx.Close()
			}
			for _, s := range saver {
				s.Close()
			}
			c.Trace(1)
		})
	}
}

// watched lists the names that are created in a directory while f runs.
func watched(dir string, f func()) (names []string) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		f()
		return nil
	}
	defer syscall.Close(fd)
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MOVED_TO)
	f()
	if err != nil {
		return nil
	}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if n <= 0 || err != nil {
			return
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			l := int(binary.LittleEndian.Uint32(b[12:]))
			names = append(names, strings.TrimRight(string(b[16:16+l]), "\x00"))
			b = b[16+l:]
		}
	}
}

// counted are names with one of their numbers one or two higher.
func counted(name string) (out []string) {
	for i := 0; i < len(name); {
		j := i
		for j < len(name) && name[j] >= '0' && name[j] <= '9' {
			j++
		}
		if j > i && j-i < 18 {
			v, _ := strconv.ParseInt(name[i:j], 10, 64)
			for d := int64(1); d <= 2; d++ {
				out = append(out, fmt.Sprintf("%s%0*d%s", name[:i], j-i, v+d, name[j:]))
			}
		}
		if j == i {
			j++
		}
		i = j
	}
	return
}
