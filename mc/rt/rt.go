// Package rt is the runtime of the bounded exhaustive explorers: it splits the enumeration of a
// check over worker processes, watches them (a crash or a hang of the code under test is a verdict,
// not an accident of the checker), confirms each violation by re-running its unit in fresh
// processes, and writes the evidence file.
package rt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's exploration.
type Check struct {
	ID          string
	Rule        string // how the space is made
	Oracle      string // what is compared in each state
	Assumptions []string
	Workers     int  // 0: one per CPU
	Procs       int  // GOMAXPROCS of a worker, 0: 2
	BigVM       bool // do not limit the address space of the workers
	Run         func(c *Ctx)
}

// Ctx is handed to a check's Run in a worker process.
type Ctx struct {
	ID       string
	Thorough bool
	Dir      string // scratch directory of this worker

	shard, shards int
	only          string
	trace         bool
	unitIdx       int
	ranUnits      int
	cur           string
	detail        string
	lastKey       string
	deadline      time.Time
	cut           bool
	journal       []byte
	known         []knownFinding
	res           result
	outcomes      map[uint64]struct{}
	sampleEvery   int
}

type result struct {
	Units       int
	States      int64
	Transitions int64
	Traces      int64
	Evals       int64
	Outcomes    []uint64
	Samples     []string
	Cut         bool
	Notes       map[string]int64
	MaxNotes    map[string]int64
	Violation   *violation
	Known       []string
	Finished    bool
}

type violation struct {
	UnitIdx int
	Unit    string
	Detail  string
	Msg     string
}

type knownFinding struct{ property, match, what string }

type failure struct{ msg string }

// Fail reports that the property does not hold in the current unit and case, and ends the unit.
func (c *Ctx) Fail(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Step describes the case that is executed next. The description is only made when replaying.
func (c *Ctx) Step(f func() string) {
	if c.trace {
		c.detail = f()
		c.writeJournal()
	}
}

// Tick tells the watchdog that the exploration makes progress.
func (c *Ctx) Tick() {
	b := c.journal
	binary.LittleEndian.PutUint64(b, binary.LittleEndian.Uint64(b)+1)
}

func (c *Ctx) State(n int)      { c.res.States += int64(n) }
func (c *Ctx) Transition(n int) { c.res.Transitions += int64(n) }
func (c *Ctx) Trace(n int)      { c.res.Traces += int64(n) }
func (c *Ctx) Eval(n int)       { c.res.Evals += int64(n) }

// Note adds to a named counter which ends up in the evidence.
func (c *Ctx) Note(name string, n int64) { c.res.Notes[name] += n }

// NoteMax keeps the maximum of a named figure.
func (c *Ctx) NoteMax(name string, n int64) {
	if v, ok := c.res.MaxNotes[name]; !ok || n > v {
		c.res.MaxNotes[name] = n
	}
}

// Outcome records an observed outcome, distinct ones are counted.
func (c *Ctx) Outcome(v ...any) {
	if len(c.outcomes) < 200000 {
		h := fnv.New64a()
		fmt.Fprint(h, v...)
		c.outcomes[h.Sum64()] = struct{}{}
	}
}

// OutcomeHash is Outcome for an already hashed value.
func (c *Ctx) OutcomeHash(h uint64) {
	if len(c.outcomes) < 200000 {
		c.outcomes[h] = struct{}{}
	}
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(f func() string) {
	if len(c.res.Samples) < 2 {
		s := f()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.res.Samples = append(c.res.Samples, c.cur+": "+s)
	}
}

// Cut reports whether the time budget is used up (the run is then not exhaustive).
func (c *Ctx) Cut() bool {
	if !c.cut && c.only == "" && time.Now().After(c.deadline) {
		c.cut = true
		c.res.Cut = true
	}
	return c.cut
}

func (c *Ctx) writeJournal() {
	b := c.journal
	s := c.cur + "\x00" + c.detail
	if len(s) > len(b)-16 {
		s = s[:len(b)-16]
	}
	binary.LittleEndian.PutUint64(b[8:], uint64(len(s)))
	copy(b[16:], s)
	c.Tick()
}

// Unit runs one unit of the enumeration, if it belongs to this worker. Keys are unique.
func (c *Ctx) Unit(key string, f func()) {
	idx := c.unitIdx
	c.unitIdx++
	if c.only != "" {
		if key != c.only {
			return
		}
	} else if idx%c.shards != c.shard || c.res.Violation != nil || c.Cut() {
		return
	}
	c.cur, c.detail = key, ""
	c.writeJournal()
	start := time.Now()
	msg := c.guard(f)
	if fn := os.Getenv("VERIF_UNITLOG"); fn != "" {
		if f, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "%8.2f s %s %s\n", time.Since(start).Seconds(), c.ID, key)
			f.Close()
		}
	}
	c.res.Units++
	if msg == "" {
		return
	}
	for _, k := range c.known {
		if k.property == c.ID && strings.Contains(key+" "+msg, k.match) {
			c.res.Known = append(c.res.Known, k.what)
			return
		}
	}
	c.res.Violation = &violation{idx, key, c.detail, msg}
}

// Mine tells whether the next Unit would be executed by this worker: to skip costly preparation.
func (c *Ctx) Mine(key string) bool {
	if c.only != "" {
		return key == c.only
	}
	return c.unitIdx%c.shards == c.shard && c.res.Violation == nil
}

func (c *Ctx) guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(failure); ok {
				msg = v.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
			}
		}
	}()
	f()
	return ""
}

// Panics runs f and returns what it panicked with (nil: it did not). Failures pass through.
func Panics(f func()) (r any) {
	defer func() {
		r = recover()
		if v, ok := r.(failure); ok {
			panic(v)
		}
	}()
	f()
	return nil
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------------------------------------

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const hangAfter = 60 * time.Second

// Main is the entry point of an explorer binary: BIN <property> [quick|thorough] [--only unit]
func Main(checks ...*Check) {
	args := os.Args[1:]
	if len(args) == 0 {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		os.Exit(2)
	}
	var chk *Check
	for _, c := range checks {
		if c.ID == args[0] {
			chk = c
		}
	}
	if chk == nil {
		fmt.Println("no such check", args[0])
		os.Exit(2)
	}
	tier, only, worker := env("VERIF_TIER", "quick"), "", ""
	for i := 1; i < len(args); i++ {
		switch args[i] {
		case "quick", "thorough":
			tier = args[i]
		case "--only":
			i++
			only = args[i]
		case "--worker":
			i++
			worker = args[i]
		}
	}
	if worker != "" {
		runWorker(chk, tier, only, worker)
		return
	}
	os.Exit(runParent(chk, tier, only))
}

// ---- worker

func runWorker(chk *Check, tier, only, worker string) {
	// worker = shard/shards:dir:deadlineUnix:trace
	p := strings.Split(worker, ":")
	sh := strings.Split(p[0], "/")
	shard, _ := strconv.Atoi(sh[0])
	shards, _ := strconv.Atoi(sh[1])
	dl, _ := strconv.ParseInt(p[2], 10, 64)

	jf, err := os.OpenFile(filepath.Join(p[1], "journal"), os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	journal, err := syscall.Mmap(int(jf.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	if !chk.BigVM {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30})
	}
	debug.SetPanicOnFault(true)
	debug.SetGCPercent(400)
	if chk.Procs == 0 {
		chk.Procs = 2
	}
	runtime.GOMAXPROCS(chk.Procs)
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null // verbose logging of the code under test
	}
	c := &Ctx{
		ID: chk.ID, Thorough: tier == "thorough", Dir: filepath.Join(p[1], "scratch"),
		shard: shard, shards: shards, only: only, trace: p[3] == "1",
		deadline: time.Unix(dl, 0), journal: journal, known: loadKnown(),
		outcomes: map[uint64]struct{}{},
	}
	c.res.Notes = map[string]int64{}
	c.res.MaxNotes = map[string]int64{}
	os.MkdirAll(c.Dir, 0o755)
	if pf := os.Getenv("VERIF_PPROF"); pf != "" && shard == 0 {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if msg := c.guard(func() { chk.Run(c) }); msg != "" && c.res.Violation == nil {
		// outside of any unit: the enumeration itself failed
		c.res.Violation = &violation{c.unitIdx, "(enumeration)", c.cur, msg}
	}
	for h := range c.outcomes {
		c.res.Outcomes = append(c.res.Outcomes, h)
	}
	c.res.Finished = true
	b, _ := json.Marshal(c.res)
	if err := os.WriteFile(filepath.Join(p[1], "result"), b, 0o644); err != nil {
		panic(err)
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

// ---- parent

type run struct {
	res    *result
	unit   string
	detail string
	died   string // non-empty: crash or hang
	log    string
}

func spawn(chk *Check, tier, only string, shard, shards int, base string, deadline time.Time, trace bool) (r run) {
	dir, err := os.MkdirTemp(base, "w")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	jp := filepath.Join(dir, "journal")
	if err := os.WriteFile(jp, make([]byte, 1<<16), 0o644); err != nil {
		panic(err)
	}
	jf, err := os.OpenFile(jp, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	journal, err := syscall.Mmap(int(jf.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	jf.Close()
	if err != nil {
		panic(err)
	}
	defer syscall.Munmap(journal)

	tr := "0"
	if trace {
		tr = "1"
	}
	exe, _ := os.Executable()
	args := []string{chk.ID, tier}
	if only != "" {
		args = append(args, "--only", only)
	}
	args = append(args, "--worker", fmt.Sprintf("%d/%d:%s:%d:%s", shard, shards, dir, deadline.Unix(), tr))
	cmd := exec.Command(exe, args...)
	logf, _ := os.Create(filepath.Join(dir, "log"))
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
	hang := false
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if h := *(*uint64)(unsafe.Pointer(&journal[0])); h != last {
				last, lastT = h, time.Now()
			} else if time.Since(lastT) > hangAfter {
				hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // left-over children
	logf.Close()
	lb, _ := os.ReadFile(filepath.Join(dir, "log"))
	r.log = trim(string(lb), 6000)
	n := binary.LittleEndian.Uint64(journal[8:])
	if n <= 1<<16-16 {
		s := strings.SplitN(string(journal[16:16+n]), "\x00", 2)
		r.unit = s[0]
		if len(s) > 1 {
			r.detail = s[1]
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
		var res result
		if json.Unmarshal(b, &res) == nil && res.Finished {
			r.res = &res
			return
		}
	}
	if hang {
		r.died = fmt.Sprintf("hang: no progress for %v", hangAfter)
	} else {
		r.died = fmt.Sprintf("crash: %v", werr)
	}
	return
}

// verdict of a run: "" if fine
func (r run) verdict() (unit, detail, msg string) {
	if r.res != nil {
		if v := r.res.Violation; v != nil {
			return v.Unit, v.Detail, v.Msg
		}
		return "", "", ""
	}
	return r.unit, r.detail, r.died + "\n" + r.log
}

func runParent(chk *Check, tier, only string) int {
	start := time.Now()
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 720 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := start.Add(budget)
	tmp := env("VERIF_TMP", "/dev/shm")
	if _, err := os.Stat(tmp); err != nil {
		tmp = os.TempDir()
	}
	base, err := os.MkdirTemp(tmp, "vmc-"+chk.ID+"-")
	if err != nil {
		base, err = os.MkdirTemp("", "vmc-"+chk.ID+"-")
		if err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(base)

	n := chk.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if only != "" {
		n = 1
	}
	runs := make([]run, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = spawn(chk, tier, only, i, n, base, deadline, only != "")
		}(i)
	}
	wg.Wait()

	total := result{Notes: map[string]int64{}, MaxNotes: map[string]int64{}}
	outcomes := map[uint64]struct{}{}
	known := map[string]bool{}
	type cand struct {
		idx               int
		unit, detail, msg string
		shard             int
	}
	var cands []cand
	for i, r := range runs {
		if u, d, m := r.verdict(); m != "" {
			idx := math.MaxInt32
			if r.res != nil {
				idx = r.res.Violation.UnitIdx
			}
			cands = append(cands, cand{idx, u, d, m, i})
		}
		if r.res == nil {
			continue
		}
		total.Units += r.res.Units
		total.States += r.res.States
		total.Transitions += r.res.Transitions
		total.Traces += r.res.Traces
		total.Evals += r.res.Evals
		total.Cut = total.Cut || r.res.Cut
		for _, h := range r.res.Outcomes {
			outcomes[h] = struct{}{}
		}
		for k, v := range r.res.Notes {
			total.Notes[k] += v
		}
		for k, v := range r.res.MaxNotes {
			if o, ok := total.MaxNotes[k]; !ok || v > o {
				total.MaxNotes[k] = v
			}
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.res.Samples...)
		}
		for _, k := range r.res.Known {
			known[k] = true
		}
	}
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].idx < cands[j].idx })

	// Confirm: the same unit alone, in fresh processes. Then (state carried over between units,
	// memory corruption) the same shard again.
	violations, unconfirmed := 0, 0
	exit := 0
	for ci, cd := range cands {
		if ci >= 3 {
			break
		}
		again := 0
		const tries = 5
		det := cd
		for k := 0; k < tries; k++ {
			if strings.HasPrefix(cd.msg, "hang") && k >= 2 {
				break
			}
			r := spawn(chk, tier, cd.unit, 0, 1, base, deadline, true)
			if u, d, m := r.verdict(); m != "" {
				again++
				det = cand{cd.idx, u, d, m, cd.shard}
			}
		}
		mode := "unit"
		if again == 0 {
			mode = "shard"
			r := spawn(chk, tier, "", cd.shard, n, base, time.Now().Add(budget), false)
			if u, d, m := r.verdict(); m != "" {
				again++
				det = cand{cd.idx, u, d, m, cd.shard}
			}
		}
		if again == 0 {
			unconfirmed++
			fmt.Printf("note: unit %q failed once and not again (%s)\n", cd.unit, trim(cd.msg, 300))
			continue
		}
		violations++
		rp := writeReplay(chk.ID, tier, mode, det.unit, det.detail, det.msg, again, cd.shard, n)
		fmt.Printf("property %s does not hold\n  unit:   %s\n  case:   %s\n  what:   %s\n  confirmed %d time(s) in fresh processes (%s)\n",
			chk.ID, det.unit, trim(det.detail, 2000), trim(det.msg, 2000), again, mode)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, rp)
		exit = 1
		break
	}
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k)
	}
	writeEvidence(chk, tier, total, len(outcomes), n, violations, unconfirmed, time.Since(start), len(cands) > 0)
	fmt.Printf("%s %s: units=%d states=%d transitions=%d traces=%d evaluations=%d outcomes=%d exhaustive=%v violations=%d (%.1fs)\n",
		chk.ID, tier, total.Units, total.States, total.Transitions, total.Traces, total.Evals, len(outcomes),
		!total.Cut && len(cands) == 0, violations, time.Since(start).Seconds())
	return exit
}

func root() string { return env("VERIF_ROOT", "/verif") }

func writeReplay(id, tier, mode, unit, detail, msg string, confirmed, shard, shards int) string {
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, id+".json")
	cmd := fmt.Sprintf("./check.sh %s %s --only %q", id, tier, unit)
	if mode == "shard" {
		cmd = fmt.Sprintf("./check.sh %s %s   # shard %d of %d", id, tier, shard, shards)
	}
	b, _ := json.MarshalIndent(map[string]any{
		"property": id, "tier": tier, "unit": unit, "case": detail, "what": msg,
		"confirmed": confirmed, "mode": mode, "replay_cmd": cmd,
	}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(chk *Check, tier string, t result, outcomes, workers, violations, unconfirmed int, wall time.Duration, stopped bool) {
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	samples := []string{}
	for _, s := range t.Samples {
		if len(samples) < 4 {
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"states": t.States, "transitions": t.Transitions, "traces_validated_against_impl": t.Traces,
		"distinct_outcomes": outcomes, "units": t.Units,
		"rule": chk.Rule, "oracle": chk.Oracle, "samples": samples,
		"exhaustive": !t.Cut && !stopped, "worker_processes": workers, "unconfirmed_failures": unconfirmed,
	}
	if t.Evals > 0 && t.Evals != t.Transitions && t.Evals != t.States {
		cov["evaluations"] = t.Evals
	}
	for k, v := range t.Notes {
		cov[k] = v
	}
	for k, v := range t.MaxNotes {
		cov[k] = v
	}
	ev := map[string]any{
		"property": chk.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": chk.Assumptions, "wall_s": math.Round(wall.Seconds()*100) / 100,
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
}

// known_findings.txt: "known: property=C05 match=<text of unit/message> | <what fails>"
func loadKnown() (out []knownFinding) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		p := strings.SplitN(l, " match=", 2)
		if len(p) != 2 {
			continue
		}
		q := strings.SplitN(p[1], " | ", 2)
		if len(q) == 2 && q[0] != "" {
			out = append(out, knownFinding{p[0], q[0], q[1]})
		}
	}
	return
}
