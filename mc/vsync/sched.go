// Package vsync replaces package sync (and go statements) in the code under test: a controlled
// scheduler runs one goroutine at a time and decides at every acquire of a lock, wait, start and
// explicit point which one continues, so that all interleavings of these can be enumerated.
//
// The hand-over from one goroutine to the next creates no happens-before edges: it is plain memory,
// polled in functions that the race detector does not look at (GOMAXPROCS is 1). All edges the
// detector sees are those of the real sync primitives, which are used as well, once the scheduler has
// established that they do not block. Hence a conflict which is not ordered by the program's own
// synchronisation is reported whichever way the two accesses were ordered in time.
package vsync

import (
	"runtime"
	"time"
	"unsafe"
)

func getg() uintptr

const (
	maxThreads = 4096
	maxSleep   = 64 // threads beyond never sleep
	maxCand    = 12 // alternatives of a decision
)

const (
	stFree  = iota
	stReady // waits for its turn
	stRun   // has the turn
	stOut   // blocked natively (channel, foreign lock): outside of the control
	stDone
)

const (
	opNone = iota
	opStart
	opPoint
	opLock  // Mutex.Lock
	opRLock // RWMutex.RLock
	opWLock // RWMutex.Lock: announce
	opWWait // RWMutex.Lock: wait for the readers
	opWait  // WaitGroup.Wait
	opOnce
	opCond
	opAtomic
)

var opNames = [...]string{"none", "start", "point", "lock", "rlock", "wlock", "wlock-readers", "wait", "once", "cond", "atomic"}

type thread struct {
	g     uintptr
	id    uint64 // of the goroutine
	state int
	op    int
	obj   unsafe.Pointer
	same  int // consecutive steps
	gen   int // of the WaitGroup it waits for, -1: does not wait for one
}

const maxDepth = 1 << 17

type node struct {
	thread   int16 // chosen
	n        int8  // candidates
	pos      int8
	cand     [maxCand]int16
	ops      [maxCand]int8
	objs     [maxCand]uintptr // identity of the object (order of first use)
	sleep    uint64           // threads asleep on entry
	sleepOp  [maxSleep]int8
	sleepObj [maxSleep]uintptr
}

var (
	active   bool
	cur      int // thread that has the turn, -1: nobody
	nthreads int
	used     int // entries of threads that are not zero
	threads  [maxThreads]thread
	rounds   int
	steps    int
	outs     int

	depth     int // number of decisions so far
	preempt   int
	bound     int // -1: unbounded with sleep sets
	replay    int // decisions below are given
	stack     []node
	sleep     uint64
	sleepOp   [maxSleep]int8
	sleepObj  [maxSleep]uintptr
	redundant bool
	overflow  bool
	dead      bool
	spin      bool
	objIDs    [512]unsafe.Pointer
	nObjs     int
	finished  bool
	tooMany   bool
	traceBuf  [1 << 13]int32
	traceLen  int
	everOut   int
)

//go:norace
func self() int {
	if !active {
		return -1
	}
	g := getg()
	for i := 0; i < nthreads; i++ {
		if threads[i].g == g && threads[i].state != stDone {
			return i
		}
	}
	return -1
}

//go:norace
func controlled() bool { return self() >= 0 }

// objects are identified by the order of their first use: stable over executions
//
//go:norace
func objID(p unsafe.Pointer) uintptr {
	if p == nil {
		return 0
	}
	for i := 0; i < nObjs; i++ {
		if objIDs[i] == p {
			return uintptr(i + 1)
		}
	}
	if nObjs < len(objIDs) {
		objIDs[nObjs] = p
		nObjs++
		return uintptr(nObjs)
	}
	return 999
}

//go:norace
func enabled(t *thread) bool {
	if t.state != stReady {
		return false
	}
	switch t.op {
	case opLock:
		return !(*Mutex)(t.obj).held
	case opRLock, opWLock:
		return !(*RWMutex)(t.obj).w
	case opWWait:
		return (*RWMutex)(t.obj).readers == 0
	case opWait:
		w := (*WaitGroup)(t.obj)
		return w.n <= 0 || t.gen >= 0 && t.gen != w.gen // released, even if in use again
	case opOnce:
		return !(*Once)(t.obj).running
	case opCond:
		return (*waiter)(t.obj).signalled
	}
	return true
}

//go:norace
func dependent(op1 int8, o1 uintptr, op2 int8, o2 uintptr) bool {
	if op1 == opStart || op2 == opStart {
		return false
	}
	if op1 == opPoint && op2 == opPoint {
		return o1 == o2
	}
	if op1 == opPoint || op2 == opPoint {
		return false
	}
	if o1 != o2 {
		return false
	}
	return !(op1 == opRLock && op2 == opRLock)
}

// pick hands the turn to the next thread. me: the thread that gives it up (-1: none).
//
//go:norace
func pick(me int) {
	if outs > 0 { // let the ones that can come back do so
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	}
	rounds = 0
	steps++
	var cand [maxCand]int16
	n := 0
	meOK := me >= 0 && enabled(&threads[me])
	if meOK {
		cand[0] = int16(me)
		n = 1
	}
	for i := 0; i < nthreads; i++ {
		if i != me && enabled(&threads[i]) {
			if n == maxCand {
				tooMany = true
				break
			}
			cand[n] = int16(i)
			n++
		}
	}
	if n == 0 {
		cur = -1
		left := false
		for i := 0; i < nthreads; i++ {
			if threads[i].state == stReady {
				left = true
			}
		}
		if outs == 0 {
			if left {
				dead = true
			}
			finished = true
		}
		return
	}
	if steps > 300000 {
		spin = true
		finished = true
		cur = -1
		return
	}
	next := int(cand[0])
	if meOK && n > 1 && threads[me].same > 400 { // spinning: fairness
		next = int(cand[1])
		threads[me].same = 0
	} else if n > 1 || bound < 0 {
		next = choose(me, meOK, cand, n)
	}
	if next == me {
		threads[me].same++
	} else {
		threads[next].same = 0
		if traceLen < len(traceBuf) {
			traceBuf[traceLen] = int32(next)<<8 | int32(threads[next].op)
			traceLen++
		}
	}
	threads[next].state = stRun
	cur = next
}

//go:norace
func choose(me int, meOK bool, cand [maxCand]int16, n int) int {
	if redundant {
		return int(cand[0])
	}
	if bound >= 0 && meOK && preempt >= bound {
		return me
	}
	d := depth
	if d >= len(stack) {
		overflow = true
		return int(cand[0])
	}
	nd := &stack[d]
	var ids [maxCand]uintptr // in every execution, so that the same object has the same identity
	for i := 0; i < n; i++ {
		ids[i] = objID(threads[cand[i]].obj)
	}
	if d >= replay { // new decision
		k := 0
		for i := 0; i < n; i++ {
			t := cand[i]
			if bound < 0 && sleep>>uint(t)&1 == 1 {
				continue
			}
			nd.cand[k] = t
			nd.ops[k] = int8(threads[t].op)
			nd.objs[k] = ids[i]
			k++
		}
		if k == 0 { // everything that can happen here has been explored elsewhere
			redundant = true
			return int(cand[0])
		}
		if k == 1 && bound >= 0 {
			return int(nd.cand[0])
		}
		nd.n = int8(k)
		nd.pos = 0
		nd.sleep = sleep
		nd.sleepOp = sleepOp
		nd.sleepObj = sleepObj
		replay = d + 1
	}
	depth++
	t := nd.cand[nd.pos]
	nd.thread = t
	if bound >= 0 {
		if meOK && int(t) != me {
			preempt++
		}
		return int(t)
	}
	// sleep set of the state after the decision
	z := nd.sleep
	sleepOp, sleepObj = nd.sleepOp, nd.sleepObj
	for i := int8(0); i < nd.pos; i++ {
		s := nd.cand[i]
		if s >= maxSleep {
			continue
		}
		z |= 1 << uint(s)
		sleepOp[s] = nd.ops[i]
		sleepObj[s] = nd.objs[i]
	}
	o, p := nd.ops[nd.pos], nd.objs[nd.pos]
	for s := 0; s < nthreads && s < maxSleep; s++ {
		if z>>uint(s)&1 == 1 && (s == int(t) || dependent(sleepOp[s], sleepObj[s], o, p)) {
			z &^= 1 << uint(s)
		}
	}
	sleep = z
	return int(t)
}

// yield is a scheduling point: the calling thread is about to do op on obj, and returns when it is
// its turn (the operation is then possible).
//
//go:norace
func yield(op int, obj unsafe.Pointer) { yieldGen(op, obj, -1) }

//go:norace
func yieldGen(op int, obj unsafe.Pointer, gen int) {
	me := self()
	if me < 0 {
		return
	}
	t := &threads[me]
	t.op, t.obj, t.gen = op, obj, gen
	if t.state == stOut {
		outs--
	}
	t.state = stReady
	if cur == me {
		pick(me)
	}
	wait(me)
}

//go:norace
func wait(me int) {
	for threads[me].state != stRun || cur != me {
		runtime.Gosched()
	}
}

//go:norace
func exit(me int) {
	if threads[me].state == stOut {
		outs--
	}
	had := cur == me
	threads[me].state = stDone
	threads[me].g = 0
	if had {
		pick(me)
	}
}

//go:norace
func register() int {
	if nthreads >= maxThreads {
		return -1
	}
	i := nthreads
	threads[i] = thread{state: stReady, op: opStart}
	nthreads++
	used = nthreads
	return i
}

//go:norace
func enter(i int) {
	var b [64]byte
	threads[i].id, _ = header(b[:runtime.Stack(b[:], false)])
	threads[i].g = getg()
	wait(i)
}

// header reads the first line of the description of a goroutine: "goroutine 7 [chan receive, ...]:".
//
//go:norace
func header(b []byte) (id uint64, state []byte) {
	const w = "goroutine "
	if len(b) < len(w) || string(b[:len(w)]) != w {
		return 0, nil
	}
	i := len(w)
	for ; i < len(b) && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	for ; i < len(b) && b[i] != '['; i++ {
	}
	for j := i + 1; j < len(b); j++ {
		if b[j] == ']' || b[j] == ',' || b[j] == '(' {
			return id, b[i+1 : j]
		}
	}
	return id, nil
}

var stacks []byte

// parked tells whether the goroutine of a thread waits for another goroutine (and is not running,
// runnable, collecting garbage or in a system call that takes long).
//
//go:norace
func parked(id uint64) bool {
	if stacks == nil {
		stacks = make([]byte, 1<<20)
	}
	b := stacks[:runtime.Stack(stacks, true)]
	for i := 0; i < len(b); i++ {
		if i > 0 && b[i-1] != '\n' {
			continue
		}
		if g, st := header(b[i:min(len(b), i+128)]); g == id && st != nil {
			for _, s := range waits {
				if len(st) >= len(s) && string(st[:len(s)]) == s {
					return true
				}
			}
			return false
		}
	}
	return false
}

var waits = [...]string{"chan receive", "chan send", "select", "sync.", "semacquire"}

// stuck: no thread which is outside of the control can come back by itself.
//
//go:norace
func stuck() bool {
	for i := 0; i < nthreads; i++ {
		if threads[i].state == stOut && !parked(threads[i].id) {
			return false
		}
	}
	return true
}

// Go starts a goroutine.
func Go(f func()) {
	if !controlled() {
		go f()
		return
	}
	i := register()
	if i < 0 {
		panic("vsync: too many goroutines")
	}
	go func() {
		enter(i)
		defer exit(i)
		f()
	}()
}

// Point is a scheduling point of the harness (or in front of an operation on a channel).
func Point() { yield(opPoint, nil) }

// AtomicPoint is the scheduling point in front of an atomic operation.
func AtomicPoint(p unsafe.Pointer) { yield(opAtomic, p) }

// PointOn is a scheduling point which is relevant only to threads at points with the same id.
//
//go:norace
func PointOn(p unsafe.Pointer) { yield(opPoint, p) }

// ---- exploration

// Result describes one execution.
type Result struct {
	Deadlock string
	Livelock bool
	Panic    any
	Steps    int
	Depth    int
	Out      int
}

// Stats describes an exploration.
type Stats struct {
	Executions, Redundant, Decisions, MaxDepth int
	Complete                                   bool
	External                                   int
	Threads                                    int
}

//go:norace
func begin(b int) {
	active, cur, nthreads, rounds, steps, outs = true, -1, 0, 0, 0, 0
	depth, preempt, bound = 0, 0, b
	sleep, redundant, overflow, dead, spin, finished, tooMany = 0, false, false, false, false, false, false
	nObjs, traceLen = 0, 0
	for i := range used {
		threads[i] = thread{}
	}
	used = 0
}

//go:norace
func drive() {
	pauses := 0
	pick(-1)
	for !finished {
		runtime.Gosched()
		rounds++
		if rounds > 400 {
			if cur >= 0 && !parked(threads[cur].id) {
				rounds = 0
				if pauses++; pauses > 3 {
					time.Sleep(50 * time.Microsecond)
				}
			} else if cur >= 0 {
				// has the turn and does not get anywhere: blocked natively
				threads[cur].state = stOut
				outs++
				everOut++
				cur = -1
				pick(-1)
			} else {
				ready := false
				for i := 0; i < nthreads; i++ {
					if enabled(&threads[i]) {
						ready = true
					}
				}
				if ready || outs == 0 {
					pick(-1)
				} else if rounds > 20000 {
					if stuck() && outs > 0 {
						dead = true
						finished = true
					} else {
						rounds = 401
						time.Sleep(50 * time.Microsecond)
					}
				}
			}
		} else if cur < 0 && rounds > 3 {
			for i := 0; i < nthreads; i++ {
				if enabled(&threads[i]) {
					pick(-1)
					break
				}
			}
		}
	}
}

//go:norace
func end() { active = false }

//go:norace
func snapshot() (d, s, nt, o int, dl, sp, red, over bool) {
	return depth, steps, nthreads, everOut, dead, spin, redundant, overflow
}

//go:norace
func advance() bool { // next branch; false: all done
	for replay > 0 {
		nd := &stack[replay-1]
		if int(nd.pos)+1 < int(nd.n) {
			nd.pos++
			return true
		}
		replay--
	}
	return false
}

//go:norace
func reset(b int) {
	replay = 0
	everOut = 0
	if stack == nil {
		stack = make([]node, 4096)
	}
}

// Trace describes the context switches of the last execution.
//
//go:norace
func Trace() []string {
	var out []string
	for i := 0; i < traceLen && i < 400; i++ {
		out = append(out, "t"+itoa(int(traceBuf[i]>>8))+":"+opNames[traceBuf[i]&255])
	}
	return out
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

//go:norace
func describe() string {
	s := ""
	for i := 0; i < nthreads; i++ {
		t := &threads[i]
		if len(s) > 1500 {
			return s + " ..."
		}
		switch t.state {
		case stReady:
			s += " t" + itoa(i) + " waits at " + opNames[t.op] + ";"
		case stOut:
			s += " t" + itoa(i) + " is blocked;"
		case stDone:
			s += " t" + itoa(i) + " has ended;"
		}
	}
	return s
}

// Explore executes body (as the first thread) under every schedule with at most b preemptions; b < 0:
// under at least one of every class of equivalent schedules. each is called after every execution and
// ends the exploration by returning false.
func Explore(b int, body func(), each func(r Result) bool) (st Stats) {
	reset(b)
	for {
		begin(b)
		done := make(chan struct{})
		var pan any
		i := register()
		go func() {
			enter(i)
			func() {
				defer func() { pan = recover() }()
				body()
			}()
			close(done)
			exit(i)
		}()
		drive()
		d, s, nt, out, dl, sp, red, over := snapshot()
		r := Result{Steps: s, Depth: d, Livelock: sp, Out: out}
		if dl {
			r.Deadlock = describe()
		}
		if !dl && !sp {
			<-done
			r.Panic = pan
		}
		end()
		st.Executions++
		st.Decisions += d
		if red {
			st.Redundant++
		}
		if d > st.MaxDepth {
			st.MaxDepth = d
		}
		if nt > st.Threads {
			st.Threads = nt
		}
		if over || tooManyCands() {
			overAny = true
		}
		st.External = out
		if !each(r) {
			return
		}
		if dl || sp || !advance() {
			break
		}
	}
	st.Complete = !overAny
	overAny = false
	return
}

var overAny bool

//go:norace
func tooManyCands() bool { return tooMany }
