package vsync

import (
	"reflect"
	"sync"
	"unsafe"
)

type Locker = sync.Locker
type Pool = sync.Pool
type Map = sync.Map

// Mutex is sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) set(v bool) { m.held = v }

//go:norace
func (m *Mutex) get() bool { return m.held }

func (m *Mutex) Lock() {
	if controlled() {
		yield(opLock, unsafe.Pointer(m))
		m.set(true)
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if controlled() {
		Point()
		if m.get() {
			return false
		}
		m.set(true)
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	m.real.Unlock()
	m.set(false)
}

// RWMutex is sync.RWMutex: a writer that waits keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	readers int
}

//go:norace
func (m *RWMutex) setW(v bool) { m.w = v }

//go:norace
func (m *RWMutex) addR(d int) { m.readers += d }

//go:norace
func (m *RWMutex) state() (bool, int) { return m.w, m.readers }

func (m *RWMutex) Lock() {
	if controlled() {
		yield(opWLock, unsafe.Pointer(m))
		m.setW(true)
		if _, r := m.state(); r > 0 {
			yield(opWWait, unsafe.Pointer(m))
		}
	}
	m.real.Lock()
}

func (m *RWMutex) Unlock() {
	m.real.Unlock()
	m.setW(false)
}

func (m *RWMutex) RLock() {
	if controlled() {
		yield(opRLock, unsafe.Pointer(m))
	}
	m.addR(1)
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	m.addR(-1)
}

func (m *RWMutex) TryLock() bool {
	if controlled() {
		Point()
		if w, r := m.state(); w || r > 0 {
			return false
		}
		m.setW(true)
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if controlled() {
		Point()
		if w, _ := m.state(); w {
			return false
		}
	}
	if m.real.TryRLock() {
		m.addR(1)
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	real    sync.WaitGroup
	n       int
	waiters int // that found n > 0
	gen     int // how often they were released
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n == 0 && w.waiters > 0 {
		w.waiters = 0
		w.gen++
	}
}

//go:norace
func (w *WaitGroup) enter() (gen int, blocked bool) {
	if w.n > 0 {
		w.waiters++
		return w.gen, true
	}
	return -1, false
}

//go:norace
func (w *WaitGroup) reused() bool { return w.n > 0 || w.waiters > 0 }

func (w *WaitGroup) Add(d int) {
	if d > 0 && controlled() {
		yield(opAtomic, unsafe.Pointer(w))
	}
	w.real.Add(d)
	w.add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if controlled() {
		gen, blocked := w.enter()
		yieldGen(opWait, unsafe.Pointer(w), gen)
		if blocked && w.reused() {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	real    sync.Once
	running bool
}

//go:norace
func (o *Once) set(v bool) { o.running = v }

func (o *Once) Do(f func()) {
	if !controlled() {
		o.real.Do(f)
		return
	}
	yield(opOnce, unsafe.Pointer(o))
	o.set(true)
	defer o.set(false)
	o.real.Do(f)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	q    []*waiter
}

type waiter struct {
	signalled bool
	ch        chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) push(w *waiter) { c.q = append(c.q, w) }

//go:norace
func (c *Cond) pop() *waiter {
	if len(c.q) == 0 {
		return nil
	}
	w := c.q[0]
	c.q = c.q[1:]
	w.signalled = true
	return w
}

func (c *Cond) Wait() {
	if !controlled() {
		c.real.Wait()
		return
	}
	w := &waiter{ch: make(chan struct{}, 1)}
	c.push(w)
	c.L.Unlock()
	yield(opCond, unsafe.Pointer(w))
	<-w.ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	if w := c.pop(); w != nil {
		w.ch <- struct{}{}
	}
	c.real.Signal()
}

func (c *Cond) Broadcast() {
	for w := c.pop(); w != nil; w = c.pop() {
		w.ch <- struct{}{}
	}
	c.real.Broadcast()
}

// ---- go statements with arguments

func Go0(f func())                                               { Go(f) }
func Go1[A any](f func(A), a A)                                  { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	Go(func() { f(a, b, c, d, e) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, e E, g F) {
	Go(func() { f(a, b, c, d, e, g) })
}

// GoAny is a go statement of a function of any type.
func GoAny(f any, args ...any) {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := t.In(min(i, t.NumIn()-1))
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = pt.Elem()
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else if x := reflect.ValueOf(a); x.Type().AssignableTo(pt) {
			in[i] = x
		} else {
			in[i] = x.Convert(pt)
		}
	}
	Go(func() { v.Call(in) })
}
