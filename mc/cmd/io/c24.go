package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

var c24 = &rt.Check{
	ID: "C24",
	Rule: "node addresses: both metrics, element and id types x 12 vector lengths x ids around every multiple of 2^31, 2^32 and powers of two up to 2^45 bytes; " +
		"sparse item memory of up to 1 TiB: all orders of adding 5 ids around 4 GiB (and multiples) including ids that coincide modulo 2^32 bytes; hints from 1 to 2^36 bytes; " +
		"item memory of 4..5 GiB made by the real build allocator in several steps; indexes of exactly 4 GiB and of 4.1 GiB built, saved and loaded by both file allocators",
	Oracle:      "addresses and requested sizes in exact arithmetic; vectors, distances and answers as brute force over what was added, before and after save and load",
	Assumptions: []string{"64 bit address space; a few large indexes stand for all sizes between the boundaries"},
	Workers:     4,
	BigVM:       true,
	Procs:       4,
	Run: func(c *rt.Ctx) {
		debug.SetGCPercent(20)
		for _, metric := range []string{"ang", "dot"} {
			c24addr[float32, uint32](c, metric, "f32 u32")
			c24addr[float32, uint64](c, metric, "f32 u64")
			c24addr[float64, uint32](c, metric, "f64 u32")
			c24addr[float64, uint64](c, metric, "f64 u64")
		}
		for _, metric := range []string{"ang", "dot"} {
			c24sparse[float32, uint32](c, metric, "f32 u32")
			c24sparse[float32, uint64](c, metric, "f32 u64")
			c24sparse[float64, uint32](c, metric, "f64 u32")
			c24sparse[float64, uint64](c, metric, "f64 u64")
		}
		for _, metric := range []string{"ang", "dot"} {
			c24hint[float32, uint32](c, metric, "f32 u32")
			c24hint[float64, uint64](c, metric, "f64 u64")
		}
		c24real(c)
		// one after the other: all in the same worker, each needs 5 to 10 GiB
		c.Unit("big files", func() {
			c24big[float32, uint32](c, "ang", 4096)
			c24big[float64, uint64](c, "dot", 4200)
			if c.Thorough {
				c24big[float32, uint64](c, "ang", 4200)
				c24big[float64, uint32](c, "dot", 4096)
				c24big[float64, uint32](c, "ang", 4097)
				c24big[float32, uint32](c, "dot", 4095)
			}
		})
	},
}

// data word of an interface
func addr[TV interfaces.VectorType, TIX interfaces.IndexTypes](n interfaces.Node[TV, TIX]) uintptr {
	return uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&n))[1])
}

func reserve(size uint64) (unsafe.Pointer, error) {
	b, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE,
		syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, err
	}
	return unsafe.Pointer(&b[0]), nil
}

func release(p unsafe.Pointer, size uint64) {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(p), uintptr(size), 0)
}

func c24addr[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, metric, ty string) {
	for _, dim := range []int{1, 2, 3, 7, 8, 40, 100, 1000, 4096, 65535, 65536, 262141} {
		c.Unit(fmt.Sprintf("addresses %s %s dim=%d", metric, ty, dim), func() {
			d := lab.Dist[TV, TIX](lab.Spec{Metric: metric, Dim: dim})
			ns := uint64(d.NodeSize())
			base, err := reserve(1 << 16)
			must(c, err, "reserve")
			defer release(base, 1<<16)
			maxID := uint64(^TIX(0))
			var ids []uint64
			add := func(b uint64) {
				for k := -2; k <= 2; k++ {
					ids = append(ids, b/ns+uint64(k))
				}
			}
			for i := uint64(1); i <= 8; i++ {
				add(i << 31)
			}
			for s := 34; s <= 45; s++ {
				add(1 << s)
				add(1<<s + 1<<(s-1))
			}
			for _, b := range []uint64{1 << 31, 1 << 32, 1 << 33} { // ids themselves around powers of two
				for k := uint64(0); k < 5; k++ {
					ids = append(ids, b-2+k)
				}
			}
			for _, id := range ids {
				if id > maxID || id > 1<<45/ns+1<<10 && id*ns > 1<<46 {
					continue
				}
				c.Step(func() string { return fmt.Sprintf("id %d, node size %d", id, ns) })
				got := addr(d.MapNodeToMemory(base, TIX(id)))
				if want := uintptr(base) + uintptr(id*ns); got != want {
					c.Fail("[%s %s dim=%d] node %d of %d bytes is at base%+d, expected base%+d", metric, ty, dim, id, ns,
						int64(got-uintptr(base)), int64(id*ns))
				}
				c.State(1)
				c.Transition(1)
			}
			c.Tick()
			c.Trace(1)
			c.Outcome(ns)
		})
	}
}

// inPlace is a build allocator whose memory never moves: a reserved range of addresses.
type inPlace struct {
	base unsafe.Pointer
	size uint64
	max  uint64
	over bool
}

func (a *inPlace) Free() {}
func (a *inPlace) Reallocate(n int) unsafe.Pointer {
	if n < 0 || uint64(n) > a.size {
		a.over = true
	}
	if n > 0 && uint64(n) > a.max {
		a.max = uint64(n)
	}
	return a.base
}

func c24vec[TV interfaces.VectorType](dim int, id uint64, salt int) []TV {
	v := make([]TV, dim)
	for j := 0; j < len(v); j++ {
		if j == 64 && len(v) > 200 {
			j = len(v) - 64
		}
		v[j] = TV(int((id*31+uint64(j)*17+uint64(salt)*5)%23) - 11)
	}
	if v[0] == 0 {
		v[0] = 1
	}
	return v
}

func c24sparse[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, metric, ty string) {
	for _, dim := range []int{1, 3, 100, 4093} {
		c.Unit(fmt.Sprintf("sparse items %s %s dim=%d", metric, ty, dim), func() {
			sp := lab.Spec{Metric: metric, Dim: dim}
			ns := uint64(lab.Dist[TV, TIX](sp).NodeSize())
			size := uint64(1) << 40
			base, err := reserve(size)
			for err != nil && size > 1<<34 {
				size /= 2
				base, err = reserve(size)
			}
			must(c, err, "reserve memory")
			defer release(base, size)
			c.NoteMax("address_space_gib", int64(size>>30))
			l := uint64(1) << 32 / ns
			sets := [][]uint64{
				{0, 1, l - 1, l, l + 1},
				{2, l/2 - 1, l / 2, l/2 + 1, l + 2},
				{1, 1 + l, 1 + 2*l, 2*l - 1, 2 * l},
				{0, 3*l + 1, 3 * l, 5, 8*l + 7},
			}
			// ids whose offsets are equal modulo 2^32: id + 2^32/gcd(ns, 2^32)
			step := uint64(1) << 32 / (ns & -ns)
			sets = append(sets, []uint64{3, 3 + step, 4, 4 + step, 3 + 2*step})
			if unsafe.Sizeof(TIX(0)) == 8 {
				sets = append(sets, []uint64{1, 1<<32 + 1, 1<<33 + 1, 1 << 32, 1<<32 - 1})
			} else {
				sets = append(sets, []uint64{1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2})
			}
			for si, set := range sets {
				fits := true
				for _, id := range set {
					// room for the growth by half
					if id > uint64(^TIX(0))-1 || (id+2)*ns/2*3 > size/2 {
						fits = false
					}
				}
				if !fits {
					continue
				}
				perm(len(set), func(p []int) {
					if si%2 == 1 && p[0] > p[1] && !c.Thorough {
						return
					}
					al := &inPlace{base: base, size: size}
					idx := index.New[TV, TIX](lab.Rnd[TIX](1), lab.Dist[TV, TIX](sp), lab.Policy(false), al, lab.Loader("mmap"), nil, false, 0)
					var max uint64
					for k, pi := range p {
						id := set[pi]
						c.Step(func() string { return fmt.Sprintf("ids %v in order %v, adding %d", set, p, id) })
						idx.AddItem(TIX(id), c24vec[TV](dim, id, si))
						if id > max {
							max = id
						}
						if al.over || al.max < (max+1)*ns {
							c.Fail("[%v] ids %v in order %v: largest request is %d bytes, needed for id %d are %d", sp, set, p, al.max, max, (max+1)*ns)
						}
						for _, pj := range p[:k+1] {
							x := set[pj]
							if got := idx.GetItem(TIX(x)); !same(got, c24vec[TV](dim, x, si)) {
								c.Fail("[%v] ids %v in order %v: after adding %d, item %d reads back as %v..., not %v...", sp, set, p, id, x, cutVec(got), cutVec(c24vec[TV](dim, x, si)))
							}
							c.Transition(1)
						}
					}
					for _, i := range set {
						for _, j := range set {
							a, b := c24vec[TV](dim, i, si), c24vec[TV](dim, j, si)
							d := lab.RawOf(metric, float64(idx.GetDistance(TIX(i), TIX(j))))
							if want := lab.Raw(metric, a, b); !(abs(d-want) <= lab.Slack(metric, a, b)) {
								c.Fail("[%v] ids %v in order %v: distance of %d and %d is raw %v, expected %v", sp, set, p, i, j, d, want)
							}
						}
					}
					c.State(1)
					c.Trace(1)
					c.Outcome(al.max, max)
					c.Tick()
					c.NoteMax("largest_offset_gib", int64(max*ns>>30))
				})
			}
			c.Sample(func() string { return fmt.Sprintf("id sets %v, node size %d", sets, ns) })
		})
	}
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func cutVec[TV any](v []TV) []TV {
	if len(v) > 4 {
		return v[:4]
	}
	return v
}

func same[TV interfaces.VectorType](a, b []TV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func perm(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

func c24hint[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, metric, ty string) {
	c.Unit(fmt.Sprintf("hints %s %s", metric, ty), func() {
		size := uint64(1) << 38
		base, err := reserve(size)
		for err != nil && size > 1<<34 {
			size /= 2
			base, err = reserve(size)
		}
		must(c, err, "reserve memory")
		defer release(base, size)
		for _, dim := range []int{1, 3, 40, 1000, 65536} {
			sp := lab.Spec{Metric: metric, Dim: dim}
			ns := uint64(lab.Dist[TV, TIX](sp).NodeSize())
			for s := 1; s <= 36; s++ {
				for k := uint64(0); k < 3; k++ {
					hint := (uint64(1)<<s)/ns + k
					if hint == 0 || hint > 1<<31 || hint*ns*3/2 > size-1<<20 {
						continue
					}
					c.Step(func() string { return fmt.Sprintf("[%v] hint %d", sp, hint) })
					al := &inPlace{base: base, size: size}
					idx := index.New[TV, TIX](lab.Rnd[TIX](1), lab.Dist[TV, TIX](sp), lab.Policy(false), al, lab.Loader("mmap"), nil, false, TIX(hint))
					if al.over || al.max < hint*ns {
						c.Fail("[%v] hint %d: requested %d bytes for %d", sp, hint, al.max, hint*ns)
					}
					last := hint - 1
					idx.AddItem(TIX(last), c24vec[TV](dim, last, 1))
					idx.AddItem(0, c24vec[TV](dim, 0, 2))
					v := c24vec[TV](dim, last, 1)
					if last == 0 {
						v = c24vec[TV](dim, 0, 2)
					}
					if got := idx.GetItem(TIX(last)); !same(got, v) {
						c.Fail("[%v] hint %d: item %d reads back as %v..., not %v...", sp, hint, last, cutVec(got), cutVec(v))
					}
					c.State(1)
					c.Transition(3)
					c.Trace(1)
				}
				c.Tick()
			}
		}
	})
}

// c24real grows the memory of the real build allocator beyond 4 GiB.
func c24real(c *rt.Ctx) {
	c.Unit("real build allocator", func() {
		const g = 1 << 30
		stop := keepAlive(c)
		defer stop()
		a := memory.GoGCIndexAllocator()
		marks := map[int]byte{}
		for k, size := range []int{g / 2, 4*g + 4096, 4*g + 8192, 4097} {
			p := a.Reallocate(size)
			for off, b := range marks {
				if off < size {
					if got := *(*byte)(unsafe.Add(p, off)); got != b {
						c.Fail("request %d of %d bytes: byte at %d is %d, expected %d", k, size, off, got, b)
					}
				}
			}
			for _, off := range []int{0, 4095, g/2 - 1, g/2 + 3, g, 2*g - 1, 2 * g, 3 * g, 4*g - 1, 4 * g, 4*g + 4095} {
				if off < size {
					if _, ok := marks[off]; !ok {
						if got := *(*byte)(unsafe.Add(p, off)); got != 0 {
							c.Fail("request %d of %d bytes: byte at %d is %d, but was never written", k, size, off, got)
						}
						marks[off] = byte(off/4093) | 1
						*(*byte)(unsafe.Add(p, off)) = marks[off]
					}
				}
			}
			c.State(1)
			c.Transition(1)
		}
		a.Free()
		debug.FreeOSMemory()
		c.Trace(1)
		c.Outcome(len(marks))
	})
}

// keepAlive ticks while long copies run.
func keepAlive(c *rt.Ctx) func() {
	q := make(chan bool)
	go func() {
		for i := 0; i < 90; i++ {
			select {
			case <-q:
				return
			case <-time.After(2 * time.Second):
				c.Tick()
			}
		}
	}()
	return func() { close(q) }
}

// c24big builds an index with nodes of 1 MiB, altogether total nodes, saves and loads it.
func c24big[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, metric string, total int) {
	stop := keepAlive(c)
	defer stop()
	sp := lab.Spec{Metric: metric, Dim: 8, T: 2, MaxK: 2}
	last := uint64(total - 41)
	if total <= 4097 { // one tree without splits: two nodes besides the items
		sp.T, sp.MaxK = 1, 0
		last = uint64(total - 3)
	}
	ns8 := int(lab.Dist[TV, TIX](sp).NodeSize())
	es := int(unsafe.Sizeof(TV(0)))
	sp.Dim = 8 + (1<<20-ns8)/es
	ns := uint64(lab.Dist[TV, TIX](sp).NodeSize())
	what := fmt.Sprintf("%s %d byte elements, %d byte ids, %d nodes of %d bytes", metric, es, unsafe.Sizeof(TIX(0)), total, ns)
	c.Step(func() string { return what })

	dir := c.Dir
	var st syscall.Statfs_t
	room := func(d string) bool {
		return syscall.Statfs(d, &st) == nil && uint64(st.Bavail)*uint64(st.Bsize) > uint64(total)*ns+1<<28
	}
	if !room(dir) {
		d, err := os.MkdirTemp("", "c24")
		must(c, err, "scratch directory")
		defer os.RemoveAll(d)
		if dir = d; !room(dir) {
			c.Note("big_files_skipped_for_lack_of_space", 1)
			return
		}
	}

	size := uint64(64) << 30
	base, err := reserve(size)
	for err != nil && size > 12<<30 {
		size /= 2
		base, err = reserve(size)
	}
	must(c, err, "reserve memory")
	defer func() { release(base, size) }()
	al := &inPlace{base: base, size: size}
	idx := index.New[TV, TIX](lab.Rnd[TIX](1), lab.Dist[TV, TIX](sp), lab.Policy(false), al, lab.Loader("mmap"), nil, false, 0)

	// 12 items; with splits each of the 2 trees has 11 inner nodes at most
	m := lab.NewModel[TV](metric, sp.Dim)
	set := []uint64{0, 1, 2, 2047, 2048, last, last - 1, last - 2, 4000, 1000, 3000, 500}
	for _, id := range set {
		v := c24vec[TV](sp.Dim, id, 3)
		idx.AddItem(TIX(id), v)
		m.Add(id, v)
	}
	idx.Build(sp.T, 1)
	if al.over || al.max < (last+1)*ns {
		c.Fail("%s: largest request is %d bytes", what, al.max)
	}
	check := func(idx interfaces.AnnoyIndex[TV, TIX], when string) {
		ctx := idx.CreateContext()
		for _, id := range set {
			if !same(idx.GetItem(TIX(id)), m.Vec[id]) {
				c.Fail("%s, %s: item %d reads back as %v..., not %v...", what, when, id, cutVec(idx.GetItem(TIX(id))), cutVec(m.Vec[id]))
			}
			ids, ds := idx.GetNnsByVector(m.Vec[id], len(set), 1000, ctx)
			if e := lab.CheckAnswer(m, m.Vec[id], len(set), ids, ds); e != "" {
				c.Fail("%s, %s: query with item %d: %s", what, when, id, e)
			}
			if e := lab.Exact(lab.Rank(m, m.Vec[id]), len(set), ids); e != "" {
				c.Fail("%s, %s: query with item %d: %s", what, when, id, e)
			}
			d := lab.RawOf(metric, float64(idx.GetDistance(TIX(set[0]), TIX(id))))
			if want := lab.Raw(metric, m.Vec[set[0]], m.Vec[id]); !(abs(d-want) <= lab.Slack(metric, m.Vec[set[0]], m.Vec[id])) {
				c.Fail("%s, %s: distance of %d and %d is raw %v, expected %v", what, when, set[0], id, d, want)
			}
			c.Transition(3)
		}
		c.State(1)
		c.Tick()
	}
	check(idx, "built")
	f := filepath.Join(dir, "big.ann")
	defer os.Remove(f)
	must(c, idx.Save(f), what+": save")
	fi, err := os.Stat(f)
	must(c, err, "stat")
	c.NoteMax("largest_file_bytes", fi.Size())
	c.Note("big_files", 1)
	c.Outcome(fi.Size() / int64(ns))
	if sp.T == 1 {
		c.Note(fmt.Sprintf("files_of_%d_mib", fi.Size()>>20), 1)
	}
	if fi.Size()%int64(ns) != 0 || fi.Size() < int64(last)*int64(ns) {
		c.Fail("%s: saved file has %d bytes", what, fi.Size())
	}
	release(base, size)
	base, err = reserve(1 << 20)
	size = 1 << 20
	must(c, err, "reserve memory")
	check(idx, "saved")
	must(c, idx.Close(), "close")
	for _, loader := range []string{"mmap", "gc"} {
		x := index.New[TV, TIX](lab.Rnd[TIX](1), lab.Dist[TV, TIX](sp), lab.Policy(false), memory.GoGCIndexAllocator(), lab.Loader(loader), nil, false, 0)
		must(c, x.Load(f), what+": load with "+loader)
		check(x, "loaded with "+loader)
		must(c, x.Close(), "close")
		x = nil
		debug.FreeOSMemory()
	}
	c.Trace(1)
}
