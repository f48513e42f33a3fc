package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

var c25 = &rt.Check{
	ID: "C25",
	Rule: "build allocator: all sequences up to depth 5 (thorough 6) over requests of 1, 2, 8, 4095, 4096, 4097, 100000 bytes and Free, new bytes written after each; with garbage collections in between up to depth 3; two allocators interleaved; all pairs of 15 sizes up to 2^26 bytes (thorough 2^29), followed by a third; " +
		"growth in hundreds of small steps. " +
		"File allocators (mapped and in memory): file sizes 1, 2, 4095..4097, 8191, 65536, 100003, 3 MiB, 2^20+13, 2^24+7, 2^26+4099, sparse ones of 2^31-1, 2^31+8197 and 2^32+5; names with all kinds of characters and spellings; hundreds of files open at once, closed in 5 orders; thousands of openings; all sequences up to depth 5 (thorough 6) over open a, open b, replace a (keeping its times, and its size in every second case), close the first/last allocation of a or b, close again, open a missing file, a directory, an empty file",
	Oracle: "a byte array model of the contents; Size, contents of every open allocation and Get after each operation; no open file or mapping is left when all are closed",
	Run: func(c *rt.Ctx) {
		c25build(c)
		c25grow(c)
		for _, loader := range []string{"mmap", "gc"} {
			c25sizes(c, loader)
			c25huge(c, loader)
			c25ops(c, loader)
			c25many(c, loader)
		}
	},
}

type buildModel struct {
	a   interfaces.BuildIndexAllocator
	mem []byte // everything ever written, zero elsewhere
	cnt byte
}

func (m *buildModel) op(c *rt.Ctx, what string, size int) {
	if size == 0 {
		m.a.Free()
		m.mem = m.mem[:0]
		return
	}
	p := m.a.Reallocate(size)
	if p == nil {
		c.Fail("%s: nil for %d bytes", what, size)
	}
	got := unsafe.Slice((*byte)(p), size)
	for len(m.mem) < size {
		if cap(m.mem) >= size {
			k := len(m.mem)
			m.mem = m.mem[:size]
			clear(m.mem[k:])
		} else {
			m.mem = append(m.mem, make([]byte, size-len(m.mem))...)
		}
	}
	if !bytes.Equal(got, m.mem[:size]) {
		for i := range got {
			if got[i] != m.mem[i] {
				c.Fail("%s: byte %d of %d is %#x, expected %#x", what, i, size, got[i], m.mem[i])
			}
		}
	}
	// write: all of it on the first occasion, later the ends
	m.cnt += 37
	for i := 0; i < size; i++ {
		if i == 9 && size > 64 {
			i = size - 9
		}
		m.mem[i] = m.cnt ^ byte(i)
		got[i] = m.mem[i]
	}
	if size > 5000 {
		m.mem[size/2] = m.cnt
		got[size/2] = m.cnt
	}
}

func c25build(c *rt.Ctx) {
	sizes := []int{0, 1, 2, 8, 4095, 4096, 4097, 100000}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	for first := range sizes {
		for second := range sizes {
			c.Unit(fmt.Sprintf("build allocator, first %d second %d", sizes[first], sizes[second]), func() {
				for d := 0; d <= depth-2; d++ {
					lab.Sequences(len(sizes), d, func(s []int) {
						seq := append([]int{first, second}, s...)
						desc := func() string {
							var o []string
							for _, x := range seq {
								o = append(o, fmt.Sprint(sizes[x]))
							}
							return "requests (0: free) " + strings.Join(o, " ")
						}
						c.Step(desc)
						m := &buildModel{a: memory.GoGCIndexAllocator()}
						for _, x := range seq {
							m.op(c, "", sizes[x])
						}
						c.Transition(len(seq))
						c.State(1)
						c.Trace(1)
						c.Eval(len(seq))
						c.Tick()
						c.Outcome(len(m.mem), m.cnt)
					})
				}
				c.Sample(func() string { return fmt.Sprintf("all continuations up to %d requests", depth) })
			})
		}
	}
	for d := 1; d <= 3; d++ {
		c.Unit(fmt.Sprintf("build allocator with collections, depth %d", d), func() {
			lab.Sequences(len(sizes), d, func(s []int) {
				c.Step(func() string { return fmt.Sprint("sizes ", s) })
				m := &buildModel{a: memory.GoGCIndexAllocator()}
				for _, x := range s {
					m.op(c, "", sizes[x])
					runtime.GC()
					for _, z := range sizes {
						g := make([]byte, z)
						for i := range g {
							g[i] = 0xee
						}
					}
				}
				m.op(c, "after collection", sizes[1+s[0]%7])
				c.Transition(len(s) + 1)
				c.State(1)
				c.Trace(1)
				c.Tick()
			})
		})
	}
	c.Unit("two build allocators", func() {
		lab.Sequences(2*len(sizes), 4, func(s []int) {
			c.Step(func() string { return fmt.Sprint("operations ", s) })
			m := [2]*buildModel{{a: memory.GoGCIndexAllocator()}, {a: memory.GoGCIndexAllocator()}}
			for _, x := range s {
				m[x%2].op(c, "", sizes[x/2])
			}
			for i := range m {
				m[i].op(c, "last", 8)
			}
			c.Transition(len(s))
			c.State(1)
			c.Trace(1)
			c.Tick()
		})
	})
}

func pattern(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i>>8) ^ salt
	}
	return b
}

func contents(a interfaces.AllocatedIndex) []byte {
	return unsafe.Slice((*byte)(a.Ptr()), a.Size())
}

func c25sizes(c *rt.Ctx, loader string) {
	for _, n := range []int{1, 2, 3, 4095, 4096, 4097, 8191, 8192, 65536, 100003, 3 << 20, 1<<20 + 13, 1<<24 + 7, 1<<26 + 4099} {
		c.Unit(fmt.Sprintf("%s: file of %d bytes", loader, n), func() {
			p := filepath.Join(c.Dir, "size.bin")
			b := pattern(n, byte(n))
			must(c, os.WriteFile(p, b, 0o644), "write")
			al := lab.Loader(loader)
			for k := 0; k < 3; k++ {
				a, err := al.Open(p)
				must(c, err, "open")
				if a.Size() != int64(n) {
					c.Fail("size %d, the file has %d bytes", a.Size(), n)
				}
				runtime.GC()
				if !bytes.Equal(contents(a), b) {
					c.Fail("contents differ from the file")
				}
				must(c, a.Close(), "close")
				must(c, a.Close(), "second close")
				c.Transition(4)
				c.State(1)
			}
			if l := left(c); l != "" {
				c.Fail("left open: %s", l)
			}
			c.Trace(1)
			c.Outcome(loader, n)
		})
	}
}

// c25huge: files beyond 2 and 4 GiB, with holes.
func c25huge(c *rt.Ctx, loader string) {
	for _, n := range []int64{1<<31 - 1, 1<<31 + 8197, 1<<32 + 5} {
		c.Unit(fmt.Sprintf("%s: sparse file of %d bytes", loader, n), func() {
			p := filepath.Join(c.Dir, "huge.bin")
			defer os.Remove(p)
			f, err := os.Create(p)
			must(c, err, "create")
			must(c, f.Truncate(n), "truncate")
			marks := map[int64]byte{0: 1, 1: 2, 4095: 3, 1<<30 - 1: 4, 1 << 30: 5, 1<<31 - 4097: 6, 1<<31 - 2: 7, n - 2: 8, n - 1: 9}
			for i, at := range []int64{1 << 31, 1<<31 + 4096, 1<<32 - 4097, 1<<32 - 1, 1 << 32} {
				if at < n {
					marks[at] = byte(20 + i)
				}
			}
			for at, x := range marks {
				_, err := f.WriteAt([]byte{x}, at)
				must(c, err, "write")
			}
			must(c, f.Close(), "close")
			c.Tick()
			al := lab.Loader(loader)
			a, err := al.Open(p)
			if err != nil {
				c.Fail("file of %d bytes: %v", n, err)
			}
			if a.Size() != n {
				c.Fail("size %d, the file has %d bytes", a.Size(), n)
			}
			b := contents(a)
			for at := int64(0); at < n; at += 1 << 20 {
				for _, q := range []int64{at, at + 1, at + 1<<19 + 4095} {
					if q < n && b[q] != marks[q] {
						c.Fail("byte %d of %d is %d, in the file %d", q, n, b[q], marks[q])
					}
				}
			}
			for at, x := range marks {
				if b[at] != x {
					c.Fail("byte %d of %d is %d, in the file %d", at, n, b[at], x)
				}
			}
			must(c, a.Close(), "close")
			if l := left(c); l != "" {
				c.Fail("left open: %s", l)
			}
			b, a = nil, nil
			debug.FreeOSMemory()
			c.State(1)
			c.Transition(len(marks))
			c.Trace(1)
			c.Outcome(loader, n)
		})
	}
}

// left lists open files and mappings below the scratch directory.
func left(c *rt.Ctx) string { return leftIn(c.Dir) }

func leftIn(dir string) string {
	var out []string
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			out = append(out, "open file "+t)
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	if i := bytes.Index(b, []byte(dir)); i >= 0 {
		j := bytes.IndexByte(b[i:], '\n')
		out = append(out, "mapping of "+string(b[i:i+j]))
	}
	return strings.Join(out, ", ")
}

type fileOpen struct {
	a    interfaces.AllocatedIndex
	want []byte
	open bool
}

func c25ops(c *rt.Ctx, loader string) {
	ops := []string{"open a", "open b", "replace a", "close first a", "close last a", "close first b", "close last b",
		"close again", "open missing", "open directory", "open empty"}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	sizes := [2]int{100, 4097}
	when := time.Unix(1700000000, 0)
	run := func(seq []int) {
		c.Step(func() string {
			var o []string
			for _, x := range seq {
				o = append(o, ops[x])
			}
			return strings.Join(o, ", ")
		})
		name := [2]string{filepath.Join(c.Dir, "a.bin"), filepath.Join(c.Dir, "b.bin")}
		var now [2][]byte
		for i := range name {
			now[i] = pattern(sizes[i], byte(i))
			must(c, os.WriteFile(name[i], now[i], 0o644), "write")
			must(c, os.Chtimes(name[i], when, when), "set times")
		}
		replaced := 0
		al := lab.Loader(loader)
		var all [2][]*fileOpen
		pickOpen := func(f int, last bool) *fileOpen {
			var r *fileOpen
			for _, o := range all[f] {
				if o.open && (r == nil || last) {
					r = o
				}
			}
			return r
		}
		for _, x := range seq {
			f := strings.Count(ops[x], " b") // 0: a, 1: b
			switch {
			case x < 2:
				a, err := al.Open(name[f])
				must(c, err, ops[x])
				all[f] = append(all[f], &fileOpen{a, now[f], true})
			case ops[x] == "replace a":
				replaced++
				now[0] = pattern(len(now[0])+50*(replaced-1)%100, byte(100+replaced)) // the first time the size stays
				t := filepath.Join(c.Dir, "new.bin")
				must(c, os.WriteFile(t, now[0], 0o644), "write")
				must(c, os.Chtimes(t, when, when), "set times") // as the old file, for instance by a copy that keeps the times
				must(c, os.Rename(t, name[0]), "rename")
			case strings.HasPrefix(ops[x], "close f"), strings.HasPrefix(ops[x], "close l"):
				if o := pickOpen(f, strings.HasPrefix(ops[x], "close l")); o != nil {
					must(c, o.a.Close(), ops[x])
					o.open = false
				}
			case ops[x] == "close again":
				for f := range all {
					for _, o := range all[f] {
						if !o.open {
							must(c, o.a.Close(), ops[x])
						}
					}
				}
			default:
				p := filepath.Join(c.Dir, "nowhere")
				if ops[x] == "open directory" {
					p = filepath.Join(c.Dir, "dir")
				} else if ops[x] == "open empty" {
					p = filepath.Join(c.Dir, "empty.bin")
				}
				if _, err := al.Open(p); err == nil {
					c.Fail("%s: no error", ops[x])
				}
				if _, ok := al.Get(p); ok {
					c.Fail("%s: failed, but Get finds it", ops[x])
				}
			}
			for f := range all {
				var latest *fileOpen
				if n := len(all[f]); n > 0 {
					latest = all[f][n-1]
				}
				a, ok := al.Get(name[f])
				var which *fileOpen
				if ok {
					for _, o := range all[f] {
						if o.a == a {
							which = o
						}
					}
				}
				switch {
				case ok && (which == nil || !which.open):
					c.Fail("after %s: Get of file %d gives an allocation that is not open", ops[x], f)
				case latest != nil && latest.open && which != latest:
					c.Fail("after %s: Get of file %d does not give the open allocation", ops[x], f)
				}
				for i, o := range all[f] {
					if o.open && (o.a.Size() != int64(len(o.want)) || !bytes.Equal(contents(o.a), o.want)) {
						c.Fail("after %s: allocation %d of file %d has other contents (size %d, expected %d)", ops[x], i, f, o.a.Size(), len(o.want))
					}
				}
			}
			c.Transition(1)
		}
		for f := range all {
			for _, o := range all[f] {
				must(c, o.a.Close(), "close in the end")
			}
			if _, ok := al.Get(name[f]); ok {
				c.Fail("all closed, but Get still finds file %d", f)
			}
		}
		if l := left(c); l != "" {
			c.Fail("all closed, but left: %s", l)
		}
		c.Outcome(len(all[0]), len(all[1]), len(now[0]))
		c.State(1)
		c.Trace(1)
		c.Tick()
	}
	for first := range ops {
		for second := range ops {
			c.Unit(fmt.Sprintf("%s: sequences from %q, %q", loader, ops[first], ops[second]), func() {
				os.MkdirAll(filepath.Join(c.Dir, "dir"), 0o755)
				must(c, os.WriteFile(filepath.Join(c.Dir, "empty.bin"), nil, 0o644), "write")
				for d := 0; d <= depth-2; d++ {
					lab.Sequences(len(ops), d, func(s []int) {
						run(append([]int{first, second}, s...))
					})
				}
				c.Sample(func() string { return fmt.Sprintf("all continuations up to %d operations", depth) })
			})
		}
	}
}

// noise has a period that no power of two divides
var noise = func() []byte {
	b := make([]byte, 1<<16+3)
	for i := range b {
		b[i] = byte(i*i>>7+i*11) | 1
	}
	return b
}()

func fillNoise(b []byte) {
	for o := 0; o < len(b); o += len(noise) {
		copy(b[o:], noise)
	}
}

// firstOff is the first byte that differs from the noise, -1 if none does.
func firstOff(b []byte) int {
	for o := 0; o < len(b); o += len(noise) {
		e := b[o:min(len(b), o+len(noise))]
		if !bytes.Equal(e, noise[:len(e)]) {
			for i := range e {
				if e[i] != noise[i] {
					return o + i
				}
			}
		}
	}
	return -1
}

func firstSet(b []byte) int {
	var zero [1 << 16]byte
	for o := 0; o < len(b); o += len(zero) {
		e := b[o:min(len(b), o+len(zero))]
		if !bytes.Equal(e, zero[:len(e)]) {
			for i := range e {
				if e[i] != 0 {
					return o + i
				}
			}
		}
	}
	return -1
}

func c25grow(c *rt.Ctx) {
	sizes := []int{1, 63, 65, 4095, 4099, 65535, 65537, 1<<18 + 1, 1<<20 - 3, 1<<20 + 13, 1<<21 + 65, 1<<22 - 1, 1<<24 + 7, 1<<25 + 4097, 1 << 26}
	if c.Thorough {
		sizes = append(sizes, 1<<28+3, 1<<29+5)
	}
	for _, first := range sizes {
		c.Unit(fmt.Sprintf("build allocator, large sizes, first %d", first), func() {
			for _, second := range sizes {
				third := second + second/3 + 1
				c.Step(func() string { return fmt.Sprintf("requests %d %d %d", first, second, third) })
				a := memory.GoGCIndexAllocator()
				have := 0
				for _, n := range []int{first, second, third} {
					b := unsafe.Slice((*byte)(a.Reallocate(n)), n)
					was := min(have, n)
					if i := firstOff(b[:was]); i >= 0 {
						c.Fail("requests %d %d %d: byte %d of %d is lost at the request of %d", first, second, third, i, was, n)
					}
					if i := firstSet(b[was:]); i >= 0 {
						c.Fail("requests %d %d %d: new byte %d is not zero at the request of %d", first, second, third, was+i, n)
					}
					if n > have {
						fillNoise(b)
						have = n
					}
					c.Tick()
				}
				a.Free()
				c.Transition(4)
				c.State(1)
				c.Trace(1)
				c.Outcome(first, second)
			}
			runtime.GC()
		})
	}
	for _, step := range []int{1, 13, 64, 1000, 4096, 5001} {
		c.Unit(fmt.Sprintf("build allocator, steps of %d bytes", step), func() {
			a := memory.GoGCIndexAllocator()
			for n, i := step, 0; i < 700; n, i = n+step, i+1 {
				b := unsafe.Slice((*byte)(a.Reallocate(n)), n)
				if j := firstOff(b[:n-step]); j >= 0 {
					c.Fail("request %d of %d bytes: byte %d is lost", i, n, j)
				}
				if j := firstSet(b[n-step:]); j >= 0 {
					c.Fail("request %d of %d bytes: byte %d is not zero", i, n, n-step+j)
				}
				fillNoise(b)
				if i%50 == 0 {
					runtime.GC()
					c.Tick()
				}
				c.Transition(1)
			}
			a.Free()
			c.State(1)
			c.Trace(1)
		})
	}
}

func c25many(c *rt.Ctx, loader string) {
	c.Unit(loader+": names", func() {
		d := filepath.Join(c.Dir, "dir with spaces", "..x")
		must(c, os.MkdirAll(d, 0o755), "directory")
		names := []string{" ", "-", "a b", "a:b", "%41", "a\nb", "\xff\xfe", "ä", strings.Repeat("x", 255), "x.ann", "x.ANN", "x.ann.tmp", "...", "~", "*", "$HOME", "file:x", "0"}
		al := lab.Loader(loader)
		var all []interfaces.AllocatedIndex
		for i, n := range names {
			b := pattern(50+i, byte(i))
			must(c, os.WriteFile(filepath.Join(d, n), b, 0o644), "write")
			a, err := al.Open(filepath.Join(d, n))
			must(c, err, fmt.Sprintf("open %q", n))
			all = append(all, a)
		}
		for i, n := range names {
			if !bytes.Equal(contents(all[i]), pattern(50+i, byte(i))) {
				c.Fail("file %q has other contents", n)
			}
			if a, ok := al.Get(filepath.Join(d, n)); !ok || a != all[i] {
				c.Fail("Get(%q) does not give the open allocation", n)
			}
			// another spelling of the name: nothing, or the allocation of the same file
			if a, ok := al.Get(d + "/./" + n); ok && !bytes.Equal(contents(a), pattern(50+i, byte(i))) {
				c.Fail("another spelling of %q gives other contents", n)
			}
		}
		for i, n := range names {
			must(c, all[i].Close(), "close")
			if _, ok := al.Get(filepath.Join(d, n)); ok {
				c.Fail("Get(%q) finds a closed file", n)
			}
		}
		if l := left(c); l != "" {
			c.Fail("all closed, but left: %s", l)
		}
		c.State(len(names))
		c.Transition(3 * len(names))
		c.Trace(1)
	})
	for order := 0; order < 5; order++ {
		c.Unit(fmt.Sprintf("%s: many files, order %d of closing", loader, order), func() {
			const n = 300
			al := lab.Loader(loader)
			name := func(i int) string { return filepath.Join(c.Dir, fmt.Sprint("many", i)) }
			var all [2 * n]interfaces.AllocatedIndex
			for i := range all { // each file twice
				if i < n {
					must(c, os.WriteFile(name(i), pattern(40+i*31, byte(i)), 0o644), "write")
				}
				a, err := al.Open(name(i % n))
				must(c, err, "open")
				all[i] = a
			}
			open := make([]bool, 2*n)
			for i := range open {
				open[i] = true
			}
			look := func() {
				for i := range all {
					if open[i] && !bytes.Equal(contents(all[i]), pattern(40+i%n*31, byte(i%n))) {
						c.Fail("allocation %d of %d files has other contents", i, n)
					}
					if a, ok := al.Get(name(i % n)); open[n+i%n] && (!ok || a != all[n+i%n]) || ok && !open[n+i%n] && (!open[i%n] || a != all[i%n]) {
						c.Fail("Get of file %d does not give the open allocation", i%n)
					}
				}
				c.Tick()
			}
			look()
			for k := range all {
				i := [5]int{k, 2*n - 1 - k, k * 7 % (2 * n), k/2 + k%2*n, k/2 + (1-k%2)*n}[order]
				for !open[i] {
					i = (i + 1) % (2 * n)
				}
				must(c, all[i].Close(), "close")
				open[i] = false
				if k%61 == 0 {
					look()
				}
				c.Transition(1)
			}
			look()
			if l := left(c); l != "" {
				c.Fail("all closed, but left: %s", l)
			}
			c.State(1)
			c.Trace(1)
		})
	}
	c.Unit(loader+": thousands of openings", func() {
		p, q := filepath.Join(c.Dir, "often"), filepath.Join(c.Dir, "often2")
		must(c, os.WriteFile(p, pattern(777, 3), 0o644), "write")
		must(c, os.WriteFile(q, pattern(555, 4), 0o644), "write")
		al := lab.Loader(loader)
		for i := 0; i < 5000; i++ {
			a, err := al.Open(p)
			must(c, err, "open")
			b, err := al.Open(q)
			must(c, err, "open")
			if !bytes.Equal(contents(a), pattern(777, 3)) || !bytes.Equal(contents(b), pattern(555, 4)) {
				c.Fail("opening %d: other contents", i)
			}
			if i%2 == 0 {
				a, b = b, a
			}
			must(c, a.Close(), "close")
			must(c, b.Close(), "close")
			if i%500 == 0 {
				if l := left(c); l != "" {
					c.Fail("opening %d: all closed, but left: %s", i, l)
				}
				c.Tick()
			}
		}
		if l := left(c); l != "" {
			c.Fail("all closed, but left: %s", l)
		}
		c.Transition(20000)
		c.State(1)
		c.Trace(1)
	})
}
