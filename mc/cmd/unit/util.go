package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---- C28

var c28 = &rt.Check{
	ID: "C28",
	Rule: "every pair of subsets of a set of ids (6, thorough 7) in every rotation and reversal of their order, and longer sets (to 70000) across the sort's internal switches; " +
		"copying nodes of every type and vector length to 40; rounding of all multiples of 1/8 in a range, all places, and of large integers; " +
		"the precision command for the product of its boolean options and several items, lengths and counts",
	Oracle: "reference implementations; exit status, printed precision, files left behind and the kept index file of the command",
	Run: func(c *rt.Ctx) {
		inter[uint32](c, "u32")
		inter[uint64](c, "u64")
		copying[float32, uint32](c, 0)
		copying[float32, uint64](c, 1)
		copying[float64, uint32](c, 2)
		copying[float64, uint64](c, 3)
		arith(c)
		precision(c)
	},
}

func inter[TIX interfaces.IndexTypes](c *rt.Ctx, ty string) {
	n := 6
	if c.Thorough {
		n = 7
	}
	values := []TIX{0, 1, 2, 5, 1 << 20, 1<<31 + 3, ^TIX(0)}[:n]
	values[n-1] = ^TIX(0)
	orders := func(mask int) (out [][]TIX) {
		var base []TIX
		for i := range values {
			if mask>>i&1 == 1 {
				base = append(base, values[i])
			}
		}
		if len(base) == 0 {
			return [][]TIX{{}, nil}
		}
		for r := range base {
			rot := append(append([]TIX{}, base[r:]...), base[:r]...)
			rev := make([]TIX, len(rot))
			for i := range rot {
				rev[len(rot)-1-i] = rot[i]
			}
			out = append(out, rot, rev)
		}
		return
	}
	one := func(a, b []TIX) {
		want := []TIX{}
		in := map[TIX]bool{}
		for _, x := range a {
			in[x] = true
		}
		for _, x := range b {
			if in[x] {
				want = append(want, x)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		x, y := append([]TIX(nil), a...), append([]TIX(nil), b...)
		got := utils.Intersection(x, y)
		c.Eval(1)
		c.State(1)
		c.Transition(1)
		if len(got) != len(want) || (len(want) > 0 && fmt.Sprint(got) != fmt.Sprint(want)) {
			c.Fail("the intersection of %v and %v is %v, expected %v", shorten(a), shorten(b), shorten(got), shorten(want))
		}
		c.OutcomeHash(uint64(len(got)))
	}
	for part := 0; part < 4; part++ {
		c.Unit(fmt.Sprintf("intersection %s part %d", ty, part), func() {
			for ma := part; ma < 1<<n; ma += 4 {
				for mb := 0; mb < 1<<n; mb++ {
					for _, a := range orders(ma) {
						for _, b := range orders(mb) {
							c.Step(func() string { return fmt.Sprint(a, b) })
							one(a, b)
						}
					}
				}
				c.Tick()
			}
		})
	}
	c.Unit("intersection "+ty+" long", func() {
		for _, la := range []int{0, 1, 50, 60, 61, 99, 100, 101, 300, 499, 500, 501, 1000, 5000} {
			for _, lb := range []int{0, 1, 3, 60, 100, 500, 1001} {
				for mul := 1; mul <= 3; mul++ {
					var a, b []TIX
					for i := 0; i < la; i++ {
						a = append(a, TIX(i*7919%la))
					}
					for i := 0; i < lb; i++ {
						b = append(b, TIX((lb-i)*mul))
					}
					one(a, b)
					one(b, a)
				}
			}
			c.Tick()
		}
	})
	c.Unit("intersection "+ty+" large", func() {
		shift := uint(0)
		if ^TIX(0)>>31>>1 != 0 {
			shift = 33
		}
		for _, la := range []int{3999, 4001, 4095, 4096, 4097, 9000, 65535, 65537, 70000} {
			for _, lb := range []int{1, 4097, 70001} {
				for style := 0; style < 3; style++ {
					val := func(i int) TIX {
						switch style {
						case 1: // many of the values agree in the low bits
							return TIX(i%257) | TIX(i/257)<<20<<(shift/3)
						case 2:
							return TIX(i%7)<<28<<(shift-shift/8) | TIX(i/7)
						}
						return TIX(i)
					}
					var a, b []TIX
					for i := 0; i < la; i++ {
						a = append(a, val(i*7919%la))
					}
					for i := 0; i < lb; i++ {
						b = append(b, val((lb-i)*3))
					}
					one(a, b)
					one(b, a)
					c.Tick()
				}
			}
		}
	})
	c.Unit("max "+ty, func() {
		l := append(append([]TIX{}, values...), ^TIX(0)-1, ^TIX(0)>>1, ^TIX(0)>>1+1, 3)
		for _, a := range l {
			for _, b := range l {
				want := a
				if b > a {
					want = b
				}
				c.Eval(1)
				if g := utils.Max(a, b); g != want {
					c.Fail("Max(%v, %v) is %v", a, b, g)
				}
			}
		}
		c.State(len(l) * len(l))
		c.Transition(len(l) * len(l))
	})
}

func copying[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, ty int) {
	for _, metric := range []string{"ang", "dot"} {
		c.Unit(fmt.Sprintf("copy %s %s", tyNames[ty], metric), func() {
			dims := []int{}
			for d := 1; d <= 40; d++ {
				dims = append(dims, d)
			}
			dims = append(dims, 1000, 1024, 1025, 4096, 20000)
			for _, dim := range dims {
				var d interfaces.Distance[TV, TIX] = angular.Distance[TV](TIX(dim))
				if metric == "dot" {
					d = dotproduct.Distance[TV](TIX(dim))
				}
				size := int(d.NodeSize())
				// three nodes of each: the middle ones are copied
				w := size*3/8 + 2
				for from := 0; from < 3; from++ {
					for to := 0; to < 3; to++ {
						mk := func(seed byte) ([]uint64, []byte) {
							m := make([]uint64, w)
							b := unsafe.Slice((*byte)(unsafe.Pointer(&m[0])), w*8)
							for i := range b {
								b[i] = byte(i)*31 + seed + byte(i>>8)
							}
							return m, b
						}
						ms, bs := mk(7)
						md, bd := mk(101)
						ws, wd := append([]byte(nil), bs...), append([]byte(nil), bd...)
						copy(wd[to*size:(to+1)*size], ws[from*size:(from+1)*size])
						c.Step(func() string { return fmt.Sprintf("vector length %d, %d to %d", dim, from, to) })
						utils.CopyNode[TV, TIX](d.MapNodeToMemory(unsafe.Pointer(&md[0]), TIX(to)), d.MapNodeToMemory(unsafe.Pointer(&ms[0]), TIX(from)), TIX(size))
						c.Eval(2)
						c.State(1)
						c.Transition(1)
						if !bytes.Equal(bd, wd) {
							i := 0
							for bd[i] == wd[i] {
								i++
							}
							c.Fail("vector length %d: copying node %d to %d gives other bytes from offset %d of %d on (node size %d)", dim, from, to, i, len(bd), size)
						}
						if !bytes.Equal(bs, ws) {
							c.Fail("vector length %d: copying a node changes the source", dim)
						}
					}
				}
			}
			c.Tick()
		})
	}
}

func arith(c *rt.Ctx) {
	c.Unit("rounding", func() {
		for m := -8000; m <= 8000; m++ {
			f := float64(m) / 8
			want := math.Floor(float64((m+4)>>3<<3) / 8) // half up, exactly
			c.Eval(1)
			c.State(1)
			c.Transition(1)
			if g := utils.Round(f); g != want {
				c.Fail("Round(%v) is %v, expected %v", f, g, want)
			}
			for places := 0; places <= 6; places++ {
				// half up in units of 10^-places, with integers
				p := 1
				for i := 0; i < places; i++ {
					p *= 10
				}
				x := m*p*2 + 8 // (m/8*p + 1/2) * 16
				q := x / 16
				if x%16 < 0 {
					q--
				}
				w := float64(q) / float64(p)
				c.Eval(1)
				if g := utils.RoundPlus(f, places); math.Abs(g-w) > 1e-12*math.Max(1, math.Abs(w)) {
					c.Fail("RoundPlus(%v, %d) is %v, expected %v", f, places, g, w)
				}
			}
		}
		// large numbers: integers stay what they are
		for e := 10; e < 1023; e++ {
			for _, k := range []float64{1, 1.5, 1.25, 1.0009765625, 1.9999999} {
				for _, sign := range []float64{1, -1} {
					f := sign * math.Floor(math.Ldexp(k, e))
					c.State(1)
					c.Eval(1)
					tol := 0.0
					if e == 52 { // the sum with 1/2 may be rounded
						tol = 1
					}
					if g := utils.Round(f); !(math.Abs(g-f) <= tol) {
						c.Fail("Round(%v) is %v", f, g)
					}
					for places := 0; places <= 6 && e < 1000; places++ {
						c.Eval(1)
						if g := utils.RoundPlus(f, places); !(math.Abs(g-f) <= 1e-12*math.Abs(f)) {
							c.Fail("RoundPlus(%v, %d) is %v", f, places, g)
						}
					}
				}
			}
		}
		c.Tick()
	})
	c.Unit("measure", func() {
		n := 0
		if d := utils.Measure(func() { n++ }); n != 1 || d < 0 {
			c.Fail("Measure called its function %d times and returned %v", n, d)
		}
		d, r := utils.MeasureWithReturn(func() string { n++; return "x" })
		if n != 2 || r != "x" || d < 0 {
			c.Fail("MeasureWithReturn called its function %d times and returned %v %v", n-1, d, r)
		}
		c.Eval(2)
	})
}

var precLine = regexp.MustCompile(`limit = (\d+), precision = ([^,]+),`)

func precision(c *rt.Ctx) {
	bin := os.Getenv("VERIF_PRECISION")
	if bin == "" {
		c.Unit("precision command", func() { c.Note("precision_command_not_available", 1) })
		return
	}
	type size struct{ items, length, prec int }
	sizes := []size{{1, 1, 1}, {2, 3, 2}, {9, 4, 3}, {10, 5, 12}, {11, 2, 5}, {99, 3, 4}, {100, 4, 4}, {101, 2, 3}, {500, 6, 2}}
	if c.Thorough {
		for n := 3; n <= 30; n++ {
			sizes = append(sizes, size{n, 1 + n%7, 1 + n%3})
		}
		sizes = append(sizes, size{499, 1, 2}, size{501, 2, 2}, size{1000, 10, 5}, size{1001, 40, 2})
	}
	for _, sz := range sizes {
		for opt := 0; opt < 64; opt++ {
			cpu, mem := opt&16 != 0, opt&32 != 0
			if !c.Thorough && ((cpu || mem) && sz.items != 10 || opt&4 != 0 && sz.items > 101) {
				continue
			}
			key := fmt.Sprintf("precision items=%d length=%d prec=%d options=%06b", sz.items, sz.length, sz.prec, opt)
			c.Unit(key, func() {
				dir := filepath.Join(c.Dir, "prec")
				os.RemoveAll(dir)
				tmp := filepath.Join(dir, "tmp")
				cwd := filepath.Join(dir, "cwd")
				os.MkdirAll(tmp, 0o755)
				os.MkdirAll(cwd, 0o755)
				args := []string{"-items", strconv.Itoa(sz.items), "-length", strconv.Itoa(sz.length), "-prec", strconv.Itoa(sz.prec)}
				for i, f := range []string{"-file", "-keep", "-verbose", "-use-memory-index-allocator", "-cpu-profile", "-mem-profile"} {
					if opt>>i&1 == 1 {
						args = append(args, f)
					}
				}
				cmd := exec.Command(bin, args...)
				cmd.Dir = cwd
				cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				err := cmd.Run()
				c.Tick()
				c.State(1)
				c.Transition(1)
				c.Trace(1)
				c.Eval(3)
				what := strings.Join(args, " ")
				if cpu && mem {
					if err == nil {
						c.Fail("precision %s: both profiles are requested, but the exit status is 0", what)
					}
					return
				}
				if err != nil {
					c.Fail("precision %s: %v\n%s", what, err, errb.String())
				}
				text := out.String()
				res, rerr := os.ReadFile(filepath.Join(cwd, "results.txt"))
				if opt&1 != 0 {
					if rerr != nil {
						c.Fail("precision %s: no results.txt: %v", what, rerr)
					}
					text = string(res)
				} else if rerr == nil {
					c.Fail("precision %s: writes results.txt without being asked to", what)
				}
				lines := precLine.FindAllStringSubmatch(text, -1)
				var limits []int
				for i := 1; i <= sz.items; i *= 10 {
					limits = append(limits, i)
					if i == 100 {
						limits = append(limits, 500)
					}
				}
				if len(lines) != len(limits) {
					c.Fail("precision %s: %d precision lines, expected %d\n%s", what, len(lines), len(limits), text)
				}
				for i, l := range lines {
					lim, _ := strconv.Atoi(l[1])
					p, err := strconv.ParseFloat(strings.TrimSpace(l[2]), 64)
					if lim != limits[i] || err != nil || math.IsNaN(p) || p < 0 || p > 1+1e-9 {
						c.Fail("precision %s: line %q", what, l[0])
					}
					// The reference has a budget of one node per item and finds each item at most
					// once per tree; the answer it is compared with holds every item.
					trees := 2 * sz.length
					least := (sz.items + trees - 1) / trees
					if least > 10 {
						least = 10
					}
					if lim >= sz.items && p < float64(least)/10-1e-6 {
						c.Fail("precision %s: precision %v for %d of %d items, with %d trees it is at least %v", what, p, lim, sz.items, trees, float64(least)/10)
					}
					if most := float64(min(lim, min(10, sz.items))) / 10; p > most+1e-6 {
						c.Fail("precision %s: precision %v for %d of %d items, at most %v is possible", what, p, lim, sz.items, most)
					}
				}
				st, serr := os.Stat(filepath.Join(cwd, "test.ann"))
				if opt&2 == 0 {
					if serr == nil {
						c.Fail("precision %s: leaves its index file behind", what)
					}
				} else {
					if serr != nil {
						c.Fail("precision %s: the index file is not kept: %v", what, serr)
					}
					s := lab.Spec{Metric: "ang", Dim: sz.length, T: 2 * sz.length, W: -1}
					ns := int64(12 + 4*sz.length)
					if st.Size()%ns != 0 || st.Size()/ns < int64(sz.items+2*s.T-1) && sz.items > 1 {
						c.Fail("precision %s: the kept index file has %d bytes", what, st.Size())
					}
					idx := lab.Make[float32, uint32](s)
					if err := idx.Load(filepath.Join(cwd, "test.ann")); err != nil {
						c.Fail("precision %s: the kept index file cannot be loaded: %v", what, err)
					}
					ids, _ := idx.GetNnsByVector(make([]float32, sz.length), sz.items+5, 1<<20, idx.CreateContext())
					idx.Close()
					if len(ids) != sz.items {
						c.Fail("precision %s: the kept index file has %d items", what, len(ids))
					}
				}
				ents, _ := os.ReadDir(cwd)
				for _, e := range ents {
					if n := e.Name(); n != "test.ann" && n != "results.txt" {
						c.Fail("precision %s: leaves %s behind", what, n)
					}
				}
				os.RemoveAll(dir)
			})
		}
	}
}
