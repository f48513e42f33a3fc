package main

import (
	"fmt"
	"math"
	"math/big"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/vector"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---- C27

var c27 = &rt.Check{
	ID: "C27",
	Rule: "all ordered pairs of vectors over {-2,-1,0,1,3} of length <=3 (thorough: <=4) and every prefix length n of them, with NaN behind the prefix; " +
		"data sets of lengths 0..70 and around powers of two up to 65537 (thorough: every length to 600) with every data set paired with every other; " +
		"the vectors end at an inaccessible page; all four type combinations; Abs over all signs, zeros, infinities, NaN, extremes",
	Oracle: "exact rational arithmetic, equal when the exact result and all partial sums are representable and otherwise within n*eps of the sum of absolute terms; " +
		"safe and unsafe variants bit for bit; input bytes unchanged; no fault at the guard page",
	Run: func(c *rt.Ctx) {
		c27t[float32, uint32](c, 0)
		c27t[float32, uint64](c, 1)
		c27t[float64, uint32](c, 2)
		c27t[float64, uint64](c, 3)
	},
}

// guarded is memory that ends where an inaccessible page starts.
type guarded struct {
	mem []byte
	end uintptr
}

func newGuarded(size int) *guarded {
	size = (size + 4095) &^ 4095
	m, err := syscall.Mmap(-1, 0, size+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[size:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &guarded{mem: m[:size]}
}

func place[TV interfaces.VectorType](g *guarded, v []TV) []TV {
	n := len(v) * int(unsafe.Sizeof(TV(0)))
	p := unsafe.Slice((*TV)(unsafe.Pointer(uintptr(unsafe.Pointer(&g.mem[0]))+uintptr(len(g.mem)-n))), len(v))
	copy(p, v)
	return p
}

func rat(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }

func c27t[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, ty int) {
	const big1 = 1 << 17
	var ga, gb *guarded
	nan := TV(math.NaN())
	bitsOf := func(v TV) uint64 { return math.Float64bits(float64(v)) }

	// check one pair and one prefix length; exact: all partial results are representable
	check := func(a, b []TV, n int, exact bool) {
		c.Eval(9)
		c.State(1)
		c.Transition(6)
		c.Trace(1)
		x, y := place(ga, a), place(gb, b)
		dot, l1, l2 := new(big.Rat), new(big.Rat), new(big.Rat)
		var mag, mag1, mag2, sq float64
		if exact {
			var d, m1, m2 float64
			for i := 0; i < n; i++ {
				p, q := float64(a[i]), float64(b[i])
				d += p * q
				m1 += math.Abs(p - q)
				m2 += (p - q) * (p - q)
				sq += p * p
			}
			dot.SetFloat64(d)
			l1.SetFloat64(m1)
			l2.SetFloat64(m2)
		} else {
			for i := 0; i < n; i++ {
				p, q := float64(a[i]), float64(b[i])
				mag += math.Abs(p * q)
				mag1 += math.Abs(p - q)
				mag2 += (p - q) * (p - q)
				sq += p * p
				dot.Add(dot, new(big.Rat).Mul(rat(p), rat(q)))
				df := new(big.Rat).Sub(rat(p), rat(q))
				l2.Add(l2, new(big.Rat).Mul(df, df))
				l1.Add(l1, df.Abs(df))
			}
		}
		tol := func(m float64) float64 {
			if exact {
				return 0
			}
			return float64(n+4) * eps[TV]() * m * 1.01
		}
		cmp := func(what string, got TV, want *big.Rat, tol float64) {
			w, _ := want.Float64()
			if g := float64(got); math.IsNaN(g) || math.Abs(g-w) > tol {
				c.Fail("%s of the first %d elements of %v and %v is %v, expected %v", what, n, shorten(a), shorten(b), got, w)
			}
			c.OutcomeHash(math.Float64bits(w))
		}
		var d1, d2, n1, n2, e, m TV
		if p := rt.Panics(func() {
			d1 = vector.Dot(x, y, TIX(n))
			d2 = vector.DotUnsafe(unsafe.SliceData(x), unsafe.SliceData(y), TIX(n))
			n1 = vector.GetNorm(x, TIX(n))
			n2 = vector.GetNormUnsafe(unsafe.SliceData(x), TIX(n))
			e = vector.EuclideanDistance(x, y, TIX(n))
			m = vector.ManhattanDistance(x, y, TIX(n))
		}); p != nil {
			c.Fail("with the first %d elements of %v and %v: %v", n, shorten(a), shorten(b), p)
		}
		cmp("Dot", d1, dot, tol(mag))
		cmp("DotUnsafe", d2, dot, tol(mag))
		cmp("EuclideanDistance", e, l2, tol(mag2))
		cmp("ManhattanDistance", m, l1, tol(mag1))
		rn := math.Sqrt(sq)
		if math.Abs(float64(n1)-rn) > float64(n+4)*eps[TV]()*rn || math.Abs(float64(n2)-rn) > float64(n+4)*eps[TV]()*rn ||
			math.IsNaN(float64(n1)) || math.IsNaN(float64(n2)) {
			c.Fail("norm of the first %d elements of %v is %v, unsafe %v, expected %v", n, shorten(a), n1, n2, rn)
		}
		if bitsOf(d1) != bitsOf(d2) || bitsOf(n1) != bitsOf(n2) {
			c.Fail("safe and unsafe variants differ for the first %d elements of %v and %v: dot %v %v, norm %v %v", n, shorten(a), shorten(b), d1, d2, n1, n2)
		}
		for i := range a {
			if bitsOf(x[i]) != bitsOf(a[i]) || bitsOf(y[i]) != bitsOf(b[i]) {
				c.Fail("input modified at %d: %v %v, was %v %v", i, x[i], y[i], a[i], b[i])
			}
		}
	}
	setup := func() {
		if ga == nil {
			ga, gb = newGuarded(big1*8+4096), newGuarded(big1*8+4096)
		}
	}
	maxd := 3
	if c.Thorough {
		maxd = 4
	}
	for d := 0; d <= maxd; d++ {
		all := lattice(d, -2, -1, 0, 1, 3)
		parts := 1
		if d >= 3 {
			parts = 4
		}
		for part := 0; part < parts; part++ {
			c.Unit(fmt.Sprintf("%s lattice length=%d part %d", tyNames[ty], d, part), func() {
				setup()
				for i := part; i < len(all); i += parts {
					for j := range all {
						for n := 0; n <= d; n++ {
							a, b := lab.Conv[TV](all[i]), lab.Conv[TV](all[j])
							for k := n; k < d; k++ {
								a[k], b[k] = nan, nan
							}
							c.Step(func() string { return fmt.Sprintf("%v %v n=%d", a, b, n) })
							check(a, b, n, true)
						}
					}
					c.Tick()
				}
				c.Sample(func() string { return fmt.Sprintf("pairs of %d vectors", len(all)) })
			})
		}
	}
	var lens []int
	for l := 0; l <= 70; l++ {
		lens = append(lens, l)
	}
	if c.Thorough {
		for l := 71; l <= 600; l++ {
			lens = append(lens, l)
		}
	}
	for _, p := range []int{128, 256, 512, 1024, 4096} {
		lens = append(lens, p-1, p, p+1)
	}
	long := []int{65535, 65536, 65537}
	for part := 0; part < 8; part++ {
		c.Unit(fmt.Sprintf("%s data sets part %d", tyNames[ty], part), func() {
			setup()
			for li := part; li < len(lens); li += 8 {
				n := lens[li]
				for ai, an := range lab.AllData {
					for bi, bn := range lab.AllData {
						if n > 70 && (ai+bi+n)%8 != 0 {
							continue
						}
						if c.Cut() {
							return
						}
						a, b := make([]TV, n+3), make([]TV, n+3)
						if n > 0 {
							copy(a, lab.Conv[TV](lab.Data(an, n, 3)[1]))
							copy(b, lab.Conv[TV](lab.Data(bn, n, 5)[2]))
						}
						for k := n; k < n+3; k++ {
							a[k], b[k] = nan, nan
						}
						c.Step(func() string { return fmt.Sprintf("%s %s n=%d", an, bn, n) })
						check(a, b, n, false)
						check(a[:n], b[:n], n, false)
					}
				}
				c.Tick()
			}
		})
	}
	c.Unit(tyNames[ty]+" long", func() {
		setup()
		for _, n := range long {
			a, b := make([]TV, n), make([]TV, n)
			for i := range a {
				a[i], b[i] = TV(i%7-3), TV(i%5-1)
			}
			check(a, b, n, true)
			c.Tick()
		}
	})
	c.Unit(tyNames[ty]+" abs", func() {
		inf := math.Inf(1)
		max, tiny := float64(math.MaxFloat32), float64(math.SmallestNonzeroFloat32)
		if unsafe.Sizeof(TV(0)) == 8 {
			max, tiny = math.MaxFloat64, math.SmallestNonzeroFloat64
		}
		l := []float64{0, math.Copysign(0, -1), inf, max, tiny}
		for e := -120; e <= 120; e++ {
			for m := 1; m < 64; m++ {
				l = append(l, math.Ldexp(float64(m), e-5))
			}
		}
		for _, x := range l {
			for _, s := range []TV{TV(x), TV(-x)} {
				c.State(1)
				c.Transition(1)
				c.Eval(1)
				if g := vector.Abs(s); float64(g) != math.Abs(float64(s)) {
					c.Fail("Abs(%v) is %v", s, g)
				}
			}
		}
		if g := vector.Abs(nan); !math.IsNaN(float64(g)) {
			c.Fail("Abs(NaN) is %v", g)
		}
	})
}

func shorten[T any](v []T) string {
	if len(v) > 8 {
		return fmt.Sprintf("%v... (%d)", v[:8], len(v))
	}
	return fmt.Sprint(v)
}
