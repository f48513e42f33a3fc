package main

import (
	"fmt"
	"math"
	"math/big"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// lattice returns all vectors of dimension d over the alphabet.
func lattice(d int, alphabet ...float64) (out [][]float64) {
	n := 1
	for i := 0; i < d; i++ {
		n *= len(alphabet)
	}
	for x := 0; x < n; x++ {
		v := make([]float64, d)
		q := x
		for j := range v {
			v[j] = alphabet[q%len(alphabet)]
			q /= len(alphabet)
		}
		out = append(out, v)
	}
	return
}

func eps[TV interfaces.VectorType]() float64 {
	if unsafe.Sizeof(TV(0)) == 4 {
		return 1.0 / (1 << 23)
	}
	return 1.0 / (1 << 52)
}

// refSq is the squared angular distance 2-2cos of two vectors, computed with 300 bits.
func refSq[TV interfaces.VectorType](a, b []TV) float64 {
	nb := func() *big.Float { return new(big.Float).SetPrec(300) }
	aa, bb, ab := nb(), nb(), nb()
	for i := range a {
		x, y := nb().SetFloat64(float64(a[i])), nb().SetFloat64(float64(b[i]))
		aa.Add(aa, nb().Mul(x, x))
		bb.Add(bb, nb().Mul(y, y))
		ab.Add(ab, nb().Mul(x, y))
	}
	if aa.Sign() == 0 || bb.Sign() == 0 {
		return 2
	}
	s := nb().Sqrt(nb().Mul(aa, bb))
	q := nb().Quo(ab, s)
	q.Mul(q, nb().SetFloat64(-2))
	q.Add(q, nb().SetFloat64(2))
	f, _ := q.Float64()
	return f
}

// ---- C18

var c18 = &rt.Check{
	ID: "C18",
	Rule: "all ordered pairs of vectors of the lattice {-2..2}^d for d<=3 (thorough: {-3..3}^3 and {-1,0,1}^4,5), " +
		"all pairs of a sweep of directions of the plane, pairs of every data set for dimensions up to 1000, " +
		"each with every combination of a set of lengths (powers of two), prepared as the index prepares items, as a query, " +
		"or not at all, and through GetDistance of built indexes; four type combinations",
	Oracle: "squared distance against 2-2cos computed with 300 bits; range, NaN, zero vectors, symmetry, independence of length",
	Assumptions: []string{
		"vectors whose squared lengths, or the product of them, overflow or underflow the element type are out of scope (see the property)",
	},
	Run: func(c *rt.Ctx) {
		c18t[float32, uint32](c, 0)
		c18t[float32, uint64](c, 1)
		c18t[float64, uint32](c, 2)
		c18t[float64, uint64](c, 3)
	},
}

type dnode[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	mem []uint64
	n   interfaces.Node[TV, TIX]
}

func mkNode[TV interfaces.VectorType, TIX interfaces.IndexTypes](d interfaces.Distance[TV, TIX], v []TV, init bool) dnode[TV, TIX] {
	mem := make([]uint64, int(d.NodeSize())/8+2)
	n := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(mem)), 0)
	n.SetVector(v)
	if init {
		d.InitNode(n)
	}
	return dnode[TV, TIX]{mem, n}
}

func scales[TV interfaces.VectorType](thorough bool) (out [][2]int) {
	u := 1
	if unsafe.Sizeof(TV(0)) == 8 {
		u = 8
	}
	l := [][2]int{{0, 0}, {0, 3}, {7, -7}, {-28, -28}, {28, 28}, {55, -55}, {-50, 50}, {14, 0}, {0, -20}}
	if thorough {
		l = nil
		for a := -55; a <= 55; a += 5 {
			for b := -55; b <= 55; b += 5 {
				if a+b <= 56 && a+b >= -56 {
					l = append(l, [2]int{a, b})
				}
			}
		}
	}
	for _, p := range l {
		out = append(out, [2]int{p[0] * u, p[1] * u})
	}
	return
}

func c18t[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, ty int) {
	// pair checks one pair; d2 is the reference (of the unscaled vectors)
	pair := func(d interfaces.Distance[TV, TIX], a, b []TV, d2 float64, what string) {
		tol := 6 * float64(len(a)+4) * eps[TV]()
		for prep := 0; prep < 4; prep++ {
			x, y := mkNode(d, a, prep&1 != 0), mkNode(d, b, prep&2 != 0)
			for dir := 0; dir < 2; dir++ {
				if dir == 1 {
					x, y = y, x
				}
				raw := d.Distance(x.n, y.n)
				v := float64(d.NormalizedDistance(raw))
				c.Eval(1)
				if math.IsNaN(v) || v < 0 || v > 2+tol {
					c.Fail("distance of %v and %v (%s, prepared=%b, direction %d) is %v", a, b, what, prep, dir, v)
				}
				if math.Abs(v*v-d2) > tol || math.Abs(float64(raw)-d2) > tol {
					c.Fail("distance of %v and %v (%s, prepared=%b, direction %d) is %v (raw %v), expected %v", a, b, what, prep, dir, v, raw, math.Sqrt(math.Max(0, d2)))
				}
				c.OutcomeHash(math.Float64bits(v))
			}
		}
	}
	scaled := func(d interfaces.Distance[TV, TIX], a, b []float64, sc [][2]int) {
		d2 := refSq(lab.Conv[TV](a), lab.Conv[TV](b))
		for _, s := range sc {
			x, y := make([]TV, len(a)), make([]TV, len(a))
			for i := range a {
				x[i], y[i] = TV(math.Ldexp(a[i], s[0])), TV(math.Ldexp(b[i], s[1]))
			}
			c.Step(func() string { return fmt.Sprintf("%v * 2^%d, %v * 2^%d", a, s[0], b, s[1]) })
			pair(d, x, y, d2, fmt.Sprintf("lengths times 2^%d, 2^%d", s[0], s[1]))
		}
		c.State(1)
		c.Transition(8 * len(sc))
		c.Tick()
	}
	type space struct {
		name string
		d    int
		a    []float64
		step int
	}
	spaces := []space{
		{"lattice", 1, []float64{-3, -2, -1, 0, 1, 2, 3}, 1}, {"lattice", 2, []float64{-2, -1, 0, 1, 2}, 1},
		{"lattice", 3, []float64{-2, -1, 0, 1, 2}, 8},
	}
	if c.Thorough {
		spaces = []space{
			{"lattice", 1, []float64{-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5}, 1}, {"lattice", 2, []float64{-3, -2, -1, 0, 1, 2, 3}, 4},
			{"lattice", 3, []float64{-2, -1, 0, 1, 2}, 16}, {"lattice", 4, []float64{-1, 0, 1}, 16}, {"lattice", 5, []float64{-1, 0, 1}, 27},
		}
	}
	for _, s := range spaces {
		all := lattice(s.d, s.a...)
		sc := scales[TV](c.Thorough)
		if s.d >= 3 {
			sc = scales[TV](false)
		}
		for part := 0; part < s.step; part++ {
			c.Unit(fmt.Sprintf("%s lattice dim=%d part %d", tyNames[ty], s.d, part), func() {
				d := angular.Distance[TV](TIX(s.d))
				for i := part; i < len(all); i += s.step {
					for j := i; j < len(all); j++ { // pair measures both directions
						if c.Cut() {
							return
						}
						scaled(d, all[i], all[j], sc)
					}
				}
				c.Trace(len(all))
				c.Sample(func() string { return fmt.Sprintf("pairs of %v with %d vectors", all[part], len(all)) })
			})
		}
	}
	// directions of the plane, near each other in particular
	n := 48
	if c.Thorough {
		n = 360
	}
	for part := 0; part < 4; part++ {
		c.Unit(fmt.Sprintf("%s directions part %d", tyNames[ty], part), func() {
			d := angular.Distance[TV](TIX(2))
			dir := func(a float64) []float64 {
				v := []float64{math.Cos(a), math.Sin(a)}
				for k := range v {
					if math.Abs(v[k]) < 1e-6 {
						v[k] = 0
					}
					v[k] = float64(float32(v[k]))
				}
				return v
			}
			var other []float64
			for i := 0; i <= n; i++ {
				other = append(other, 2*math.Pi*float64(i)/float64(n))
			}
			for e := 2; e < 26; e++ {
				other = append(other, math.Ldexp(1, -e), math.Pi-math.Ldexp(1, -e), math.Pi/2+math.Ldexp(1, -e))
			}
			for i := part; i < n; i += 4 {
				a := 2 * math.Pi * float64(i) / float64(n)
				for _, o := range other {
					scaled(d, dir(a), dir(a+o), scales[TV](false)[:3])
				}
			}
		})
	}
	// data sets: longer vectors, through nodes and through an index
	dims := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 100, 255, 1000}
	if c.Thorough {
		dims = nil
		for d := 1; d <= 70; d++ {
			dims = append(dims, d)
		}
		dims = append(dims, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4096)
	}
	for _, dim := range dims {
		c.Unit(fmt.Sprintf("%s data sets dim=%d", tyNames[ty], dim), func() {
			d := angular.Distance[TV](TIX(dim))
			num := 9
			for _, name := range lab.AllData {
				if c.Cut() {
					return
				}
				vecs := lab.Data(name, dim, num)
				items := lab.Items("dense", vecs)
				idx, _ := lab.Built[TV, TIX](lab.Spec{Metric: "ang", Dim: dim, T: 2, W: 1, Seed: 3, Via: "builder"}, items)
				for i := range vecs {
					for j := range vecs {
						if dim > 300 && (i+j)%3 != 0 {
							continue
						}
						a, b := lab.Conv[TV](vecs[i]), lab.Conv[TV](vecs[j])
						d2 := refSq(a, b)
						c.Step(func() string { return fmt.Sprintf("data set %s, items %d and %d", name, i, j) })
						pair(d, a, b, d2, "data set "+name)
						g := float64(idx.GetDistance(TIX(i), TIX(j)))
						c.Eval(1)
						c.State(1)
						c.Transition(9)
						if tol := 6 * float64(dim+4) * eps[TV](); math.IsNaN(g) || g < 0 || math.Abs(g*g-d2) > tol {
							c.Fail("GetDistance of items %v and %v of data set %s is %v, expected %v", i, j, name, g, math.Sqrt(math.Max(0, d2)))
						}
					}
				}
				idx.Close()
				c.Trace(1)
				c.Tick()
			}
		})
	}
}
