package main

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

var c01 = &rt.Check{
	ID: "C01",
	Rule: "(a) all sequences of up to 5 (thorough 6) additions over 5 ids x 2 vectors, from slices of their own, from one that is used again, and from vectors read from the index, for each element/id type, metric and vector " +
		"length 1,2,3; every item is read back after every operation, and after build, save, load and searches; (b) growth: " +
		"configurations x id patterns with up to 3000 items read back during and after the growth, vectors with special values; (c) every vector overwritten with every one that differs little (one component, sign, order, length)",
	Oracle: "a map from id to the bits of the last vector added",
	Run: func(c *rt.Ctx) {
		each(c, grid(allTy, metrics, []int{1, 2, 3}, []string{"seq"}, []string{"seq"}),
			[4]func(*rt.Ctx, scen){c01seq[float32, uint32], c01seq[float32, uint64], c01seq[float64, uint32], c01seq[float64, uint64]})
		each(c, grid(allTy, metrics, []int{1, 2, 3, 4, 5, 7, 8, 16, 33, 40, 257}, []string{"gen"}, append([]string{"zig"}, lab.AllIDs...)),
			[4]func(*rt.Ctx, scen){c01grow[float32, uint32], c01grow[float32, uint64], c01grow[float64, uint32], c01grow[float64, uint64]})
		each(c, grid(allTy, metrics, []int{1, 2, 3, 4, 5, 7, 8, 16, 33}, []string{"gen"}, []string{"alike"}),
			fns{c01alike[float32, uint32], c01alike[float32, uint64], c01alike[float64, uint32], c01alike[float64, uint64]})
		eachLarge(c, fns{c01large[float32, uint32], c01large[float32, uint64], c01large[float64, uint32], c01large[float64, uint64]})
	},
}

var c01modes = []string{"of their own, changed afterwards", "one that is used again", "the index's own, of another item"}

// c01seq runs all short sequences of additions.
func c01seq[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	ids := []uint64{0, 1, 2, 5, 11}
	vecs := lab.Data("gen", s.dim, 2)
	depth := 5
	if c.Thorough {
		depth = 6
	}
	fn := file(c, "c01")
	buf := make([]TV, s.dim)
	for n := 1; n <= depth; n++ {
		turn := 0
		run := func(seq []int, mode int) {
			c.Tick()
			c.Step(func() string { return fmt.Sprintf("additions (id,vector) %v, slices: %s", seq, c01modes[mode]) })
			sp := spec(s, 1+n%2, uint64(n%3))
			idx := lab.Make[TV, TIX](sp)
			m := lab.NewModel[TV](s.metric, s.dim)
			for i, x := range seq {
				v := lab.Conv[TV](vecs[x%2])
				id := ids[x/2]
				m.Add(id, v)
				switch mode {
				case 0:
					idx.AddItem(TIX(id), v)
					v[0] = TV(math.NaN()) // the index has its own copy
				case 1:
					copy(buf, v)
					idx.AddItem(TIX(id), buf)
				case 2:
					for _, j := range m.IDs {
						if j != id && bits(m.Vec[j], v) {
							v = idx.GetItem(TIX(j))
						}
					}
					idx.AddItem(TIX(id), v)
				}
				c.Transition(1)
				if i == len(seq)-1 || n <= 3 {
					checkItems(c, idx, m, fmt.Sprintf("after addition %d of %v", i, seq))
				}
			}
			c.State(1)
			if n <= 3 || n == 4 && seq[0]%3 == 0 {
				idx.Build(sp.T, 1)
				checkItems(c, idx, m, "after build")
				ctx := idx.CreateContext()
				idx.GetNnsByVector(lab.Conv[TV](vecs[0]), 3, -1, ctx)
				checkItems(c, idx, m, "after a search")
				must(c, idx.Save(fn), "save")
				checkItems(c, idx, m, "after save")
				idx.Close()
				must(c, idx.Load(fn), "load")
				checkItems(c, idx, m, "after load")
				c.Transition(4)
			}
			c.Trace(1)
			idx.Close()
		}
		lab.Sequences(len(ids)*2, n, func(seq []int) {
			if n > 4 {
				turn++
				run(seq, turn%3)
				return
			}
			for mode := range c01modes {
				run(seq, mode)
			}
		})
	}
	c.Sample(func() string {
		return fmt.Sprintf("all sequences over ids %v, two vectors, up to %d additions", ids, depth)
	})
}

// alike are vectors that a comparison with v may take for v: all that differ from it in one or two
// components (by one unit in the last place, in sign, or anyhow), and those of equal length.
func alike[TV interfaces.VectorType](v []TV) (out [][]TV) {
	with := func(f func(w []TV)) {
		w := append([]TV(nil), v...)
		f(w)
		out = append(out, w)
	}
	next := func(x TV) TV {
		if unsafe.Sizeof(x) == 4 {
			return TV(math.Nextafter32(float32(x), 9))
		}
		return TV(math.Nextafter(float64(x), 9))
	}
	for i := range v {
		with(func(w []TV) { w[i] = -w[i] })
		with(func(w []TV) { w[i] = next(w[i]) })
		with(func(w []TV) { w[i] = 0 })
		with(func(w []TV) { w[i] = TV(math.Copysign(0, -1)) })
		with(func(w []TV) { w[i] = TV(math.NaN()) })
		for j := 0; j < i && j < 4; j++ {
			with(func(w []TV) { w[i], w[j] = w[j], w[i] })
			with(func(w []TV) { w[i], w[j] = w[i]+1, w[j]-1 })
		}
	}
	with(func(w []TV) {
		for i := range w {
			w[i] = -w[i]
		}
	})
	with(func(w []TV) {
		for i := range w {
			w[i] *= 2
		}
	})
	return
}

// c01alike: every vector is overwritten with every one that is much like it.
func c01alike[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	idx := lab.Make[TV, TIX](spec(s, 1, 0))
	m := lab.NewModel[TV](s.metric, s.dim)
	put := func(id uint64, v []TV) {
		m.Add(id, v)
		idx.AddItem(TIX(id), v)
		c.Transition(1)
	}
	for i, v := range lab.Data("gen", s.dim, 3) {
		base := lab.Conv[TV](v)
		for j, w := range alike(base) {
			c.Step(func() string { return fmt.Sprintf("%v, overwritten with %v and %v", base, w, base) })
			for _, x := range [][]TV{base, w, base, w, w} {
				put(uint64(i), x)
				if got := idx.GetItem(TIX(i)); !bits(got, x) {
					c.Fail("item %d reads %v, last added was %v", i, got, x)
				}
			}
			if j%2 == 0 {
				put(uint64(i), base)
			}
			c.State(1)
		}
		c.Tick()
		checkItems(c, idx, m, "after overwriting")
	}
	idx.Build(2, 1)
	checkItems(c, idx, m, "after build")
	fn := file(c, "c01a")
	must(c, idx.Save(fn), "save")
	checkItems(c, idx, m, "after save")
	idx.Close()
	c.Trace(1)
}

func special[TV interfaces.VectorType](dim, i int) []TV {
	v := make([]TV, dim)
	for j := range v {
		switch (i + j) % 8 {
		case 0:
			v[j] = TV(math.Copysign(0, -1))
		case 1:
			v[j] = TV(math.Inf(1))
		case 2:
			v[j] = TV(math.NaN())
		case 3:
			v[j] = TV(math.SmallestNonzeroFloat32)
		case 4:
			v[j] = TV(math.MaxFloat32)
		case 5:
			v[j] = TV(-1) / 3
		case 6:
			v[j] = TV(i)
		case 7:
			v[j] = -TV(math.Inf(1))
		}
	}
	return v
}

func c01grow[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	n := 3000
	if s.dim > 40 {
		n = 700
	}
	// special values: stored only
	idx := lab.Make[TV, TIX](spec(s, 1, 0))
	m := lab.NewModel[TV](s.metric, s.dim)
	for k, it := range lab.Items(s.ids, lab.Data("gen", s.dim, n)) {
		v := special[TV](s.dim, int(it.ID)+k)
		m.Add(it.ID, v)
		idx.AddItem(TIX(it.ID), v)
		c.Transition(1)
		if k%97 == 0 || k < 20 {
			c.State(1)
			checkItems(c, idx, m, fmt.Sprintf("after addition %d", k))
		}
		c.Tick()
	}
	checkItems(c, idx, m, "at the end")
	idx.Close()
	// the same pattern built, saved, loaded
	for _, nn := range []int{1, 4, 60, 300} {
		for _, hint := range []int{0, 1, 50, 1000} {
			c.Tick()
			sp := spec(s, 2, uint64(hint))
			sp.Hint = hint
			idx, m := lab.Built[TV, TIX](sp, lab.Items(s.ids, lab.Data("gen", s.dim, nn)))
			checkItems(c, idx, m, "after build")
			fn := file(c, "c01g")
			must(c, idx.Save(fn), "save")
			checkItems(c, idx, m, "after save")
			o := lab.Make[TV, TIX](sp)
			must(c, o.Load(fn), "load")
			checkItems(c, o, m, "after load by another index")
			ctx := o.CreateContext()
			for _, q := range queries(m, 10) {
				o.GetNnsByVector(q, 5, -1, ctx)
			}
			checkItems(c, o, m, "after searches")
			idx.Close()
			o.Close()
			c.State(1)
			c.Transition(5)
			c.Trace(1)
		}
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d items added and read back, then built/saved/loaded with 4 sizes x 4 hints", n)
	})
}
