package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// complaining is a file allocator that releases its memory, and reports an error.
type complaining struct{ interfaces.IndexAllocator }
type complaint struct{ interfaces.AllocatedIndex }

func (a complaining) Open(f string) (interfaces.AllocatedIndex, error) {
	x, err := a.IndexAllocator.Open(f)
	if err != nil {
		return nil, err
	}
	return complaint{x}, nil
}

func (a complaint) Close() error {
	if err := a.AllocatedIndex.Close(); err != nil {
		return err
	}
	return errors.New("released, but something is wrong")
}

func c14edge[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	if strings.HasSuffix(s.note, "no trees") {
		c14noTrees[TV, TIX](c, s)
		return
	}
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: s.loader}
	sets := [][]lab.Item{lab.Items("dense", lab.Data("gen", s.dim, 9)), lab.Items("gap", lab.Data("circle", s.dim, 5))}
	var ref []*obs[TV, TIX]
	var models []*lab.Model[TV]
	var names []string
	for i, it := range sets {
		x, m := lab.Built[TV, TIX](sp, it)
		names = append(names, file(c, fmt.Sprint("f", i)))
		must(c, x.Save(names[i]), "save")
		ref, models = append(ref, observe(c, x, m, 2, 3, 5)), append(models, m)
		x.Close()
	}
	own := file(c, "own")
	ops := []string{"close", "load f0", "load f1", "save", "close, fill with 0, build", "close, fill with 1, build", "load own"}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	for d := 1; d <= depth; d++ {
		lab.Sequences(len(ops), d, func(seq []int) {
			c.Tick()
			what := func() string {
				o := ""
				for _, x := range seq {
					o += ops[x] + "; "
				}
				return o
			}
			c.Step(what)
			os.Remove(own)
			x := index.New[TV, TIX](lab.Rnd[TIX](0), lab.Dist[TV, TIX](sp), lab.Policy(false), memory.GoGCIndexAllocator(),
				complaining{lab.Loader(s.loader)}, nil, false, 0)
			holds, onDisk := -1, -1
			for _, o := range seq {
				switch o {
				case 0:
					x.Close()
					holds = -1
				case 1, 2, 6:
					f, set := own, onDisk
					if o < 6 {
						f, set = names[o-1], o-1
					}
					if err := x.Load(f); (err == nil) != (set >= 0) {
						c.Fail("[%v] %s: load: %v", sp, what(), err)
					}
					holds = set
				case 3:
					err := x.Save(own)
					if (err == nil) != (holds >= 0) {
						c.Fail("[%v] %s: save: %v", sp, what(), err)
					}
					if err == nil {
						onDisk = holds
					}
				default:
					x.Close()
					if r := rt.Panics(func() {
						lab.Fill(x, sp, sets[o-4])
						x.Build(2, 1)
					}); r != nil {
						c.Fail("[%v] %s: after close: %v", sp, what(), r)
					}
					holds = o - 4
				}
				c.Transition(1)
			}
			if holds >= 0 {
				if df := ref[holds].diff(observe(c, x, models[holds], 2, 3, 5)); df != "" {
					c.Fail("[%v] %s: %s", sp, what(), df)
				}
			} else if a := ask(x, models[0].Vec[0], 4, 100, x.CreateContext()); len(a.ids) > 0 {
				c.Fail("[%v] %s: the empty index answers %v", sp, what(), a.ids)
			}
			x.Close()
			c.State(1)
			c.Trace(1)
		})
	}
}

// An index that was built without a tree is a built index.
func c14noTrees[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	for _, multi := range []bool{false, true} {
		sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: s.loader, Multi: multi}
		for _, n := range []int{0, 1, 2, 9} {
			for _, T := range []int{0, -1} {
				if T == -1 && n > 0 {
					continue
				}
				what := fmt.Sprintf("[%v] %d items, Build(%d)", sp, n, T)
				items := lab.Items("gap", lab.Data("gen", s.dim, n))
				x := lab.Make[TV, TIX](sp)
				m := lab.Fill(x, sp, items)
				x.Build(T, 1)
				o := observe(c, x, m, 1, 3, 5)
				try := map[string]func(){
					"Build":                         func() { x.Build(2, 1) },
					"Build(0)":                      func() { x.Build(0, 1) },
					"Build(-1)":                     func() { x.Build(-1, 2) },
					"AddItem":                       func() { x.AddItem(0, make([]TV, s.dim)) },
					"AddItem of a new one":          func() { x.AddItem(TIX(m.N), make([]TV, s.dim)) },
					"AddItem of the wrong length":   func() { x.AddItem(TIX(m.N), make([]TV, s.dim+1)) },
					"a search with a shorter query": func() { x.GetNnsByVector(make([]TV, s.dim-1), 1, 1, x.CreateContext()) },
					"a search with a longer query":  func() { x.GetNnsByVector(make([]TV, s.dim+1), 1, 1, x.CreateContext()) },
				}
				for name, f := range try {
					if rt.Panics(f) == nil {
						c.Fail("%s: %s is accepted", what, name)
					}
					if d := o.diff(observe(c, x, m, 1, 3, 5)); d != "" {
						c.Fail("%s, then %s: %s", what, name, d)
					}
					c.Transition(1)
				}
				for i := 0; i < 2; i++ {
					must(c, x.Close(), "close")
					m = lab.Fill(x, sp, items)
					x.Build(2, 1)
					y, _ := lab.Built[TV, TIX](sp, items)
					if d := observe(c, y, m, 2, 3, 5).diff(observe(c, x, m, 2, 3, 5)); n > 0 && d != "" {
						c.Fail("%s, closed and filled anew: %s", what, d)
					}
					y.Close()
				}
				x.Close()
				c.State(1)
				c.Trace(1)
			}
		}
	}
}
