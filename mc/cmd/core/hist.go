package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// Histories of saves and loads of two indexes under two names.

var histOps = []string{"x saves f", "x saves g", "y saves f", "y saves g", "x loads f", "x loads g", "y loads f", "y loads g",
	"f is removed", "g is removed", "x is filled anew", "y is filled anew"}

// version is what an index holds: the vectors of an item set, as built once.
type version[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	set   int
	saved []byte // of the first save
}

func histScens() (out []scen) {
	for _, ty := range allTy {
		for _, l := range []string{"mmap", "gc"} {
			for _, m := range metrics {
				for first := range histOps {
					deep := ty == 0 && l == "mmap" && m == "ang" || ty == 3 && l == "gc" && m == "dot"
					out = append(out, scen{ty: ty, metric: m, dim: 2, data: "gen", ids: "dense", loader: l,
						note: fmt.Sprintf(" history loader=%s first=%d deep=%v", l, first, deep)})
				}
			}
		}
	}
	return
}

func c08hist[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	var l string
	var first int
	var deep bool
	fmt.Sscanf(s.note, " history loader=%s first=%d deep=%t", &l, &first, &deep)
	sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 1, Loader: l}
	items := [2][]lab.Item{lab.Items("dense", lab.Data("gen", s.dim, 9)), lab.Items("gap", lab.Data("circle", s.dim, 5))}
	var models [2]*lab.Model[TV]
	var ref [2][]answer[TV, TIX]
	look := func(x interfaces.AnnoyIndex[TV, TIX], m *lab.Model[TV]) (out []answer[TV, TIX]) {
		ctx := x.CreateContext()
		for i := 0; i < 3; i++ {
			out = append(out, ask(x, m.Vec[m.IDs[i]], 4, 1+3*i, ctx))
		}
		return append(out, ask(x, m.Vec[m.IDs[4]], len(m.IDs), 100, ctx))
	}
	for i := range items {
		x, m := lab.Built[TV, TIX](sp, items[i])
		models[i], ref[i] = m, look(x, m)
		x.Close()
	}
	names := [2]string{file(c, "hf"), file(c, "hg")}
	type ver = version[TV, TIX]
	play := func(seq []int) {
		c.Tick()
		text := func() (t []string) {
			for _, o := range seq {
				t = append(t, histOps[o])
			}
			return
		}
		c.Step(func() string { return fmt.Sprint(text()) })
		for _, n := range names {
			os.Remove(n)
		}
		var x [2]interfaces.AnnoyIndex[TV, TIX]
		var holds, onDisk [2]*ver
		fill := func(i int) {
			if x[i] == nil {
				x[i] = lab.Make[TV, TIX](sp)
			} else if err := x[i].Close(); err != nil {
				c.Fail("%v: close: %v", text(), err)
			}
			for _, it := range items[i] {
				x[i].AddItem(TIX(it.ID), lab.Conv[TV](it.Vec))
			}
			x[i].Build(2, 1)
			holds[i] = &ver{set: i}
		}
		fill(0)
		fill(1)
		for _, o := range seq {
			i, n := o/2%2, o%2 // index, name
			switch {
			case o < 4:
				err := x[i].Save(names[n])
				if (err == nil) != (holds[i] != nil) {
					c.Fail("%v: save: %v (index holds something: %v)", text(), err, holds[i] != nil)
				}
				if err == nil {
					onDisk[n] = holds[i]
					b, _ := os.ReadFile(names[n])
					if holds[i].saved == nil {
						holds[i].saved = b
					}
				}
			case o < 8:
				err := x[i].Load(names[n])
				if (err == nil) != (onDisk[n] != nil) {
					c.Fail("%v: load: %v (file exists: %v)", text(), err, onDisk[n] != nil)
				}
				holds[i] = onDisk[n]
			case o < 10:
				os.Remove(names[n])
				onDisk[n] = nil
			default:
				fill(n)
			}
			c.Transition(1)
		}
		for n, v := range onDisk {
			b, err := os.ReadFile(names[n])
			if (err == nil) != (v != nil) {
				c.Fail("%v: file %d: %v", text(), n, err)
			}
			if v != nil && !bytes.Equal(b, v.saved) {
				c.Fail("%v: file %d has %d bytes which are not those of the first save of that index (%d bytes)", text(), n, len(b), len(v.saved))
			}
		}
		for i, v := range holds {
			if v == nil {
				continue
			}
			for _, id := range models[v.set].IDs {
				if !bits(x[i].GetItem(TIX(id)), models[v.set].Vec[id]) {
					c.Fail("%v: index %d item %d reads %v", text(), i, id, x[i].GetItem(TIX(id)))
				}
			}
			for j, a := range look(x[i], models[v.set]) {
				if !a.eq(ref[v.set][j]) {
					c.Fail("%v: index %d search %d answers %v %v, expected %v %v", text(), i, j, a.ids, a.ds, ref[v.set][j].ids, ref[v.set][j].ds)
				}
			}
		}
		c.State(1)
		c.Trace(1)
		x[0].Close()
		x[1].Close()
	}
	depth := 4
	if deep || c.Thorough {
		depth = 5
	}
	for d := 0; d < depth; d++ {
		lab.Sequences(len(histOps), d, func(rest []int) { play(append([]int{first}, rest...)) })
	}
	c.Sample(func() string { return fmt.Sprintf("sequences of %d operations of %v", depth, histOps) })
}
