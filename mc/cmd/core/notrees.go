package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

// Indexes that are built without a tree (0 requested, or an automatic number over no item): a save
// may be refused, but then it leaves everything as it was; what it saves must come back as it was.
func c08noTrees[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, s scen) {
	dir := file(c, "notrees")
	must(c, os.MkdirAll(dir, 0o755), "mkdir")
	for _, loader := range []string{"mmap", "gc"} {
		for _, multi := range []bool{false, true} {
			sp := lab.Spec{Metric: s.metric, Dim: s.dim, T: 2, W: 2, Loader: loader, Multi: multi}
			for _, n := range append([]int{0}, sizes(lab.MaxChildren[TV, TIX](sp), 24)...) {
				for _, T := range []int{0, -1} {
					if T == -1 && n > 0 {
						continue
					}
					for _, before := range []string{"", "other", "own"} {
						c.Tick()
						items := lab.Items(s.ids, lab.Data(s.data, s.dim, n))
						what := fmt.Sprintf("[%v] %d items, Build(%d), file before: %q", sp, n, T, before)
						c.Step(func() string { return what })
						fn := filepath.Join(dir, "nt.ann")
						os.Remove(fn)
						idx := lab.Make[TV, TIX](sp)
						good, gm := lab.Built[TV, TIX](sp, lab.Items("dense", lab.Data("circle", s.dim, 7)))
						go0 := observe(c, good, gm, 2, 4, 10)
						var old []byte
						if before != "" {
							must(c, good.Save(fn), "save")
							old, _ = os.ReadFile(fn)
							go0 = observe(c, good, gm, 2, 4, 10)
						}
						if before == "own" { // the index itself has served that file
							must(c, idx.Load(fn), "load")
							must(c, idx.Close(), "close")
						}
						m := lab.Fill(idx, sp, items)
						idx.Build(T, 2)
						o := observe(c, idx, m, 1, 4, 10)
						for i, a := range o.ans {
							if len(a.ids) != 0 || len(a.ds) != 0 {
								c.Fail("%s: no tree, but %s answers %v %v", what, o.label[i], a.ids, a.ds)
							}
						}
						err := idx.Save(fn)
						now, errRead := os.ReadFile(fn)
						if err != nil {
							if (errRead == nil) != (before != "") || !bytes.Equal(old, now) {
								c.Fail("%s: the save fails (%v) and changes the file", what, err)
							}
						}
						if l, _ := os.ReadDir(dir); len(l) > 1 {
							c.Fail("%s: the save (%v) leaves %v", what, err, l)
						}
						if d := o.diff(observe(c, idx, m, 1, 4, 10)); d != "" {
							c.Fail("%s: after the save (%v): %s", what, err, d)
						}
						if err == nil {
							x := lab.Make[TV, TIX](sp)
							must(c, x.Load(fn), "load of the saved index")
							if d := o.diff(observe(c, x, m, 1, 4, 10)); d != "" {
								c.Fail("%s: loaded: %s", what, d)
							}
							x.Close()
						}
						if d := go0.diff(observe(c, good, gm, 2, 4, 10)); d != "" {
							c.Fail("%s: the save (%v) changes another index: %s", what, err, d)
						}
						// and the index can be used anew
						must(c, idx.Close(), "close")
						m = lab.Fill(idx, sp, items)
						idx.Build(2, 2)
						c08chain(c, sp, idx, m, what+", then anew", 3, 6)
						idx.Close()
						good.Close()
						os.Remove(fn)
						c.State(1)
					}
				}
			}
		}
	}
	c.Sample(func() string { return "indexes without trees" })
}
