// Command core explores the index level properties: configurations, item sets and operation
// histories are enumerated, each one is executed on the real index and compared with the model.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"verif/mc/lab"
	"verif/mc/rt"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "C15child" {
		child15(os.Args[2])
	}
	if len(os.Args) == 3 && os.Args[1] == "C10child" {
		child10(os.Args[2])
		return
	}
	for _, k := range []*rt.Check{c01, c02, c03, c04, c05, c06, c07, c08, c16} {
		k.Rule += "; " + largeRule
	}
	rt.Main(
		c01, c02, c03, c04, c05, c06, c07, c08, c10, c14, c15, c16, c17,
		c19, c23, c26, c29,
	)
}

// scen is a unit of the configuration space; sizes, trees and seeds are enumerated inside of it.
type scen struct {
	ty           int
	metric       string
	dim          int
	data, ids    string
	loader, note string
}

var tyNames = []string{"f32/u32", "f32/u64", "f64/u32", "f64/u64"}

func (s scen) key() string {
	return fmt.Sprintf("%s %s dim=%d data=%s ids=%s%s", tyNames[s.ty], s.metric, s.dim, s.data, s.ids, s.note)
}

// each runs the instantiation of f that the scenario asks for, as one unit per scenario.
func each(c *rt.Ctx, l []scen, f [4]func(*rt.Ctx, scen)) {
	for _, s := range l {
		s := s
		c.Unit(s.key(), func() { f[s.ty](c, s) })
	}
}

var allData = append(append([]string(nil), lab.AllData...), lab.F64Data...)
var allTy = []int{0, 1, 2, 3}
var metrics = []string{"ang", "dot"}

func grid(tys []int, ms []string, dims []int, datas, ids []string) (out []scen) {
	for _, m := range ms {
		for _, d := range dims {
			for _, da := range datas {
				for _, id := range ids {
					for _, ty := range tys {
						if ty < 2 && strings.HasSuffix(da, "64") {
							continue
						}
						out = append(out, scen{ty: ty, metric: m, dim: d, data: da, ids: id})
					}
				}
			}
		}
	}
	return
}

// rotated covers the product of data sets and id patterns, and rotates through the types (every
// value of each pair of factors still occurs).
func rotated(ms []string, dims []int, datas, ids []string) (out []scen) {
	i := 0
	for _, m := range ms {
		for di, d := range dims {
			for _, da := range datas {
				for _, id := range ids {
					ty := (i + di) % 4
					if strings.HasSuffix(da, "64") {
						ty |= 2
					}
					out = append(out, scen{ty: ty, metric: m, dim: d, data: da, ids: id})
					i++
				}
			}
		}
	}
	return
}

func spec(s scen, T int, seed uint64) lab.Spec {
	via := "builder"
	if (s.dim+T)%2 == 0 {
		via = "new"
	}
	l := s.loader
	if l == "" {
		l = "mmap"
		if seed%2 == 1 {
			l = "gc"
		}
	}
	return lab.Spec{Metric: s.metric, Dim: s.dim, T: T, W: 1, Seed: seed, Loader: l, Via: via}
}

// queries are the stored vectors (of at most max items) and the probes.
func queries[TV interfaces.VectorType](m *lab.Model[TV], max int) [][]TV {
	var out [][]TV
	step := 1
	if len(m.IDs) > max {
		step = (len(m.IDs) + max - 1) / max
	}
	for i := 0; i < len(m.IDs); i += step {
		out = append(out, append([]TV(nil), m.Vec[m.IDs[i]]...))
	}
	for _, p := range lab.Probes(m.Dim) {
		out = append(out, lab.Conv[TV](p))
	}
	return out
}

// ladder is 0..max, thinned out in the middle if it is long.
func ladder(max, full int) (out []int) {
	step := 1
	for i := 0; i <= max; i += step {
		out = append(out, i)
		if i >= full {
			step = i/4 + 1
		}
	}
	if out[len(out)-1] != max {
		out = append(out, max)
	}
	return
}

func file(c *rt.Ctx, name string) string { return filepath.Join(c.Dir, name) }

func must(c *rt.Ctx, err error, what string) {
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
}

// bits compares vectors bit for bit.
func bits[TV interfaces.VectorType](a, b []TV) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 0 {
		return true
	}
	n := len(a) * int(unsafe.Sizeof(a[0]))
	x := unsafe.Slice((*byte)(unsafe.Pointer(&a[0])), n)
	y := unsafe.Slice((*byte)(unsafe.Pointer(&b[0])), n)
	return string(x) == string(y)
}

// checkItems reads every item of the model back.
func checkItems[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, idx interfaces.AnnoyIndex[TV, TIX], m *lab.Model[TV], when string) {
	for _, id := range m.IDs {
		if got := idx.GetItem(TIX(id)); !bits(got, m.Vec[id]) {
			c.Fail("%s: item %d reads %v, added was %v", when, id, got, m.Vec[id])
		}
		c.Eval(1)
	}
}

// save saves the index and reads the forest back.
func forestOf[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	c *rt.Ctx, idx interfaces.AnnoyIndex[TV, TIX], s lab.Spec, name string) *lab.Forest[TV, TIX] {
	fn := file(c, name)
	must(c, idx.Save(fn), "save")
	f, err := lab.ReadForest(fn, lab.Dist[TV, TIX](s), s.T)
	must(c, err, "reading the saved index")
	return f
}

type answer[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	ids []TIX
	ds  []TV
}

func (a answer[TV, TIX]) eq(b answer[TV, TIX]) bool { return lab.Eq(a.ids, a.ds, b.ids, b.ds) }

func ask[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	idx interfaces.AnnoyIndex[TV, TIX], q []TV, k, b int, ctx interfaces.AnnoyIndexContext[TV, TIX]) answer[TV, TIX] {
	i, d := idx.GetNnsByVector(q, k, b, ctx)
	return answer[TV, TIX]{i, d}
}

// sizes around the bucket size
func sizes(K int, more ...int) (out []int) {
	seen := map[int]bool{}
	for _, n := range append([]int{1, 2, K - 1, K, K + 1, 2*K + 1, 3*K + 2}, more...) {
		if n >= 1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return
}

func kOf[TV interfaces.VectorType, TIX interfaces.IndexTypes](s scen) int {
	return lab.MaxChildren[TV, TIX](lab.Spec{Metric: s.metric, Dim: s.dim})
}

// outcome records the ids of an answer.
func outcome[TIX interfaces.IndexTypes](c *rt.Ctx, salt int, ids []TIX) {
	h := uint64(14695981039346656037) ^ uint64(salt)
	for _, id := range ids {
		h = (h ^ uint64(id)) * 1099511628211
	}
	c.OutcomeHash(h)
}
