// Package lab makes indexes of every shape, the item sets they are filled with, and the reference
// model (a map from id to vector, brute force search) they are compared with.
package lab

import (
	"fmt"
	"math"
	"sort"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// Spec is the configuration of an index.
type Spec struct {
	Metric  string // "ang", "dot"
	Dim     int
	T       int // trees
	W       int // workers handed to Build
	Seed    uint64
	Multi   bool   // multi worker policy
	Loader  string // "mmap", "gc"
	Hint    int
	Verbose bool
	MaxK    int    // >0: custom maximum bucket size
	Via     string // "builder", "new"
	Variant string // custom distance, see Variants
}

func (s Spec) String() string {
	return fmt.Sprintf("%s dim=%d T=%d W=%d seed=%d multi=%v loader=%s hint=%d verbose=%v maxk=%d via=%s variant=%q",
		s.Metric, s.Dim, s.T, s.W, s.Seed, s.Multi, s.Loader, s.Hint, s.Verbose, s.MaxK, s.Via, s.Variant)
}

// Dist makes the distance of a spec.
func Dist[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec) interfaces.Distance[TV, TIX] {
	var d interfaces.Distance[TV, TIX]
	switch s.Metric {
	case "dot":
		d = dotproduct.Distance[TV](TIX(s.Dim))
	case "euc":
		d = euclid[TV, TIX]{TIX(s.Dim)}
	default:
		d = angular.Distance[TV](TIX(s.Dim))
	}
	if s.Variant != "" {
		d = variant[TV, TIX]{d, s.Variant}
	}
	if s.MaxK > 0 {
		d = smallK[TV, TIX]{d, TIX(s.MaxK)}
	}
	return d
}

// Wrapped embeds a distance (whose name would clash with its method Distance).
type Wrapped[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	interfaces.Distance[TV, TIX]
}

type smallK[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	Wrapped[TV, TIX]
	k TIX
}

func (s smallK[TV, TIX]) MaxNumChildren() TIX { return s.k }

// MaxChildren is the bucket size of a spec.
func MaxChildren[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec) int {
	return int(Dist[TV, TIX](s).MaxNumChildren())
}

func Loader(name string) interfaces.IndexAllocator {
	if name == "gc" {
		return memory.FileIndexMemoryAllocator()
	}
	return memory.MmapIndexAllocator()
}

func Policy(multi bool) interfaces.AnnoyIndexBuildPolicy {
	if multi {
		return policy.MultiWorker()
	}
	return policy.SingleWorker()
}

func Rnd[TIX interfaces.IndexTypes](seed uint64) interfaces.Random[TIX] {
	return random.NewKiss32Random(TIX(seed))
}

// Make makes an index. Angular ones without special wishes come from the builder.
func Make[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec) interfaces.AnnoyIndex[TV, TIX] {
	if s.Via == "builder" && s.Metric == "ang" && s.MaxK == 0 && s.Variant == "" {
		return Builder[TV, TIX](s).Build()
	}
	return index.New[TV, TIX](
		Rnd[TIX](s.Seed), Dist[TV, TIX](s), Policy(s.Multi), memory.GoGCIndexAllocator(),
		Loader(s.Loader), nil, s.Verbose, TIX(s.Hint),
	)
}

func Builder[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec) *builder.AnnoyIndexBuilderImpl[TV, TIX] {
	b := builder.Index[TV, TIX]().AngularDistance(s.Dim)
	if s.Multi {
		b.UseMultiWorkerPolicy()
	}
	if s.Loader == "gc" {
		b.GCMemoryIndexAllocator()
	}
	if s.Verbose {
		b.VerboseLogging()
	}
	if s.Hint > 0 {
		b.IndexNumHint(s.Hint)
	}
	if s.Seed != 0 {
		b.Random(Rnd[TIX](s.Seed))
	}
	return b
}

// Item is an addition.
type Item struct {
	ID  uint64
	Vec []float64
}

// Model is the reference: what was added.
type Model[TV interfaces.VectorType] struct {
	Metric string
	Dim    int
	Vec    map[uint64][]TV
	IDs    []uint64 // ascending
	N      uint64   // largest id + 1
}

func NewModel[TV interfaces.VectorType](metric string, dim int) *Model[TV] {
	return &Model[TV]{Metric: metric, Dim: dim, Vec: map[uint64][]TV{}}
}

func (m *Model[TV]) Add(id uint64, v []TV) {
	if _, ok := m.Vec[id]; !ok {
		i := sort.Search(len(m.IDs), func(i int) bool { return m.IDs[i] >= id })
		m.IDs = append(m.IDs, 0)
		copy(m.IDs[i+1:], m.IDs[i:])
		m.IDs[i] = id
	}
	m.Vec[id] = append([]TV(nil), v...)
	if id+1 > m.N {
		m.N = id + 1
	}
}

func Conv[TV interfaces.VectorType](v []float64) []TV {
	r := make([]TV, len(v))
	for i, x := range v {
		r[i] = TV(x)
	}
	return r
}

// Fill adds the items to the index and to a new model. The slices handed over are overwritten
// afterwards: the index has to have copied them.
func Fill[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	idx interfaces.AnnoyIndex[TV, TIX], s Spec, items []Item) *Model[TV] {
	m := NewModel[TV](s.Metric, s.Dim)
	for _, it := range items {
		v := Conv[TV](it.Vec)
		m.Add(it.ID, v)
		idx.AddItem(TIX(it.ID), v)
		for i := range v {
			v[i] = TV(math.NaN())
		}
	}
	return m
}

// Built makes, fills and builds.
func Built[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec, items []Item) (interfaces.AnnoyIndex[TV, TIX], *Model[TV]) {
	idx := Make[TV, TIX](s)
	m := Fill(idx, s, items)
	idx.Build(s.T, s.W)
	return idx, m
}

// ---- item sets

// Data makes n vectors. All components are exactly representable in float32.
func Data(name string, dim, n int) [][]float64 {
	out := make([][]float64, n)
	r := lcg(uint64(dim)*1000003 + uint64(len(name))*7919)
	for i := range out {
		v := make([]float64, dim)
		switch name {
		case "gen": // general position
			for j := range v {
				v[j] = f32(r.float()*2 - 1)
			}
		case "fine": // general position, all bits of a float64
			for j := range v {
				v[j] = float64(r.next()>>11)/(1<<52) - 1
			}
		case "mini", "mega", "mini64", "mega64": // general position, all very short or long
			e := map[string]int{"mini": -27, "mega": 27, "mini64": -216, "mega64": 216}[name]
			for j := range v {
				x := r.float() - 0.5
				v[j] = math.Ldexp(f32(x+math.Copysign(0.5, x)), e)
			}
		case "grid": // lattice points, many collinear and duplicate
			x := i
			for j := range v {
				v[j] = float64(x%3 - 1)
				x /= 3
			}
		case "same":
			for j := range v {
				v[j] = float64(j + 1)
			}
		case "zero":
		case "pairs": // every vector twice
			q := lcg(uint64(i/2)*77 + 5)
			for j := range v {
				v[j] = f32(q.float()*2 - 1)
			}
		case "clust": // tight clusters, far from each other
			for j := range v {
				v[j] = f32(r.float()/512 + float64((i%3)*(j+1)-i%2*4))
			}
		case "coll": // multiples of one vector, both directions
			for j := range v {
				v[j] = float64((j%3)+1) * float64(i-n/2)
			}
		case "axis":
			v[i%dim] = float64(1 + i/dim)
			if i%2 == 1 {
				v[i%dim] *= -1
			}
		case "scale": // very different lengths
			q := math.Ldexp(1, (i%13)*2-12)
			for j := range v {
				v[j] = f32((r.float()*2 - 1) * q)
			}
		case "mixz": // general position with zero vectors in between
			if i%4 != 2 {
				for j := range v {
					v[j] = f32(r.float()*2 - 1)
				}
			}
		case "circle":
			a := 2 * math.Pi * float64(i) / float64(n)
			v[0] = snap(math.Cos(a))
			if dim > 1 {
				v[1] = snap(math.Sin(a))
			}
		case "pos": // positive orthant: all on one side of many planes
			for j := range v {
				v[j] = f32(r.float() + 0.5)
			}
		case "lone": // one item far from all the others: trees split it off first
			for j := range v {
				v[j] = f32(r.float() + 0.5)
				if i == n/2 {
					v[j] *= -2
				}
			}
		case "wild": // squared lengths overflow, vanish or are not numbers
			for j := range v {
				switch x := r.float()*2 - 1; (i + j/2) % 7 {
				case 0:
					v[j] = f32(x * 1e38)
				case 1:
					v[j] = f32(x * 1e-40)
				case 2:
					v[j] = math.Inf(1 - 2*(i%2))
				case 3:
					v[j] = math.NaN()
				case 4:
					v[j] = f32(x * 3e19)
				default:
					v[j] = f32(x)
				}
			}
		case "huge":
			for j := range v {
				v[j] = f32((r.float()*2 - 1) * 3e38)
			}
		case "tiny":
			for j := range v {
				v[j] = f32((r.float()*2 - 1) * 1e-42)
			}
		default:
			panic("no data set " + name)
		}
		out[i] = v
	}
	return out
}

// Extreme data sets have squared lengths that overflow or vanish: distances between them mean
// nothing, but vectors are stored, trees partition and searches are well formed all the same.
var Extreme = []string{"wild", "huge", "tiny"}

var AllData = []string{"gen", "fine", "grid", "same", "zero", "pairs", "clust", "coll", "axis", "scale", "mixz", "circle", "pos", "lone", "mini", "mega"}

// F64Data are item sets for float64 only.
var F64Data = []string{"mini64", "mega64"}

// snap keeps rounding noise around zero out: the product of two squared lengths has to be
// representable for the angular distance.
func snap(x float64) float64 {
	if math.Abs(x) < 1e-6 {
		return 0
	}
	return f32(x)
}

func f32(x float64) float64 { return float64(float32(x)) }

type lcgT struct{ s uint64 }

func lcg(seed uint64) *lcgT { return &lcgT{seed*2862933555777941757 + 3037000493} }
func (l *lcgT) next() uint64 {
	l.s = l.s*6364136223846793005 + 1442695040888963407
	x := l.s
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}
func (l *lcgT) float() float64 { return float64(l.next()>>40) / (1 << 24) }

var AllIDs = []string{"dense", "rev", "gap", "far", "off", "over", "near"}

// Items assigns ids to vectors: in order of addition.
func Items(ids string, vecs [][]float64) []Item {
	n := len(vecs)
	var out []Item
	for i := 0; i < n; i++ {
		var id int
		switch ids {
		case "dense", "over", "near":
			id = i
		case "rev":
			id = n - 1 - i
		case "gap":
			id = 3*i + 1
		case "far":
			id = i
			if i == n-1 {
				id = i + 57
			}
		case "off":
			id = i + 5
		case "vast":
			id = i * 9973 % 200003
		case "zig": // gaps filled later
			if i < (n+1)/2 {
				id = 2 * i
			} else {
				id = 2*(i-(n+1)/2) + 1
			}
		}
		out = append(out, Item{uint64(id), vecs[i]})
	}
	if ids == "over" { // first other vectors under the same ids
		var pre []Item
		for i := n - 1; i >= 0; i-- {
			v := make([]float64, len(vecs[i]))
			for j := range v {
				v[j] = float64(100 + i + j)
			}
			pre = append(pre, Item{uint64(i), v})
		}
		out = append(pre, out...)
	}
	if ids == "near" { // first much alike vectors under the same ids
		var pre []Item
		for i := range vecs {
			v := append([]float64(nil), vecs[i]...)
			switch j := i / 3 % len(v); i % 3 {
			case 0: // one component differs
				v[j] = f32(v[j]/2) + 0.5
			case 1: // the opposite
				for j := range v {
					v[j] = -v[j]
				}
			case 2: // other order
				for a, b := 0, len(v)-1; a < b; a, b = a+1, b-1 {
					v[a], v[b] = v[b], v[a]
				}
			}
			pre = append(pre, Item{uint64(i), v})
		}
		out = append(pre, out...)
	}
	return out
}

// Probes are query vectors besides the items.
func Probes(dim int) [][]float64 {
	mk := func(f func(j int) float64) []float64 {
		v := make([]float64, dim)
		for j := range v {
			v[j] = f(j)
		}
		return v
	}
	return [][]float64{
		mk(func(j int) float64 { return 0 }),
		mk(func(j int) float64 { return 1 }),
		mk(func(j int) float64 { return -1 }),
		mk(func(j int) float64 { return float64(j%3) - 0.75 }),
		mk(func(j int) float64 { return float64((j+1)%2) * 8 }),
		mk(func(j int) float64 { return 1.0 / float64(j+3) * float64(1-2*(j%2)) / 1024 }),
	}
}

// Multisets enumerates all non-decreasing sequences of length n over 0..m-1.
func Multisets(m, n int, f func([]int)) {
	s := make([]int, n)
	var rec func(i, lo int)
	rec = func(i, lo int) {
		if i == n {
			f(s)
			return
		}
		for x := lo; x < m; x++ {
			s[i] = x
			rec(i+1, x)
		}
	}
	rec(0, 0)
}

// Sequences enumerates all sequences of length n over 0..m-1.
func Sequences(m, n int, f func([]int)) {
	s := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for x := 0; x < m; x++ {
			s[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

// Merges calls f with every interleaving of n sequences of length l, as the sequence of their numbers.
func Merges(n, l int, f func([]int)) {
	s := make([]int, n*l)
	left := make([]int, n)
	for i := range left {
		left[i] = l
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n*l {
			f(s)
			return
		}
		for x := range left {
			if left[x] > 0 {
				left[x]--
				s[i] = x
				rec(i + 1)
				left[x]++
			}
		}
	}
	rec(0)
}

// Lattice is the alphabet of the exhaustive item sets.
func Lattice(dim int) [][]float64 {
	if dim == 1 {
		return [][]float64{{0}, {1}, {-2}}
	}
	var out [][]float64
	n := 1
	for i := 0; i < dim; i++ {
		n *= 3
	}
	for i := 0; i < n; i++ {
		v := make([]float64, dim)
		x := i
		for j := range v {
			v[j] = float64([]int{0, 1, -1}[x%3])
			x /= 3
		}
		out = append(out, v)
	}
	return out
}

// ---- reference distances

// Tol is the tolerance on raw distances (squared for angular, relative to the lengths for dot).
func Tol[TV interfaces.VectorType](dim int) float64 {
	if unsafe.Sizeof(TV(0)) == 4 {
		return 6e-7 * float64(dim+6)
	}
	return 1e-14 * float64(dim+6)
}

// Raw is the reference of the raw distance: squared angular distance, or negated dot product.
func Raw[TV interfaces.VectorType](metric string, x, y []TV) float64 {
	var xx, yy, xy, dd float64
	for i := range x {
		a, b := float64(x[i]), float64(y[i])
		dd += (a - b) * (a - b)
		xx += a * a
		yy += b * b
		xy += a * b
	}
	switch metric {
	case "dot":
		return -xy
	case "euc":
		return dd
	}
	if xx == 0 || yy == 0 {
		return 2
	}
	return 2 - 2*xy/math.Sqrt(xx)/math.Sqrt(yy)
}

// RawOf turns a reported distance into a raw one.
func RawOf(metric string, d float64) float64 {
	if metric == "dot" {
		return -d
	}
	return d * d
}

// Slack is the tolerance for the raw distance between two vectors.
func Slack[TV interfaces.VectorType](metric string, x, y []TV) float64 {
	t := Tol[TV](len(x))
	if metric != "ang" {
		var s float64
		for i := range x {
			a, b := math.Abs(float64(x[i])), math.Abs(float64(y[i]))
			if metric == "euc" {
				s += (a + b) * (a + b)
			} else {
				s += a * b
			}
		}
		if unsafe.Sizeof(TV(0)) == 8 {
			return t*s + 1e-300
		}
		return t*s + 1e-30
	}
	return t
}

// CheckAnswer checks well-formedness of one search answer (C03). It returns what is wrong.
func CheckAnswer[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	m *Model[TV], q []TV, k int, ids []TIX, ds []TV) string {
	if len(ids) != len(ds) {
		return fmt.Sprintf("%d ids but %d distances", len(ids), len(ds))
	}
	if k < 0 {
		k = 0
	}
	if len(ids) > k {
		return fmt.Sprintf("%d results for k=%d", len(ids), k)
	}
	var seen map[TIX]bool
	if len(ids) > 40 {
		seen = make(map[TIX]bool, len(ids))
	}
	for i, id := range ids {
		v, ok := m.Vec[uint64(id)]
		if !ok {
			return fmt.Sprintf("result %d is id %d, which was never added (ids %v)", i, id, ids)
		}
		if len(ids) <= 40 {
			for j := 0; j < i; j++ {
				if ids[j] == id {
					return fmt.Sprintf("id %d twice in %v", id, ids)
				}
			}
		} else if seen[id] {
			return fmt.Sprintf("id %d twice in %v", id, ids)
		} else {
			seen[id] = true
		}
		d := float64(ds[i])
		if math.IsNaN(d) {
			return fmt.Sprintf("distance to id %d is NaN", id)
		}
		want := Raw(m.Metric, q, v)
		if diff := math.Abs(RawOf(m.Metric, d) - want); diff > Slack(m.Metric, q, v) {
			return fmt.Sprintf("distance to id %d is reported as %v, raw %v, but is raw %v", id, d, RawOf(m.Metric, d), want)
		}
		if i > 0 {
			p, c := RawOf(m.Metric, float64(ds[i-1])), RawOf(m.Metric, d)
			if c < p {
				return fmt.Sprintf("not in order: ids %v distances %v", ids, ds)
			}
			if id < ids[i-1] && Same(v, m.Vec[uint64(ids[i-1])]) {
				return fmt.Sprintf("duplicates %d and %d out of id order: ids %v", ids[i-1], id, ids)
			}
		}
	}
	return ""
}

func Same[TV interfaces.VectorType](a, b []TV) bool {
	for i := range a {
		if math.Float64bits(float64(a[i])) != math.Float64bits(float64(b[i])) {
			return false
		}
	}
	return len(a) == len(b)
}

// Ranked is the brute force ranking of all items for a query.
type Ranked[TV interfaces.VectorType] struct {
	m   *Model[TV]
	q   []TV
	raw []float64 // ascending
	ids []uint64
	of  map[uint64]float64
	max float64 // largest slack
}

func Rank[TV interfaces.VectorType](m *Model[TV], q []TV) *Ranked[TV] {
	r := &Ranked[TV]{m: m, q: q, of: map[uint64]float64{}}
	for _, id := range m.IDs {
		d := Raw(m.Metric, q, m.Vec[id])
		r.of[id] = d
		r.ids = append(r.ids, id)
		r.raw = append(r.raw, d)
		r.max = math.Max(r.max, Slack(m.Metric, q, m.Vec[id]))
	}
	sort.Stable(r)
	return r
}

func (r *Ranked[TV]) Len() int           { return len(r.ids) }
func (r *Ranked[TV]) Less(i, j int) bool { return r.raw[i] < r.raw[j] }
func (r *Ranked[TV]) Swap(i, j int) {
	r.raw[i], r.raw[j] = r.raw[j], r.raw[i]
	r.ids[i], r.ids[j] = r.ids[j], r.ids[i]
}

// Exact checks that ids are the k nearest items (C04).
func Exact[TV interfaces.VectorType, TIX interfaces.IndexTypes](r *Ranked[TV], k int, ids []TIX) string {
	want := k
	if len(r.ids) < want {
		want = len(r.ids)
	}
	if len(ids) != want {
		return fmt.Sprintf("%d results, expected %d", len(ids), want)
	}
	tol := 2*r.max + 1e-300
	in := make(map[uint64]bool, len(ids))
	for i, id := range ids {
		in[uint64(id)] = true
		if d := r.of[uint64(id)]; math.Abs(d-r.raw[i]) > tol {
			return fmt.Sprintf("result %d is id %d with raw distance %v, but the true one at this rank is %v (id %d); answer %v",
				i, id, d, r.raw[i], r.ids[i], ids)
		}
	}
	if want == 0 {
		return ""
	}
	kth := r.raw[want-1]
	for i, id := range r.ids {
		if r.raw[i] < kth-tol && !in[id] {
			return fmt.Sprintf("id %d with raw distance %v is missing in %v (k-th is %v)", id, r.raw[i], ids, kth)
		}
	}
	// exact duplicates are taken by ascending id
	if len(ids) <= 64 {
		for _, id := range ids {
			for _, o := range r.m.IDs {
				if o < uint64(id) && !in[o] && Same(r.m.Vec[o], r.m.Vec[uint64(id)]) {
					return fmt.Sprintf("id %d is in the answer but its duplicate %d is not: %v", id, o, ids)
				}
			}
		}
	}
	return ""
}

// Eq compares two answers exactly.
func Eq[TV interfaces.VectorType, TIX interfaces.IndexTypes](a []TIX, da []TV, b []TIX, db []TV) bool {
	if len(a) != len(b) || len(da) != len(db) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	for i := range da {
		if da[i] != db[i] {
			return false
		}
	}
	return true
}
