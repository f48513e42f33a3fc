package lab

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

// Forest is a saved index: the file's bytes seen through the distance's own nodes.
type Forest[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	Dist  interfaces.Distance[TV, TIX]
	Bytes []byte
	buf   []uint64 // aligned memory behind Bytes
	Len   int      // nodes
	N     uint64   // item slots
	K     uint64
	T     int // number of roots expected
}

// ReadForest reads a saved index with t trees.
func ReadForest[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	file string, d interfaces.Distance[TV, TIX], t int) (*Forest[TV, TIX], error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	return NewForest(b, d, t)
}

func NewForest[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	b []byte, d interfaces.Distance[TV, TIX], t int) (*Forest[TV, TIX], error) {
	ns := int(d.NodeSize())
	if len(b) == 0 || len(b)%ns != 0 {
		return nil, fmt.Errorf("file of %d bytes is no multiple of the node size %d", len(b), ns)
	}
	// slack behind: a node may be viewed with more children than it has
	f := &Forest[TV, TIX]{Dist: d, Len: len(b) / ns, T: t, K: uint64(d.MaxNumChildren())}
	f.buf = make([]uint64, (len(b)+ns+64)/8+8)
	f.Bytes = unsafe.Slice((*byte)(unsafe.Pointer(&f.buf[0])), len(b))
	copy(f.Bytes, b)
	f.N = uint64(f.node(uint64(f.Len - 1)).GetNumberOfDescendants())
	return f, nil
}

func (f *Forest[TV, TIX]) node(i uint64) interfaces.Node[TV, TIX] {
	return f.Dist.MapNodeToMemory(unsafe.Pointer(&f.buf[0]), TIX(i))
}

func (f *Forest[TV, TIX]) desc(i uint64) uint64 {
	return uint64(f.node(i).GetNumberOfDescendants())
}

// children reads count child ids.
func (f *Forest[TV, TIX]) children(i uint64, count int) []uint64 {
	p := unsafe.Slice(f.node(i).GetRawChildren(), count)
	out := make([]uint64, count)
	for j := range p {
		out[j] = uint64(p[j])
	}
	return out
}

// Roots are the node numbers of the root copies at the end.
func (f *Forest[TV, TIX]) Roots() []uint64 {
	var out []uint64
	for i := 0; i < f.T; i++ {
		out = append(out, uint64(f.Len-f.T+i))
	}
	return out
}

type walk[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	f     *Forest[TV, TIX]
	m     *Model[TV]
	seen  map[uint64]int
	steps int
	depth int
	err   string
	inner int
}

// Check verifies the whole forest against the model (C02). What is wrong, or "".
func (f *Forest[TV, TIX]) Check(m *Model[TV]) string {
	if f.Len < int(m.N)+2*f.T {
		return fmt.Sprintf("%d nodes cannot hold %d item slots and %d trees", f.Len, m.N, f.T)
	}
	if f.N != m.N {
		return fmt.Sprintf("the last node claims %d items, there are %d slots", f.N, m.N)
	}
	for i := uint64(0); i < m.N; i++ {
		v, ok := m.Vec[i]
		d := f.desc(i)
		if ok && (d != 1 || !Same(f.node(i).GetVector(TIX(m.Dim)), v)) {
			return fmt.Sprintf("slot %d: descendants %d vector %v, expected item %v", i, d, f.node(i).GetVector(TIX(m.Dim)), v)
		}
		if !ok && d != 0 {
			return fmt.Sprintf("slot %d was never added but has %d descendants", i, d)
		}
	}
	rootNodes := 0
	for i := m.N; i < uint64(f.Len); i++ {
		if f.desc(i) == m.N {
			rootNodes++
		}
	}
	if rootNodes != 2*f.T {
		return fmt.Sprintf("%d root nodes (originals and copies), expected %d for %d trees", rootNodes, 2*f.T, f.T)
	}
	items := len(m.IDs)
	if max := int(m.N) + f.T*(items+2) + f.T; f.Len > max {
		return fmt.Sprintf("%d nodes for %d items and %d trees, more than %d", f.Len, items, f.T, max)
	}
	for t, r := range f.Roots() {
		if msg, _, _ := f.CheckTree(m, r); msg != "" {
			return fmt.Sprintf("tree %d of %d: %s", t, f.T, msg)
		}
	}
	return ""
}

// CheckTree walks one tree. It returns what is wrong, the depth and the number of inner nodes.
func (f *Forest[TV, TIX]) CheckTree(m *Model[TV], root uint64) (string, int, int) {
	w := &walk[TV, TIX]{f: f, m: m, seen: map[uint64]int{}}
	w.root(root)
	if w.err != "" {
		return w.err, w.depth, w.inner
	}
	for _, id := range m.IDs {
		if w.seen[id] != 1 {
			return fmt.Sprintf("item %d is in the tree %d times", id, w.seen[id]), w.depth, w.inner
		}
	}
	if len(w.seen) != len(m.IDs) {
		return "tree reaches ids that are no items", w.depth, w.inner
	}
	return "", w.depth, w.inner
}

func (w *walk[TV, TIX]) root(r uint64) {
	d := w.f.desc(r)
	if d != w.m.N {
		w.err = fmt.Sprintf("root has %d descendants, expected %d", d, w.m.N)
		return
	}
	real := len(w.m.IDs)
	if d <= w.f.K {
		// a bucket with all items; with gaps in the ids the rest of it is unused (id 0)
		ch := w.f.children(r, int(d))
		for i, c := range ch {
			if i >= real && c == 0 {
				continue
			}
			w.leaf(c)
		}
		return
	}
	if real == 1 {
		// dummy parent of the only item, which has the highest id
		w.leaf(w.f.children(r, 1)[0])
		return
	}
	w.split(r, real, 1)
}

func (w *walk[TV, TIX]) leaf(id uint64) {
	if _, ok := w.m.Vec[id]; !ok {
		w.err = fmt.Sprintf("child %d is not an item", id)
		return
	}
	w.seen[id]++
}

func (w *walk[TV, TIX]) split(n uint64, count, depth int) {
	w.inner++
	if depth > w.depth {
		w.depth = depth
	}
	if depth > 4*len(w.m.IDs)+64 {
		w.err = "tree is too deep or cyclic"
		return
	}
	for _, v := range w.f.node(n).GetVector(TIX(w.m.Dim)) {
		if math.IsNaN(float64(v)) {
			w.err = fmt.Sprintf("split node %d has NaN in its plane", n)
			return
		}
	}
	sum := 0
	for _, c := range w.f.children(n, 2) {
		if w.err != "" {
			return
		}
		w.steps++
		if w.steps > 8*len(w.m.IDs)+64 {
			w.err = "tree is too large or cyclic"
			return
		}
		if c < w.m.N {
			w.leaf(c)
			sum++
			continue
		}
		if c >= uint64(w.f.Len-w.f.T) {
			w.err = fmt.Sprintf("node %d has child %d, beyond the tree nodes", n, c)
			return
		}
		d := w.f.desc(c)
		sum += int(d)
		switch {
		case d < 2:
			w.err = fmt.Sprintf("inner node %d has %d descendants", c, d)
		case d <= w.f.K:
			w.inner++
			for _, x := range w.f.children(c, int(d)) {
				w.leaf(x)
			}
		default:
			w.split(c, int(d), depth+1)
		}
	}
	if w.err == "" && sum != count {
		w.err = fmt.Sprintf("node %d stands for %d items, but its children for %d", n, count, sum)
	}
}

// Canon is a canonical form of the forest, independent of node numbering and tree order.
func (f *Forest[TV, TIX]) Canon(m *Model[TV]) []uint64 {
	var out []uint64
	for _, r := range f.Roots() {
		out = append(out, f.canonNode(m, r, true, 0))
	}
	for i := range out { // insertion sort
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (f *Forest[TV, TIX]) canonNode(m *Model[TV], n uint64, root bool, depth int) uint64 {
	h := fnv.New64a()
	if !root && n < m.N {
		fmt.Fprintf(h, "item %d", n)
		return h.Sum64()
	}
	d := f.desc(n)
	if d <= f.K {
		fmt.Fprintf(h, "bucket %v", f.children(n, int(d)))
		return h.Sum64()
	}
	if depth > 100000 {
		return 0
	}
	fmt.Fprintf(h, "split %d %v", d, f.node(n).GetVector(TIX(m.Dim)))
	for _, c := range f.children(n, 2) {
		fmt.Fprintf(h, " %x", f.canonNode(m, c, false, depth+1))
	}
	return h.Sum64()
}

// Margins tells for each item the smallest |margin| on its path in a tree, and whether all planes
// above it have the item strictly on the side on which it is stored.
func (f *Forest[TV, TIX]) Margins(m *Model[TV], root uint64) map[uint64]float64 {
	out := map[uint64]float64{}
	real := len(m.IDs)
	if f.desc(root) <= f.K || real == 1 {
		for _, id := range m.IDs {
			out[id] = math.Inf(1)
		}
		return out
	}
	var under func(n uint64, isRoot bool) []uint64
	under = func(n uint64, isRoot bool) []uint64 {
		if !isRoot && n < m.N {
			out[n] = math.Inf(1)
			return []uint64{n}
		}
		d := f.desc(n)
		if !isRoot && d <= f.K {
			ch := f.children(n, int(d))
			for _, c := range ch {
				out[c] = math.Inf(1)
			}
			return ch
		}
		var all []uint64
		for side, c := range f.children(n, 2) {
			for _, id := range under(c, false) {
				mg := float64(f.Dist.Margin(f.node(n), m.Vec[id]))
				if side == int(interfaces.SideLeft) {
					mg = -mg
				}
				if mg < out[id] {
					out[id] = mg
				}
				all = append(all, id)
			}
		}
		return all
	}
	under(root, true)
	return out
}

// CountRoots is the number of nodes behind the item slots that stand for all n slots.
func (f *Forest[TV, TIX]) CountRoots(n uint64) int {
	k := 0
	for i := n; i < uint64(f.Len); i++ {
		if f.desc(i) == n {
			k++
		}
	}
	return k
}
