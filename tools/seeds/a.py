IX = "index/annoyindex.go"
SE = "index/annoyindex_search.go"
IO = "index/annoyindex_io.go"

seed("c02-lone-item", "C02", [(IX, " || lenIdx == 1) {", ") {")], '''
import "testing"

// A lone item whose id leaves many slots before it empty.
func TestLone(t *testing.T) {
	idx := bld(2).Build()
	idx.AddItem(40, []float32{1, 2})
	idx.Build(2, 1)
	ids, _ := idx.GetNnsByVector([]float32{1, 1}, 3, -1, idx.CreateContext())
	if len(ids) != 1 || ids[0] != 40 {
		t.Fatal(ids)
	}
}
''', "an index with a single item whose id is larger than the bucket size", "a tree over one item is split although there is nothing to split: the build fails")

seed("c02-give-up-randomising", "C02", [(IX, """	for {
		if idx.splitImbalance(
			children_indices[interfaces.SideLeft],
			children_indices[interfaces.SideRight]) <= 0.99 {
			break
		}
""", """	for attempt := 0; attempt < 3; attempt++ {
		if idx.splitImbalance(
			children_indices[interfaces.SideLeft],
			children_indices[interfaces.SideRight]) <= 0.99 {
			break
		}
""")], '''
import (
	"os"
	"testing"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/random"
)

// unlucky gives the same side many times in a row, again and again.
type unlucky struct {
	interfaces.Random[uint32]
	n *int
}

func (u unlucky) NextSide() interfaces.Side {
	*u.n++
	if *u.n%77 == 0 {
		return interfaces.SideRight
	}
	return interfaces.SideLeft
}

func (u unlucky) CloneAndReset() interfaces.Random[uint32] {
	return unlucky{u.Random.CloneAndReset(), u.n}
}

func TestUnlucky(t *testing.T) {
	n := 0
	idx := index.New[float32, uint32](unlucky{random.NewKiss32Random(uint32(1)), &n},
		angular.Distance[float32](uint32(2)), policy.SingleWorker(), memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0)
	for i := uint32(0); i < 5; i++ {
		idx.AddItem(i, []float32{0, 0})
	}
	idx.Build(1, 1)
	// five items, one bucket of four, the root and its copy
	f := file(t, "i")
	if err := idx.Save(f); err != nil {
		t.Fatal(err)
	}
	if st, _ := os.Stat(f); st.Size() != 8*20 {
		t.Fatal("the same items were split again and again", st.Size()/20)
	}
}
''', "identical items and a generator that puts all of them on the same side three times in a row", "a split gets an empty side, and the same items are split again below it")

seed("c01-copy-words", "C01", [("index/memory/gc_index_build_allocator.go", """		if a.is64 {
			copy((*[1 << 49]byte)(ptr)[:a.ptrSize], (*[1 << 49]byte)(a.ptr)[:a.ptrSize])
""", """		if a.is64 {
			// in words
			copy((*[1 << 46]uint64)(ptr)[:a.ptrSize/8], (*[1 << 46]uint64)(a.ptr)[:a.ptrSize/8])
""")], '''
import "testing"

func TestStored(t *testing.T) {
	for _, dim := range []int{1, 2, 3, 4, 5, 6, 8} {
		v := vecs(30, dim, 1)
		idx := bld(dim).Build()
		add(idx, v)
		for i := range v {
			if !equal(idx.GetItem(uint32(i)), v[i]) {
				t.Fatal(dim, i, idx.GetItem(uint32(i)), v[i])
			}
		}
	}
}
''', "a storage size that is no multiple of eight bytes, and a last slot that is in use when the storage grows", "the last component of an item is lost when the storage grows")

seed("c03-gap-guard", "C03", [(SE, "if n.GetNumberOfDescendants() == 1 { // This is only to guard a really obscure case, #284", "if n.GetNumberOfDescendants() <= 1 { // an item")], '''
import "testing"

func TestGaps(t *testing.T) {
	idx := bld(8).Build()
	idx.AddItem(3, vecs(1, 8, 1)[0])
	idx.AddItem(6, vecs(1, 8, 2)[0])
	idx.Build(2, 1)
	ids, _ := idx.GetNnsByVector(vecs(1, 8, 3)[0], 5, -1, idx.CreateContext())
	for _, id := range ids {
		if id != 3 && id != 6 {
			t.Fatal("never added", ids)
		}
	}
}
''', "fewer item slots than the bucket size, with unused ids among them, the id 0 among those", "a search returns an id that was never added")

seed("c03-single-item-root", "C03", [(SE, "if nDescendants == 1 && i < idx._n_items {\n\t\t\tbc.nns[cnt] = i", "if nDescendants == 1 {\n\t\t\tbc.nns[cnt] = i")], '''
import "testing"

func TestOne(t *testing.T) {
	idx := bld(4).Build()
	idx.AddItem(0, []float32{1, 2, 3, 4})
	idx.Build(2, 1)
	ids, ds := idx.GetNnsByVector([]float32{1, 2, 3, 4}, 2, -1, idx.CreateContext())
	if len(ids) != 1 || ids[0] != 0 || ds[0] > 0.01 {
		t.Fatal(ids, ds)
	}
}
''', "an index with the single id 0", "the search takes the roots of the trees for items and returns their node numbers")

seed("c04-cap-budget", "C04", [(SE, "	for i := range idx._roots {\n", "	if numNodesToInspect > int(idx._n_nodes) {\n\t\tnumNodesToInspect = int(idx._n_nodes) // there are no more\n\t}\n\n	for i, n := 0, len(idx._roots); i < n; i++ {\n")], '''
import "testing"

func TestAll(t *testing.T) {
	const n, T = 200, 8
	idx := bld(20).Build()
	add(idx, vecs(n, 20, 1))
	idx.Build(T, 1)
	ctx := idx.CreateContext()
	for i := 0; i < n; i++ {
		if ids, _ := idx.GetNnsByItem(uint32(i), n, T*n, ctx); len(ids) != n {
			t.Fatal(i, len(ids))
		}
	}
}
''', "several trees with large buckets and a k close to the number of items", "the budget counts candidates, of which there are more than nodes: cut to the number of nodes, items are missing from the answer")

seed("c05-half-budget", "C05", [(SE, "		numNodesToInspect = numReturn * len(idx._roots)\n", "		numNodesToInspect = numReturn * ((len(idx._roots) + 1) / 2) // half of the trees suffice\n")], '''
import "testing"

func TestFull(t *testing.T) {
	for seed := int64(0); seed < 20; seed++ {
		idx := bld(2).Build()
		add(idx, vecs(60, 2, seed))
		idx.Build(10, 1)
		ctx := idx.CreateContext()
		for i := uint32(0); i < 60; i++ {
			for k := 1; k < 60; k++ {
				if ids, _ := idx.GetNnsByItem(i, k, -1, ctx); len(ids) != k {
					t.Fatal(seed, i, k, len(ids))
				}
			}
		}
	}
}
''', "many trees which find the same items, and a large k", "the default budget is used up by duplicates and fewer than k items are returned")

seed("c06-exact-budget", "C06", [(SE, "	nns := bc.nns[:cnt]\n", "	if numNodesToInspect >= 0 && cnt > numNodesToInspect {\n\t\tcnt = numNodesToInspect // the last bucket may have exceeded the budget\n\t}\n\n	nns := append([]TIX(nil), bc.nns[:cnt]...)\n")], '''
import "testing"

func TestSelf(t *testing.T) {
	idx := bld(10).Build()
	v := vecs(200, 10, 5)
	add(idx, v)
	idx.Build(1, 1)
	ctx := idx.CreateContext()
	for i := range v {
		if ids, _ := idx.GetNnsByVector(v[i], 1, 1, ctx); len(ids) != 1 || ids[0] != uint32(i) {
			t.Fatal(i, ids)
		}
	}
}
''', "a budget smaller than the bucket that holds the item", "a part of the last bucket is dropped, an item does not find itself")

seed("c06-zero-plane", "C06", [(IX, "		children_indices[1] = nil\n\n		// Set the vector to 0.0\n		m.SetVector(make([]TV, idx.vectorLength))\n", "		children_indices[1] = nil\n")], '''
import (
	"encoding/binary"
	"math"
	"os"
	"testing"
)

// Parallel items cannot be separated: they are divided at random, and lie on the plane above them.
// An item that does not lie on its planes has to be on the side where a search looks for it.
func TestSides(t *testing.T) {
	for seed := int64(0); seed < 30; seed++ {
		const n, dim, size = 12, 3, 24
		v := vecs(1, dim, seed)[0]
		idx := bld(dim).Build()
		for i := 0; i < n; i++ {
			w := make([]float32, dim)
			for j := range w {
				w[j] = float32(2*i+1) * v[j]
			}
			idx.AddItem(uint32(i), w)
		}
		idx.Build(1, 1)
		f := file(t, "i")
		if err := idx.Save(f); err != nil {
			t.Fatal(err)
		}
		idx.Close()
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		at := func(node, i int) uint32 { return binary.LittleEndian.Uint32(b[node*size+4*i:]) }
		var items func(node int) []int
		items = func(node int) []int {
			d := int(at(node, 0))
			if node < n {
				return []int{node}
			}
			var l []int
			if d <= (size-4)/4 {
				for i := 0; i < d; i++ {
					l = append(l, int(at(node, 1+i)))
				}
				return l
			}
			for side := 0; side < 2; side++ {
				for _, it := range items(int(at(node, 1+side))) {
					var m float64
					for j := 0; j < dim; j++ {
						m += float64(math.Float32frombits(at(node, 3+j))) * float64(v[j])
					}
					if side == 0 && m > 1e-6 || side == 1 && m < -1e-6 {
						t.Fatal("item", it, "is on the wrong side of its plane, margin", m)
					}
					l = append(l, it)
				}
			}
			return l
		}
		if got := items(len(b)/size - 1); len(got) != n {
			t.Fatal(got)
		}
	}
}
''', "parallel items whose centroids differ by rounding only", "items divided at random lie on the wrong side of a plane that is not zero: a search with a small budget does not consider them")
