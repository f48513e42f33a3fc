IX = "index/annoyindex.go"
SE = "index/annoyindex_search.go"
IO = "index/annoyindex_io.go"
MP = "index/policy/index_policy_multi.go"

seed("c17-cached-allocation", "C17", [("index/memory/index_allocator_mmap.go", """	file, err := os.Open(fqFile)
	if err != nil {
		return nil, err
	}

	stat""", """	if mi, ok := mm.Get(fqFile); ok {
		return mi, nil // mapped already
	}

	file, err := os.Open(fqFile)
	if err != nil {
		return nil, err
	}

	stat"""), ("index/memory/index_allocator_mmap.go", "	stat, err := file.Stat()\n", "	var stat os.FileInfo\n\n	stat, err = file.Stat()\n")], '''
import "testing"

func TestSameFile(t *testing.T) {
	f := file(t, "i")
	b := bld(3)
	a := b.Build()
	add(a, vecs(20, 3, 1))
	a.Build(2, 1)
	if err := a.Save(f); err != nil {
		t.Fatal(err)
	}
	// a second index of the same builder on the same file, closed again
	o := b.Build()
	if err := o.Load(f); err != nil {
		t.Fatal(err)
	}
	// the file is replaced: a keeps what it has loaded, o loads the new one
	n := bld(3).Build()
	add(n, vecs(30, 3, 2))
	n.Build(2, 1)
	if err := n.Save(f); err != nil {
		t.Fatal(err)
	}
	p := b.Build()
	if err := p.Load(f); err != nil {
		t.Fatal(err)
	}
	ids, _ := p.GetNnsByVector([]float32{1, 2, 3}, 100, 1000, p.CreateContext())
	if len(ids) != 30 {
		t.Fatal("loaded", len(ids), "items")
	}
}
''', "two indexes of one builder on the same file", "they share one mapping: closing one pulls the memory away under the other, and a replaced file is not loaded")

seed("c18-small-lengths", "C18", [("distance/angular/distance.go", "	if ppqq > 0 {\n", "	if ppqq > 1e-14 {\n")], '''
import (
	"math"
	"testing"
)

func TestScale(t *testing.T) {
	idx := bld(2).Build()
	idx.AddItem(0, []float32{1e-4, 0})
	idx.AddItem(1, []float32{1e-4, 1e-4})
	if d := idx.GetDistance(0, 1); math.Abs(float64(d)-math.Sqrt(2-math.Sqrt2)) > 1e-4 {
		t.Fatal(d)
	}
}
''', "two vectors which are both short (about 1e-4)", "they are treated like zero vectors: the distance depends on the lengths")

seed("c19-nonnegative", "C19", [("distance/dotproduct/distance.go", "	return -distance\n", "	return vector.Abs(distance)\n")], '''
import "testing"

func TestNegative(t *testing.T) {
	idx := dotIndex(2)
	idx.AddItem(0, []float32{1, 2})
	idx.AddItem(1, []float32{-3, -1})
	idx.Build(1, 1)
	ids, ds := idx.GetNnsByVector([]float32{1, 1}, 2, 100, idx.CreateContext())
	if len(ids) != 2 || ids[1] != 1 || ds[1] != -4 {
		t.Fatal(ids, ds)
	}
}
''', "items whose dot product with the query is negative", "a negative dot product is reported as a positive one")

seed("c20-ties", "C20", [("interfaces/sorter.go", """func (pq Pairs[_, _]) Less(i, j int) bool {
	return pq[i].First < pq[j].First ||
		(pq[i].First == pq[j].First && pq[i].Second < pq[j].Second)
""", """func (pq Pairs[_, _]) Less(i, j int) bool {
	return pq[i].First < pq[j].First ||
		(pq[i].Second < pq[j].Second && !(pq[i].First > pq[j].First || i > j))
""")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/sort"
)

func TestTies(t *testing.T) {
	q := sort.NewPriorityQueue[float32, uint32]()
	for i := uint32(10); i > 0; i-- {
		q.Push(float32(i%2), i)
	}
	var got []uint32
	for !q.Empty() {
		got = append(got, q.Pop().Second)
	}
	if !equal(got, []uint32{2, 4, 6, 8, 10, 1, 3, 5, 7, 9}) {
		t.Fatal(got)
	}
}
''', "entries of equal priority that are not pushed in ascending order of their value", "ties are not broken by value")

seed("c21-begin", "C21", [("sort/partial_sort.go", "			maxHeapify(s[begin:middle], 0, beginMiddle)\n", "			maxHeapify(s, begin, middle)\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

func TestRange(t *testing.T) {
	var s interfaces.Pairs[float32, uint32]
	for _, x := range []float32{9, 9, 8, 7, 6, 5, 4, 3, 2, 1} {
		s = append(s, &interfaces.Pair[float32, uint32]{First: x, Second: uint32(x)})
	}
	sort.PartialSortSlice2(s, 2, 6, len(s))
	for i := 2; i < 6; i++ {
		if s[i].First != float32(i-1) {
			t.Fatal(i, s[i].First)
		}
	}
}
''', "a partial sort whose range does not begin at 0, and more than two elements before the middle", "the heap over the range is not repaired at the right place: the smallest elements are not found")

seed("c22-clone-shares", "C22", [("random/gorand.go", "	return NewGoRandomWithSeed(r.seed)\n", "	c := *r\n	c.rng.Seed(int64(c.seed))\n\n	return &c\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/random"
)

func TestClone(t *testing.T) {
	r, twin := random.NewGoRandomWithSeed(5), random.NewGoRandomWithSeed(5)
	for i := 0; i < 3; i++ {
		r.Next()
		twin.Next()
	}
	c := r.CloneAndReset()
	for i := 0; i < 9; i++ {
		c.Next()
		if x, y := r.Next(), twin.Next(); x != y {
			t.Fatal("the clone disturbs the original", x, y)
		}
	}
}
''', "drawing from a generator and from its clone", "the clone shares the source of the original, which restarts and skips numbers")

seed("c22-seed-readback", "C22", [("random/kiss32random.go", "	r.x = seed\n	r.seed = seed\n", "	if seed != 0 {\n		r.x = seed\n		r.seed = seed\n	}\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/random"
)

func TestZero(t *testing.T) {
	r := random.NewKiss32Random(uint32(7))
	r.SetSeed(0)
	if r.GetSeed() != 0 {
		t.Fatal(r.GetSeed())
	}
}
''', "setting the seed 0", "the seed that is read back is another one")

seed("c23-multi-offset", "C23", [(MP, "			builder.ThreadBuild(treesPerWorker, workerIdx, p)\n", "			builder.ThreadBuild(treesPerWorker, workerIdx+1, p) // 0 is the single worker\n")], '''
import (
	"os"
	"testing"
)

func TestSame(t *testing.T) {
	var want string
	for _, multi := range []bool{false, true} {
		b := bld(3)
		if multi {
			b.UseMultiWorkerPolicy()
		}
		idx := b.Build()
		add(idx, vecs(50, 3, 1))
		idx.Build(3, 1)
		f := file(t, "i")
		if err := idx.Save(f); err != nil {
			t.Fatal(err)
		}
		d, _ := os.ReadFile(f)
		if !multi {
			want = string(d)
		} else if want != string(d) {
			t.Fatal("the files differ")
		}
		idx.Close()
	}
}
''', "comparing the policies for one worker", "the multi worker policy with one worker builds other trees than the single worker policy")

seed("c24-map-size", "C24", [("index/memory/index_allocator_mmap.go", "		int(size),\n", "		int(uint32(size)),\n")], '''
import (
	"encoding/binary"
	"os"
	"testing"
)

func TestLarge(t *testing.T) {
	const dim, size = 65536, 12 + 4*65536
	n := (int64(1)<<32)/size + 10
	f, err := os.CreateTemp(os.Getenv("DEMO_DIR"), "large")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	put := func(node int64, words ...uint32) {
		b := make([]byte, 4*len(words))
		for i, w := range words {
			binary.LittleEndian.PutUint32(b[4*i:], w)
		}
		if _, err := f.WriteAt(b, node*size); err != nil {
			t.Fatal(err)
		}
	}
	// items 0 and n-1, a tree of one bucket, and its copy
	put(0, 1, 0, 0, 0x3f800000)
	put(n-1, 1, 0, 0, 0x40000000)
	put(n, uint32(n), 0, uint32(n-1))
	put(n+1, uint32(n), 0, uint32(n-1))
	if err := f.Truncate((n + 2) * size); err != nil {
		t.Fatal(err)
	}
	idx := bld(dim).Build()
	if err := idx.Load(f.Name()); err != nil {
		t.Fatal(err)
	}
	if v := idx.GetItem(uint32(n - 1)); v[0] != 2 {
		t.Fatal(v[0])
	}
}
''', "an index file of 4 GiB or more", "only the size modulo 4 GiB is mapped: reading a node beyond it crashes")

seed("c25-reused-memory", "C25", [("index/memory/gc_index_build_allocator.go", """	a.ptrSize = 0
	a.memory = nil
}
""", """	a.ptrSize = 0
}
"""), ("index/memory/gc_index_build_allocator.go", "	data := make([]byte, byteSize)\n", "	data := a.memory\n	if cap(data) < byteSize || a.ptrSize > 0 {\n		data = make([]byte, byteSize)\n	}\n"),
 ("index/memory/gc_index_build_allocator.go", "	if a.memory != nil && byteSize < a.ptrSize {", "	if a.ptrSize > 0 && byteSize < a.ptrSize {")], '''
import "testing"

func TestReuse(t *testing.T) {
	idx := bld(8).Build()
	for i := uint32(0); i < 9; i++ {
		idx.AddItem(i, vecs(1, 8, int64(i))[0])
	}
	idx.Close()
	idx.AddItem(6, vecs(1, 8, 50)[0])
	idx.AddItem(3, vecs(1, 8, 51)[0])
	idx.Build(2, 1)
	ids, _ := idx.GetNnsByVector(vecs(1, 8, 7)[0], 20, 1000, idx.CreateContext())
	if len(ids) != 2 {
		t.Fatal(ids)
	}
}
''', "memory that is freed and then requested again in a smaller size, with slots that are never written", "the freed contents reappear: items of the closed index are back")

seed("c26-more-workers", "C26", [(MP, "			numTreesPerWorker = int(math.Floor(float64(numberOfTrees+workerIdx) / float64(numberOfWorkers)))\n",
 "			numTreesPerWorker = int(math.Floor(float64(numberOfTrees) / float64(numberOfWorkers)))\n			if rest := numberOfTrees % numberOfWorkers; numTreesPerWorker > 0 && workerIdx >= numberOfWorkers-rest {\n				numTreesPerWorker++\n			}\n")], '''
import (
	"sync/atomic"
	"testing"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

type count struct{ n int64 }

func (c *count) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	atomic.AddInt64(&c.n, int64(trees))
}

func TestCount(t *testing.T) {
	for trees := 0; trees < 20; trees++ {
		for workers := 1; workers < 20; workers++ {
			c := &count{}
			policy.MultiWorker().Build(c, trees, workers)
			if c.n != int64(trees) {
				t.Fatal(trees, workers, c.n)
			}
		}
	}
}
''', "more workers than trees", "no tree at all is built")

seed("c27-abs-float32", "C27", [("vector/abs.go", """	if x < 0 {
		return -x
	}

	return x
""", """	// without a branch
	return TV(math.Float32frombits(math.Float32bits(float32(x)) &^ (1 << 31)))
"""), ("vector/abs.go", "import (\n", "import (\n	\"math\"\n\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/vector"
)

func TestAbs(t *testing.T) {
	for _, x := range []float64{-0.1, 1e300, -1e-300} {
		if y := vector.Abs(x); y != x && y != -x {
			t.Fatal(x, y)
		}
	}
}
''', "float64 values that are no float32 values", "the absolute value, and with it the Manhattan distance, is rounded to float32 (or becomes infinite)")

seed("c28-copy-words", "C28", [("utils/node.go", "	copy((*[1 << 30]byte)(ptrDst)[:size], (*[1 << 30]byte)(ptrSrc)[:size])\n", "	copy((*[1 << 27]uint64)(ptrDst)[:size/8], (*[1 << 27]uint64)(ptrSrc)[:size/8])\n")], '''
import (
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/utils"
)

func TestCopy(t *testing.T) {
	for dim := uint32(1); dim < 9; dim++ {
		d := angular.Distance[float32](dim)
		a, b := make([]uint32, d.NodeSize()/4+2), make([]uint32, d.NodeSize()/4+2)
		x, y := d.MapNodeToMemory(unsafe.Pointer(&a[0]), 0), d.MapNodeToMemory(unsafe.Pointer(&b[0]), 0)
		v := vecs(1, int(dim), 1)[0]
		x.SetVector(v)
		utils.CopyNode(y, x, d.NodeSize())
		if !equal(y.GetVector(dim), v) {
			t.Fatal(dim, y.GetVector(dim), v)
		}
	}
}
''', "a node size that is no multiple of eight bytes", "the last component of the vector of a copied node is not copied")

seed("c28-round-negative", "C28", [("utils/math.go", "	return math.Floor(f + 0.5)\n", "	return math.Trunc(f + 0.5)\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/utils"
)

func TestRound(t *testing.T) {
	if r := utils.RoundPlus(-1.27, 1); r != -1.3 {
		t.Fatal(r)
	}
}
''', "a negative number", "it is rounded the wrong way")

seed("c29-bucket-size", "C29", [(IX, "		maxDescendants:       distance.MaxNumChildren(), // _K\n", "		maxDescendants:       (distance.NodeSize() - TIX(unsafe.Sizeof(TIX(0)))) / TIX(unsafe.Sizeof(TIX(0))), // _K\n")], '''
import (
	"testing"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

type base interface {
	interfaces.Distance[float32, uint32]
}

// small is an angular distance with smaller buckets.
type small struct{ base }

func (s small) MaxNumChildren() uint32 { return 3 }

func TestBuckets(t *testing.T) {
	idx := custom(small{angular.Distance[float32](uint32(20))}, policy.SingleWorker(), 1)
	v := vecs(21, 20, 1)
	add(idx, v)
	idx.Build(1, 1)
	// a budget of one inspects one bucket
	if ids, _ := idx.GetNnsByVector(v[0], 21, 1, idx.CreateContext()); len(ids) > 3 {
		t.Fatal(len(ids))
	}
}
''', "a custom distance whose buckets are smaller than what fits into a node", "the maximum bucket size of the distance is ignored")

