IX = "index/annoyindex.go"
SE = "index/annoyindex_search.go"
IO = "index/annoyindex_io.go"
MP = "index/policy/index_policy_multi.go"

seed("c07-few-roots", "C07", [(SE, "	for i := range idx._roots {\n", "	roots := idx._roots\n	if numNodesToInspect > 0 && numNodesToInspect < len(roots) {\n		roots = roots[:numNodesToInspect] // one node of each tree at least\n	}\n\n	for i := range roots {\n")], '''
import "testing"

func TestBudget(t *testing.T) {
	for seed := int64(0); seed < 30; seed++ {
		const n, T, k = 80, 6, 10
		v := vecs(n, 3, seed)
		idx := bld(3).Build()
		add(idx, v)
		idx.Build(T, 1)
		ctx := idx.CreateContext()
		for i := range v {
			var last []float32
			for b := 1; b <= n; b++ {
				ids, ds := idx.GetNnsByVector(v[i], k, b, ctx)
				if len(ids) < len(last) {
					t.Fatal("fewer", seed, i, b)
				}
				for j := range last {
					if ds[j] > last[j] {
						t.Fatal("worse", seed, i, b, j, ds[j], last[j])
					}
				}
				last = ds
			}
		}
	}
}
''', "a budget just below the number of trees compared with one just above it", "a larger budget gives worse results")

seed("c08-more-roots-than-items", "C08", [(IO, "		if !mset || k == m {\n", "		if !mset || k == m && TIX(len(idx._roots)) < 2*m {\n")], '''
import "testing"

func TestReload(t *testing.T) {
	for n := 6; n < 12; n++ {
		const T = 40
		v := vecs(n, 2, int64(n))
		idx := bld(2).Build()
		add(idx, v)
		idx.Build(T, 1)
		var want [][]uint32
		ctx := idx.CreateContext()
		for i := range v {
			for b := 1; b < T*n; b++ {
				ids, _ := idx.GetNnsByVector(v[i], n, b, ctx)
				want = append(want, ids)
			}
		}
		f := file(t, "i")
		if err := idx.Save(f); err != nil {
			t.Fatal(err)
		}
		ctx = idx.CreateContext()
		for i := range v {
			for b := 1; b < T*n; b++ {
				ids, _ := idx.GetNnsByVector(v[i], n, b, ctx)
				if !equal(ids, want[0]) {
					t.Fatal(n, i, b, ids, want[0])
				}
				want = want[1:]
			}
		}
		idx.Close()
	}
}
''', "more trees than twice the number of items", "a loaded index forgets some of its trees: answers for small budgets differ from those of the built one")

seed("c10-map-error-leak", "C10", [("index/memory/index_allocator_mmap.go", """	if err != nil {
		file.Close()
		return nil, err
	}

	mi :=""", """	if err != nil {
		return nil, err
	}

	mi :=""")], '''
import (
	"os"
	"runtime/debug"
	"testing"
)

func TestLeak(t *testing.T) {
	debug.SetGCPercent(-1)
	f := file(t, "empty")
	if err := os.WriteFile(f, nil, 0o600); err != nil {
		t.Fatal(err)
	}
	idx := bld(3).Build()
	before := openFiles(t)
	for i := 0; i < 20; i++ {
		if idx.Load(f) == nil {
			t.Fatal("loaded an empty file")
		}
	}
	if after := openFiles(t); after > before+1 {
		t.Fatal("open files", before, after)
	}
}
''', "a file that can be opened but not be mapped (an empty one, a directory)", "every failed load leaks an open file")

seed("c15-unloaded-memory", "C15", [(IX, "	if idx.indexMemory != nil {\n", "	if idx.indexLoaded {\n")], '''
import (
	"os"
	"testing"
)

func TestLeak(t *testing.T) {
	f := file(t, "odd")
	if err := os.WriteFile(f, make([]byte, 1001), 0o600); err != nil {
		t.Fatal(err)
	}
	idx := bld(3).Build()
	before := openFiles(t)
	for i := 0; i < 20; i++ {
		if idx.Load(f) == nil {
			t.Fatal("loaded a file of a wrong size")
		}
	}
	if after := openFiles(t); after > before+1 {
		t.Fatal("open files", before, after)
	}
}
''', "loading a file that is mapped, and then rejected because its size is wrong", "the file and the mapping of the rejected file are never released")

seed("c11-leaf-before-lock", "C11", [(IX, """		threadedBuildPolicy.LockSharedNodes()

		m := idx.getNode(item)

		if isRoot {""", """		m := idx.getNode(item)

		threadedBuildPolicy.LockSharedNodes()

		if isRoot {""")], '''
import (
	"testing"
	"time"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// slow is a multi worker policy on a machine where workers are interrupted before they get a lock.
type slow struct {
	interfaces.AnnoyIndexBuildPolicy
}

func (s slow) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	done := make(chan bool)
	for w := 0; w < workers; w++ {
		w := w
		go func() { b.ThreadBuild(trees/workers, w, s); done <- true }()
	}
	for w := 0; w < workers; w++ {
		<-done
	}
}

func (s slow) LockSharedNodes() {
	time.Sleep(100 * time.Microsecond)
	s.AnnoyIndexBuildPolicy.LockSharedNodes()
}

func TestRace(t *testing.T) {
	for i := 0; i < 30; i++ {
		idx := custom(angular.Distance[float32](uint32(3)), slow{policy.MultiWorker()}, 3)
		add(idx, vecs(60, 3, int64(i)))
		idx.Build(16, 8)
	}
}
''', "another worker that moves the storage between looking up a new leaf and filling it", "the leaf is written to storage that is no longer used: its items are lost from the tree, unsynchronised access", "-race")

seed("c11-auto-deadlock", "C11", [(IX, """			threadedBuildPolicy.LockNNodes()
			if idx._n_nodes >= 2*idx._n_items {
				threadedBuildPolicy.UnlockNNodes()
				break
			}
			threadedBuildPolicy.UnlockNNodes()
""", """			threadedBuildPolicy.LockSharedNodes()
			threadedBuildPolicy.LockNNodes()
			enough := idx._n_nodes >= 2*idx._n_items
			threadedBuildPolicy.UnlockNNodes()
			threadedBuildPolicy.UnlockSharedNodes()

			if enough {
				break
			}
""")], '''
import (
	"testing"
	"time"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// slow is a multi worker policy on a machine where workers are interrupted for a while when they get a lock.
type slow struct {
	interfaces.AnnoyIndexBuildPolicy
}

func (s slow) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	done := make(chan bool)
	for w := 0; w < workers; w++ {
		w := w
		go func() { b.ThreadBuild(trees, w, s); done <- true }()
	}
	for w := 0; w < workers; w++ {
		<-done
	}
}

func (s slow) LockNNodes() {
	s.AnnoyIndexBuildPolicy.LockNNodes()
	time.Sleep(time.Millisecond)
}

func (s slow) LockSharedNodes() {
	s.AnnoyIndexBuildPolicy.LockSharedNodes()
	time.Sleep(time.Millisecond)
}

func TestEnds(t *testing.T) {
	end := make(chan bool)
	go func() {
		for i := 0; i < 20; i++ {
			idx := custom(angular.Distance[float32](uint32(2)), slow{policy.MultiWorker()}, 3)
			add(idx, vecs(12, 2, int64(i)))
			idx.Build(-1, 4)
		}
		end <- true
	}()
	select {
	case <-end:
	case <-time.After(60 * time.Second):
		t.Fatal("the build does not end")
	}
}
''', "an automatic number of trees, several workers, one of which grows the storage while another one checks whether there are enough trees", "deadlock: the locks are taken in different orders")

seed("c12-seed-by-start", "C12", [(MP, """			builder.ThreadBuild(treesPerWorker, workerIdx, p)
""", """			p.rootsMutex.Lock()
			seedIdx := started
			started++
			p.rootsMutex.Unlock()

			builder.ThreadBuild(treesPerWorker, seedIdx, p)
"""), (MP, "	for workerIdx := 0; workerIdx < numberOfWorkers; workerIdx++ {\n		numTrees", "	started := 0\n\n	for workerIdx := 0; workerIdx < numberOfWorkers; workerIdx++ {\n		numTrees")], '''
import (
	"sync"
	"testing"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

// shares records which seed gets how many trees.
type shares struct {
	sync.Mutex
	trees map[int]int
}

func (s *shares) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	s.Lock()
	s.trees[worker] = trees
	s.Unlock()
}

func TestShares(t *testing.T) {
	var first map[int]int
	for i := 0; i < 5000; i++ {
		s := &shares{trees: map[int]int{}}
		policy.MultiWorker().Build(s, 5, 3)
		if first == nil {
			first = s.trees
		}
		for w, n := range s.trees {
			if first[w] != n {
				t.Fatal("the trees depend on the scheduling", first, s.trees)
			}
		}
	}
}
''', "workers that do not start in the order of their creation, and a number of trees that is no multiple of theirs", "which seed builds how many trees depends on the scheduling: two equal builds give different forests")

seed("c13-shared-scratch", "C13", [(SE, "	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap\n", "	if idx.scratch == nil {\n		idx.scratch = make([]byte, idx.nodeSize)\n	}\n\n	mem := idx.scratch\n"),
  (IX, "	_roots      []TIX\n", "	_roots      []TIX\n	scratch     []byte\n")], '''
import (
	"sync"
	"testing"
)

func TestParallel(t *testing.T) {
	v := vecs(400, 8, 1)
	idx := bld(8).Build()
	add(idx, v)
	idx.Build(3, 1)
	var want [][]float32
	for i := range v {
		_, ds := idx.GetNnsByVector(v[i], 10, -1, idx.CreateContext())
		want = append(want, ds)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := idx.CreateContext()
			for i := range v {
				i = (i + 50*g) % len(v)
				if _, ds := idx.GetNnsByVector(v[i], 10, -1, ctx); !equal(ds, want[i]) {
					t.Errorf("item %d: %v, alone %v", i, ds, want[i])
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', "two searches at the same time", "both write their query into the same buffer: wrong distances, unsynchronised access", "-race")

seed("c14-stale-items", "C14", [(IX, "	idx._n_items = 0\n	idx._n_nodes = 0\n	idx._nodes_size = 0\n", "	idx._n_nodes = 0\n	idx._nodes_size = 0\n")], '''
import (
	"os"
	"testing"
)

func TestReuse(t *testing.T) {
	v := vecs(4, 3, 2)
	fill := func(idx idxT) string {
		add(idx, v)
		idx.Build(2, 1)
		f := file(t, "i")
		if err := idx.Save(f); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(f)
		return string(b)
	}
	want := fill(bld(3).Build())
	idx := bld(3).Build()
	add(idx, vecs(20, 3, 1))
	idx.Build(2, 1)
	idx.Close()
	if got := fill(idx); got != want {
		t.Fatal("the closed index is not like a fresh one", len(want), len(got))
	}
}
''', "an index that is closed and filled again with fewer items", "the index still counts the slots of its earlier items")

seed("c14-late-length-check", "C14", [(IX, """	if idx.vectorLength != TIX(len(v)) {
		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
	}

	// Ensure that we have enough memory for the new node
	idx.allocateSize(itemIndex+1, nil)

	// Map the node onto the memory
	node := idx.getNode(itemIndex)

	// Initialize the node with the vector
	node.SetNumberOfDescendants(1)
""", """	// Ensure that we have enough memory for the new node
	idx.allocateSize(itemIndex+1, nil)

	// Map the node onto the memory
	node := idx.getNode(itemIndex)

	// Initialize the node with the vector
	node.SetNumberOfDescendants(1)

	if idx.vectorLength != TIX(len(v)) {
		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
	}

""")], '''
import "testing"

func TestRejected(t *testing.T) {
	idx := bld(3).Build()
	if !panics(func() { idx.AddItem(1, []float32{1, 2}) }) {
		t.Fatal("accepted")
	}
	idx.AddItem(0, []float32{1, 2, 3})
	idx.AddItem(2, []float32{1, 2, 3})
	idx.Build(2, 1)
	ids, _ := idx.GetNnsByVector([]float32{1, 2, 3}, 5, -1, idx.CreateContext())
	if len(ids) != 2 {
		t.Fatal(ids)
	}
}
''', "a rejected addition under an id below a later one", "the slot of the rejected item counts as an item afterwards")

seed("c16-alias", "C16", [(SE, "	for i := 0; i < middle; i++ {\n		distances", "	result = bc.nns[:0] // not needed any more\n\n	for i := 0; i < middle; i++ {\n		distances"),
  (SE, "		result = append(result, nns_dist[i].Second)\n", "		id := nns_dist[i].Second\n		result = append(result, id)\n")], '''
import "testing"

func TestKeep(t *testing.T) {
	v := vecs(60, 4, 1)
	idx := bld(4).Build()
	add(idx, v)
	idx.Build(2, 1)
	ctx := idx.CreateContext()
	a, _ := idx.GetNnsByItem(3, 5, -1, ctx)
	kept := append([]uint32(nil), a...)
	idx.GetNnsByItem(40, 5, -1, ctx)
	if !equal(a, kept) {
		t.Fatal(kept, a)
	}
}
''', "an answer that is still in use when the same context serves another search", "the next search overwrites the ids of the earlier answer")
