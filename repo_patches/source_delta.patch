From 43b12f4421d1997fed98d5239075bf84bf43718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 01/27] fix: copy whole nodes, not vectorLength bytes, when
 storing split nodes, roots and centroids

---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From 4cf3342d326b22dab8402654ef0e22c7c6468b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 02/27] fix: build trees from the worker's own random generator
 instead of the shared one

---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 88af3a93d46492b85ac42579adc1e2de9bebc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 03/27] fix: search the most promising branch first, not the
 least promising one

---
 index/annoyindex_search.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..1337210 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -85,7 +85,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i]) // negated: the queue pops the smallest first
 	}
 
 	cnt := 0
@@ -93,7 +93,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +118,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 1f251eeaa7c8dff9435e4a63671017e99441be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 04/27] fix: grow the search context instead of panicking when
 a query finds more candidates than estimated

---
 index/annoyindex_search.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 1337210..ee3ef68 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -39,6 +39,17 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 	return bc
 }
 
+// grow makes room for _n_ candidates. The same item may be found once in each tree, hence
+// a search may produce more candidates than was estimated when the context was created.
+func (bc *BatchContext[TV, TIX]) grow(n int) {
+	for len(bc.nns) < n {
+		bc.nns = append(bc.nns, 0)
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+	}
+
+	bc.length = len(bc.nns)
+}
+
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
@@ -101,6 +112,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 
 		nDescendants := nd.GetNumberOfDescendants()
 
+		if nDescendants <= idx.maxDescendants {
+			bc.grow(cnt + int(nDescendants))
+		}
+
 		if nDescendants == 1 && i < idx._n_items {
 			bc.nns[cnt] = i
 			cnt++
-- 
2.43.0


From f21eaa754bc924b0e1b1b4a2a9d18f75cc0b2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 05/27] fix: angular distance of parallel vectors is 0, not
 NaN, when rounding makes it negative

---
 distance/angular/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..cd002fb 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,7 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	return TV(math.Sqrt(math.Max(float64(distance), 0))) // rounding may yield a distance just below 0
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From a352cd04ecc118b14f8d0c01b83b50fd35613737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 06/27] fix: loading an index whose nodes all have the same
 descendant count (zero or one item) no longer crashes

---
 index/annoyindex_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..9763d24 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -78,10 +78,14 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		} else {
 			break
 		}
+
+		if i == 0 { // TIX is unsigned: i >= 0 never ends the loop
+			break
+		}
 	}
 
 	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
+	if len(idx._roots) > 1 && m > 0 {
 		fn := idx.getNode(idx._roots[0])
 		ln := idx.getNode(idx._roots[len(idx._roots)-1])
 
-- 
2.43.0


From ac7a4a90e8dd386405ae7db82a720ab36d348f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 07/27] fix: load each root once, also when several original
 roots precede their copies in the file

---
 index/annoyindex_io.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 9763d24..6a231bf 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -84,13 +84,24 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		}
 	}
 
-	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 && m > 0 {
-		fn := idx.getNode(idx._roots[0])
-		ln := idx.getNode(idx._roots[len(idx._roots)-1])
-
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
-			idx._roots = idx._roots[:len(idx._roots)-1]
+	// The copy of all roots is preceded by at least one original root, delete those
+	if idx._n_nodes-TIX(len(idx._roots)) <= m {
+		// Each tree is a single node, hence all originals precede the copies
+		idx._roots = idx._roots[:len(idx._roots)/2]
+	} else {
+		// How many of the originals depends on the order the workers finished. At least one
+		// child of each root is a node of its own, hence the children identify the root.
+		roots := map[[2]TIX]bool{}
+
+		for i, root := range idx._roots {
+			children := [2]TIX(idx.getNode(root).GetChildren())
+
+			if roots[children] {
+				idx._roots = idx._roots[:i]
+				break
+			}
+
+			roots[children] = true
 		}
 	}
 
-- 
2.43.0


From 680b20227ad37a9980d349b30229b67c09b178c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 08/27] fix: replace the file atomically on Save, so a loaded
 or existing index file is never destroyed

---
 index/annoyindex_io.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 6a231bf..83d2a01 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -13,7 +13,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	file, err := os.Create(fileName)
+	// Write to a temporary file and rename it when complete: an existing file may be in use (even
+	// by this index), and shall survive if the save does not succeed.
+	tmpName := fileName + ".tmp"
+
+	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
@@ -32,7 +36,16 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	_, err = file.Write(data)
 
+	if err == nil {
+		err = file.Close()
+	}
+
+	if err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+
 	if err != nil {
+		os.Remove(tmpName)
 		return err
 	}
 
-- 
2.43.0


From f2f9a0c352a9ce23d4b6e2086efd599424650190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/27] fix: loading an empty or unreadable file into memory
 returns an error instead of panicking

---
 index/memory/index_allocator_gcmem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..cec56ce 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -64,6 +64,10 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("file %s is empty", fqFile)
+	}
+
 	data := make([]byte, fileInfo.Size())
 
 	var bytesRead int64
@@ -71,7 +75,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From 6ebea6de5160d66bc58c5f437796e4869927efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 10/27] fix: multi worker policy uses one worker when zero
 workers are requested, as documented

---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..7f4dda9 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers < 1 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From ccb98aee34a548d7f369e82053fffd35219284b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 11/27] fix: indexes built by the same builder no longer share
 item memory

---
 builder/index.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..7384d1a 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,9 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	allocator := bld.allocator // each index needs its own memory
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -104,7 +105,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From 12b0313fcf7323a164a339beff407dc36e71f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 12/27] fix: give uint64 indexes a default random generator
 instead of a nil one

---
 builder/index.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/index.go b/builder/index.go
index 7384d1a..5bc2560 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -98,6 +98,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
 			// TODO: Need to completely refactor random!!
+			k := random.NewKiss32Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX])
 		}
 	}
 
-- 
2.43.0


From ccad28cd6e8e00da1f5dc541aa870179c2b061f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 13/27] fix: multiply in the multiply-with-carry step of the
 KISS32 generator

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From 162dcc8039c3d1213b7afde6f25935bfb4b9803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 14/27] fix: partial sort of a sub-range leaves the rest of the
 slice alone

---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From 0a5347118866b18d0e6c23b876ee45cdd50f8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 15/27] fix: reject query vectors of the wrong length instead
 of accessing memory out of bounds

---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index ee3ef68..2d54f5d 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -88,6 +89,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From 374b64f1985f8d0e1cc0c1063583d4b739df3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 16/27] fix: compute byte offsets and sizes without 32 bit
 overflow for indexes larger than 4 GiB

---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index cd002fb..fb55db2 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..51231f0 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..663c5bf 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -474,7 +474,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 83d2a01..2da7d33 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -32,7 +32,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), int(idx._n_nodes)*int(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -72,7 +72,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	var (
 		mset bool
-- 
2.43.0


From 3ec89c411f3bc7767e9309847114ac349cbd0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 17/27] fix: a closed index is not built any more, hence it can
 be rebuilt but not saved

---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 663c5bf..ac97215 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 6a4751e257d20ffa71882355a83a5c3496fcab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 18/27] fix: adding an item to a built index is rejected
 instead of overwriting its tree nodes

---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index ac97215..635e689 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -152,6 +152,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to an index that is already built")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From 9634537b7528525861f1b6e3ceb887222cf0acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 19/27] fix: GoRandom honours its seed

---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..4b9ed10 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -52,6 +52,7 @@ func (r *GoRandom) GetSeed() uint32 {
 }
 
 func (r *GoRandom) SetSeed(seed uint32) {
+	r.seed = seed
 	r.rng.Seed(int64(seed))
 }
 
-- 
2.43.0


From 97aaff97e551434f8da1c8626c6a722fa755b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 20/27] fix: dot product distance ranks by, and reports, the
 dot product instead of the negated angular distance

---
 distance/dotproduct/distance.go | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 51231f0..02d0a5b 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,8 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	// Negated: the larger the dot product, the closer
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From 79c1e0f23398e37b24949463af59e988713ed21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 21/27] fix: closing one allocation of a file no longer hides a
 later one of the same file

---
 index/memory/index_allocator_gcmem.go | 4 +++-
 index/memory/index_allocator_mmap.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index cec56ce..fc1c931 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,9 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	if fi.parent.indexes[fi.fqFile] == fi { // the file may have been opened again since
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..976a8b1 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,9 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	if mi.parent.indexes[mi.fqFile] == mi { // the file may have been opened again since
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
-- 
2.43.0


From c9e73a528aa522e980de318497d5ae8946c6be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 22/27] fix: the default node budget no longer overflows for
 huge result counts

---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 2d54f5d..eb70414 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -98,6 +99,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 
 	if numNodesToInspect == -1 {
 		numNodesToInspect = numReturn * len(idx._roots)
+
+		if len(idx._roots) > 0 && numReturn > math.MaxInt/len(idx._roots) {
+			numNodesToInspect = math.MaxInt // the product overflows
+		}
 	}
 
 	for i := range idx._roots {
-- 
2.43.0


From a6da1ba347275d1ba896bcfe9a9117bb2e394304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 23/27] fix: indexes that share a file allocator can be used
 from different goroutines

---
 index/memory/index_allocator_gcmem.go | 12 ++++++++++++
 index/memory/index_allocator_mmap.go  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index fc1c931..85423e9 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	mutex   sync.Mutex // guards indexes: the indexes of a builder share its allocator
 	indexes map[string]*fileIndexAllocation
 }
 
@@ -31,10 +33,14 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
+	fi.parent.mutex.Lock()
+
 	if fi.parent.indexes[fi.fqFile] == fi { // the file may have been opened again since
 		delete(fi.parent.indexes, fi.fqFile)
 	}
 
+	fi.parent.mutex.Unlock()
+
 	fi.data = nil
 	fi.ptr = nil
 
@@ -48,6 +54,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -95,6 +104,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = fi
+	mm.mutex.Unlock()
+
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index 976a8b1..138cd63 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,7 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	mutex   sync.Mutex // guards indexes: the indexes of a builder share its allocator
 	indexes map[string]*mmapIndexAllocation
 }
 
@@ -31,10 +33,14 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
+	mi.parent.mutex.Lock()
+
 	if mi.parent.indexes[mi.fqFile] == mi { // the file may have been opened again since
 		delete(mi.parent.indexes, mi.fqFile)
 	}
 
+	mi.parent.mutex.Unlock()
+
 	var err error
 
 	if mi.data != nil {
@@ -61,6 +67,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -101,6 +110,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = mi
+	mm.mutex.Unlock()
+
 	return mi, nil
 }
-- 
2.43.0


From 0c86dcb195cb24328669b7b56c04528dfd798faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:35 +0000
Subject: [PATCH 24/27] fix: Save no longer destroys a file that is named like
 its temporary one

Save wrote to <name>.tmp, truncating a file of that name, which may well be another
index (in use or not), and two saves under the same name wrote into the same file.
The temporary file is a new one now.
---
 index/annoyindex_io.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 2da7d33..7b4eb64 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/utils"
@@ -15,15 +16,15 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	// Write to a temporary file and rename it when complete: an existing file may be in use (even
 	// by this index), and shall survive if the save does not succeed.
-	tmpName := fileName + ".tmp"
-
-	file, err := os.Create(tmpName)
+	file, err := createTemp(fileName)
 	if err != nil {
 		return err
 	}
 
 	defer file.Close()
 
+	tmpName := file.Name()
+
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -52,6 +53,22 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	return idx.Load(fileName)
 }
 
+// createTemp creates a new file in the directory of _fileName_. It leaves all existing files alone.
+func createTemp(fileName string) (file *os.File, err error) {
+	dir, _ := filepath.Split(fileName)
+
+	for i := 0; i < 10000; i++ {
+		name := fmt.Sprintf("%s.goannoy-%d-%d.tmp", dir, os.Getpid(), i)
+
+		file, err = os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			break
+		}
+	}
+
+	return file, err
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
-- 
2.43.0


From 92b1a7160f8fce872c8d437340977ba4028dbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:35 +0000
Subject: [PATCH 25/27] fix: refuse to save an index without trees

Load takes the last items of such a file for the roots of trees: searches then
follow garbage and crash.
---
 index/annoyindex_io.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 7b4eb64..02dfdff 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -14,6 +14,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	if len(idx._roots) == 0 {
+		// The file has no place for it: Load would take the last items for the roots of trees
+		return fmt.Errorf("can't save an index without trees")
+	}
+
 	// Write to a temporary file and rename it when complete: an existing file may be in use (even
 	// by this index), and shall survive if the save does not succeed.
 	file, err := createTemp(fileName)
-- 
2.43.0


From 439072e3db291d71e80c3d413ad5a0fe951dcfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:01 +0000
Subject: [PATCH 26/27] fix: seeding a KISS generator selects its sequence

SetSeed kept the state of earlier draws, and a clone of a generator that was seeded with zero
restarted the sequence of the default seed.
---
 random/kiss32random.go | 8 +++++++-
 random/kiss64random.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 65bcc02..2853742 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -63,7 +63,10 @@ func (r *Kiss32Random[TIX]) NextIndex(n TIX) TIX {
 	return r.Next() % n
 }
 
+// SetSeed selects the sequence of _seed_, whatever has been drawn before. Zero is a seed like any
+// other here.
 func (r *Kiss32Random[TIX]) SetSeed(seed TIX) {
+	*r = *NewKiss32Random(seed)
 	r.x = seed
 	r.seed = seed
 }
@@ -73,5 +76,8 @@ func (r *Kiss32Random[TIX]) GetSeed() TIX {
 }
 
 func (r *Kiss32Random[TIX]) CloneAndReset() interfaces.Random[TIX] {
-	return NewKiss32Random(r.seed)
+	clone := NewKiss32Random(r.seed)
+	clone.SetSeed(r.seed) // a zero seed would have been replaced by the default
+
+	return clone
 }
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..7e8d82d 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -64,7 +64,10 @@ func (r *Kiss64Random) NextIndex(n uint64) uint64 {
 	return r.Next() % n
 }
 
+// SetSeed selects the sequence of _seed_, whatever has been drawn before. Zero is a seed like any
+// other here.
 func (r *Kiss64Random) SetSeed(seed uint64) {
+	*r = *NewKiss64Random(seed)
 	r.x = seed
 	r.seed = seed
 }
@@ -74,5 +77,8 @@ func (r *Kiss64Random) GetSeed() uint64 {
 }
 
 func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
-	return NewKiss64Random(r.seed)
+	clone := NewKiss64Random(r.seed)
+	clone.SetSeed(r.seed) // a zero seed would have been replaced by the default
+
+	return clone
 }
-- 
2.43.0


From 98df9dc5d6912b469c7742fff0748393a2614a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:19 +0000
Subject: [PATCH 27/27] fix: a saved index keeps the permissions of the file it
 replaces

Since saves replace the file instead of writing to it, its permissions were reset to the default.
---
 index/annoyindex_io.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 02dfdff..299d7ac 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -30,6 +30,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	tmpName := file.Name()
 
+	// A file that is replaced keeps its permissions
+	if err = keepMode(file, fileName); err != nil {
+		os.Remove(tmpName)
+		return err
+	}
+
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -74,6 +80,21 @@ func createTemp(fileName string) (file *os.File, err error) {
 	return file, err
 }
 
+// keepMode gives _file_ the permissions of the existing file _fileName_, if there is one.
+func keepMode(file *os.File, fileName string) error {
+	old, err := os.Stat(fileName)
+	if err != nil || !old.Mode().IsRegular() {
+		return nil
+	}
+
+	stat, err := file.Stat()
+	if err != nil || stat.Mode().Perm() == old.Mode().Perm() {
+		return err
+	}
+
+	return file.Chmod(old.Mode().Perm())
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
-- 
2.43.0

