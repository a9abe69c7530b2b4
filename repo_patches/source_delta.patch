From 42a783fdc2f7d8695aa151f68fc0582747e502ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 01/33] fix: copy whole nodes (CopyNode was given the vector
 length as byte count) Split nodes and root copies were truncated to
 vectorLength bytes, losing children and plane.

---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 utils/node.go         | 2 ++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
diff --git a/utils/node.go b/utils/node.go
index c2eaa72..b05c3a9 100644
--- a/utils/node.go
+++ b/utils/node.go
@@ -20,6 +20,8 @@ func GetPtr[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 
 // CopyNode copies the source node to the destination node. Note that the destination node
 // must be of the same type and take up the same amount of memory as the source node.
+//
+// The _size_ is the size, in bytes, of a complete node (see `Distance.NodeSize`).
 func CopyNode[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	dst, src interfaces.Node[TV, TIX], size TIX,
 ) {
-- 
2.43.0


From 3229d6253d48638038b7fe94c1d12ae8a660bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 02/33] fix: draw from the worker's own generator when building
 a tree All workers shared idx.random without a lock: a data race, and not
 reproducible.

---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 1baff4835eccb53939c3f85674a50a432b106268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 03/33] fix: search the most promising subtrees first The
 priority queue is a min-heap, so the least promising subtree was inspected
 first.

---
 index/annoyindex_search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..c5284cb 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -84,8 +84,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		numNodesToInspect = numReturn * len(idx._roots)
 	}
 
+	// The queue yields the smallest value first whereas the subtree with the greatest
+	// priority is to be inspected first, hence priorities are pushed negated.
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +95,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +120,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 40270d9355e6ff0a4ee0cdb73c703daba50733d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 04/33] fix: angular distance of parallel vectors could be NaN
 2-2cos may round to a tiny negative number; clamp it before the square root.

---
 distance/angular/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..0591787 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,8 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	// Rounding may produce a slightly negative distance for (almost) parallel vectors
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From cbd85f4ceff06982cd07a4b925c9a9b0372003a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 05/33] fix: a query may collect more candidates than the
 context was created for Items directly below split nodes are collected once
 per tree but were counted once, so a large inspection budget panicked with an
 index out of range.

---
 index/annoyindex_search.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index c5284cb..cd106ed 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -15,6 +15,14 @@ type BatchContext[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
 	length   int
 }
 
+// grow makes sure that there is room for _n_ candidates.
+func (bc *BatchContext[TV, TIX]) grow(n int) {
+	for len(bc.nns) < n {
+		bc.nns = append(bc.nns, 0)
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+	}
+}
+
 // CreateContext will create a batch context, that should be used in subsequent
 // calls to `GetNnsByVector` and `GetNnsByItem`.
 func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext[TV, TIX] {
@@ -104,9 +112,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
+			bc.grow(cnt + 1)
 			bc.nns[cnt] = i
 			cnt++
 		} else if nDescendants <= idx.maxDescendants {
+			bc.grow(cnt + int(nDescendants))
 			dst := nd.GetChildren()
 			if len(dst) == int(nDescendants) {
 				copy(bc.nns[TIX(cnt):], dst)
-- 
2.43.0


From dfbde7d158009fa876c877af0a7a36f418742b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 06/33] fix: find exactly the saved roots when loading The scan
 never stopped when all nodes had as many descendants (a one item index
 crashed), and kept originals next to their copies, so a loaded index
 inspected trees twice.

---
 index/annoyindex_io.go | 53 +++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..6ba91af 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -39,6 +39,22 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	return idx.Load(fileName)
 }
 
+// isRootCopied checks if any of the roots found before the one at position _last_ is
+// a copy of it, i.e. have the same children.
+func (idx *AnnoyIndexImpl[TV, TIX]) isRootCopied(last int) bool {
+	ln := unsafe.Slice(idx.getNode(idx._roots[last]).GetRawChildren(), 2)
+
+	for _, root := range idx._roots[:last] {
+		fn := unsafe.Slice(idx.getNode(root).GetRawChildren(), 2)
+
+		if fn[0] == ln[0] && fn[1] == ln[1] {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
@@ -51,7 +67,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		return err
 	}
 
-	if idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
+	if idx.indexMemory.Size() == 0 || idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
 		idx.Close()
 
 		return fmt.Errorf("file size is not a multiple of node size")
@@ -61,32 +77,27 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	idx._roots = nil
 	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
 
-	var (
-		mset bool
-		m    TIX
-	)
-
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	// Each root has as many descendants as there are items and is stored after all items.
+	m := idx.getNode(idx._n_nodes - 1).GetNumberOfDescendants()
 
-		n := idx.getNode(i)
-		k := n.GetNumberOfDescendants()
+	for i := idx._n_nodes; i > m; i-- {
+		n := idx.getNode(i - 1)
 
-		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
-			m = k
-			mset = true
-		} else {
+		if n.GetNumberOfDescendants() != m {
 			break
 		}
-	}
 
-	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
-		fn := idx.getNode(idx._roots[0])
-		ln := idx.getNode(idx._roots[len(idx._roots)-1])
+		idx._roots = append(idx._roots, i-1)
+	}
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
-			idx._roots = idx._roots[:len(idx._roots)-1]
+	// The file ends with a copy of each root, those are preceded by one or more of the
+	// original roots (several when workers finished side by side): keep the copies only.
+	if TIX(len(idx._roots)) == idx._n_nodes-m {
+		// Each tree is just a single root node
+		idx._roots = idx._roots[:len(idx._roots)/2]
+	} else {
+		for last := len(idx._roots) - 1; last > 0 && idx.isRootCopied(last); last-- {
+			idx._roots = idx._roots[:last]
 		}
 	}
 
-- 
2.43.0


From d3e6c2fbb25a4fa3049919d661cadd2864244418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 07/33] fix: zero workers means one worker, as documented The
 multi worker policy built no tree at all.

---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From 5fa53665ad5e77d4dc1b9d7774163d24fec17b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 08/33] fix: heap index allocator returns an error for empty
 and unreadable files It panicked; the mmap allocator returns an error.

---
 index/memory/index_allocator_gcmem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..cec56ce 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -64,6 +64,10 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("file %s is empty", fqFile)
+	}
+
 	data := make([]byte, fileInfo.Size())
 
 	var bytesRead int64
@@ -71,7 +75,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From 8ea36e0f1b4bfea0d7590bfa5806b7fecdfc90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 09/33] fix: Save must not truncate a mapped or good index file
 Saving an index to the file it was loaded from destroyed file and index
 (EFAULT, SIGBUS), as it did for other indexes that had the file mapped; a
 failing write lost the previous file.

---
 index/annoyindex_io.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 6ba91af..884ae72 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/utils"
@@ -13,13 +14,19 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	file, err := os.Create(fileName)
+	if fi, err := os.Stat(fileName); err == nil && !fi.Mode().IsRegular() {
+		return fmt.Errorf("can't save index, %s is not a regular file", fileName)
+	}
+
+	// Write to a temporary file and rename it when complete. The file may be mapped, by this
+	// or another index, and must not be truncated. Nor shall it be lost if the write fails.
+	tmpName := filepath.Join(filepath.Dir(fileName), fmt.Sprintf(".%d.%p.tmp", os.Getpid(), idx))
+
+	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
 
-	defer file.Close()
-
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -32,7 +39,16 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	_, err = file.Write(data)
 
+	if err2 := file.Close(); err == nil {
+		err = err2
+	}
+
+	if err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+
 	if err != nil {
+		os.Remove(tmpName)
 		return err
 	}
 
-- 
2.43.0


From 30026634e00539a26502b5a8f0f6393d16ba0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 10/33] fix: refuse a query vector of wrong length A longer
 vector overwrote the heap and a shorter one was read past its end.

---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index cd106ed..aab5c03 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -85,6 +86,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From c755cd53603c0d351943e580afc56609437d2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 11/33] fix: compute byte offsets and sizes in the platform's
 word size With 32 bit ids they were computed in 32 bits and wrapped around at
 4 GiB.

---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 0591787..1dfaed7 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..51231f0 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..663c5bf 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -474,7 +474,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 884ae72..fc23aac 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -35,7 +35,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), uintptr(idx._n_nodes)*uintptr(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -91,7 +91,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	// Each root has as many descendants as there are items and is stored after all items.
 	m := idx.getNode(idx._n_nodes - 1).GetNumberOfDescendants()
-- 
2.43.0


From 9fcfd3bf9e1e9f88aef96e85195e1551ece3560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 12/33] fix: 64 bit indexes need a random generator No provided
 64 bit generator implemented Random (nor did GoRandom), so the builder left
 it nil and Build and Close of an uint64 index panicked.

---
 builder/index.go       | 2 ++
 random/gorand.go       | 2 +-
 random/kiss64random.go | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..08f2575 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -97,6 +97,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
 			// TODO: Need to completely refactor random!!
+			k := random.NewKiss64Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX])
 		}
 	}
 
diff --git a/random/gorand.go b/random/gorand.go
index b237298..646b581 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -55,6 +55,6 @@ func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
 }
 
-func (r *GoRandom) CloneAndReset() *GoRandom {
+func (r *GoRandom) CloneAndReset() interfaces.Random[uint32] {
 	return NewGoRandomWithSeed(r.seed)
 }
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From e5315a5c30a6931bd64ece5b70705afe035c9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 13/33] fix: GoRandom follows its seed The seed given to the
 constructor was ignored and SetSeed was forgotten by GetSeed/CloneAndReset.

---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index 646b581..8b2f4a6 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() interfaces.Random[uint32] {
-- 
2.43.0


From bc159e5985d542ceb01934634bf4fff527f275ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 14/33] fix: KISS32 multiply-with-carry multiplies It added the
 multiplier, so that component was a plain counter.

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From cf5a8cfc58e615114ccd100856560298d3735d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 15/33] fix: PartialSortSlice must stay within [begin, end) For
 more than 20 elements it sorted the whole slice.

---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From d46b3c4ca16b5e2e32b458f961f04e3661d2b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 16/33] fix: the dot product distance is the (negated) inner
 product It was a copy of the angular distance, negated when reported.

---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 51231f0..c6a60d7 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From 465f63c6fb2e3152353f2fd0aa5e42542fb886dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 17/33] fix: refuse to add items to a built index The item
 overwrote tree nodes, or was left out of the trees.

---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 663c5bf..862236b 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -151,6 +151,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to a built index")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From 0d2ceac62f4799fb1a2b623d26a11b659d5c6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 18/33] fix: a closed index is not built anymore It could not
 be built again, and saving it replaced a good file with an empty one.

---
 index/annoyindex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 862236b..85f33e8 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
+	idx.batchMaxNNS = 0
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From e101b2d2679d42235047a0155f0bc54a96cbbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 19/33] fix: refuse item indexes outside the index They were
 read from tree nodes or from outside the index memory.

---
 index/annoyindex.go        | 9 +++++++++
 index/annoyindex_search.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 85f33e8..c4a1343 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -145,9 +145,18 @@ func (idx *AnnoyIndexImpl[TV, TIX]) VectorLength() TIX {
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) GetItem(itemIndex TIX) []TV {
+	idx.checkItem(itemIndex)
+
 	return idx.getNode(itemIndex).GetVector(idx.vectorLength)
 }
 
+// checkItem panics if the _itemIndex_ is not the index of an item.
+func (idx *AnnoyIndexImpl[TV, TIX]) checkItem(itemIndex TIX) {
+	if itemIndex >= idx._n_items {
+		panic(fmt.Sprintf("Item index out of range: %d >= %d", itemIndex, idx._n_items))
+	}
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 	if idx.indexLoaded {
 		panic("Can't add items to a loaded index")
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index aab5c03..f770ca5 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -50,6 +50,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
+	idx.checkItem(i)
+	idx.checkItem(j)
+
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
 	nj := idx.distance.MapNodeToMemory(idx._nodes, j)
 
@@ -65,6 +68,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByItem(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	idx.checkItem(item)
 
 	node := idx.distance.MapNodeToMemory(
 		idx._nodes,
-- 
2.43.0


From 6214873464c2819f6b73117cb6322e448d051c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 20/33] fix: index allocators may be shared by several indexes
 Concurrent loads wrote the registry map without a lock, and closing an
 allocation removed the entry of a later one for the same file.

---
 index/memory/index_allocator_gcmem.go | 17 ++++++++++++++++-
 index/memory/index_allocator_mmap.go  | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index cec56ce..8e4504e 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	mutex   sync.Mutex
 	indexes map[string]*fileIndexAllocation
 }
 
@@ -31,7 +33,14 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	fi.parent.mutex.Lock()
+
+	// The file may since have been opened again
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
+
+	fi.parent.mutex.Unlock()
 
 	fi.data = nil
 	fi.ptr = nil
@@ -46,6 +55,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -93,6 +105,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	mm.indexes[fqFile] = fi
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..cd2fb32 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,7 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	mutex   sync.Mutex
 	indexes map[string]*mmapIndexAllocation
 }
 
@@ -31,7 +33,14 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	mi.parent.mutex.Lock()
+
+	// The file may since have been opened again
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
+
+	mi.parent.mutex.Unlock()
 
 	var err error
 
@@ -59,6 +68,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -99,6 +111,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	mm.indexes[fqFile] = mi
 	return mi, nil
 }
-- 
2.43.0


From 773612ed55fb2dec5a3165a25343317c8cb3b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 21/33] fix: indexes from the same builder must not share their
 node memory The default build allocator was remembered, so a second index
 overwrote the items of the first.

---
 builder/index.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 08f2575..729631a 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,10 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	// Each index needs its own node memory
+	allocator := bld.allocator
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -106,7 +108,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From febbafde4c9b9e1cc72c20bdae3544bf3782b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 22/33] fix: dump nodes before unlocking them when logging
 verbosely Another worker may move the node memory as soon as the lock is
 released.

---
 index/annoyindex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index c4a1343..46e3033 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -348,12 +348,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			m.SetChildren(children)
 		}
 
-		threadedBuildPolicy.UnlockSharedNodes()
-
 		if idx.logVerbose {
 			fmt.Printf("added 1:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, m))
 		}
 
+		threadedBuildPolicy.UnlockSharedNodes()
+
 		return item
 	}
 
@@ -460,12 +460,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
-	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
+	idx.buildPolicy.UnlockSharedNodes()
+
 	return item
 }
 
-- 
2.43.0


From b6956f5a8a68f5d9f04ba01f1766dcf647b88392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 23/33] fix: a split node has two children GetChildren made a
 slice of as many children as descendants, past the end of the index memory: a
 fatal checkptr error in race and asan builds.

---
 index/annoyindex_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index f770ca5..826cf78 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -136,7 +136,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		} else {
 			// Node is normal of the split plane.
 			margin := idx.distance.Margin(nd, vector)
-			children := nd.GetChildren()
+			children := unsafe.Slice(nd.GetRawChildren(), 2) // GetChildren is for buckets only
 
 			q.Push(
 				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
-- 
2.43.0


From 334eaf54527a8be14d545eea7a5450d407b34d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 24/33] fix: angular nodes are not larger than their memory Go
 pads a zero sized last field, so the last node of an index of vectors of
 length 1 (float32, uint64) reached past its memory: a fatal checkptr error in
 race builds.

---
 distance/angular/distance.go |  2 +-
 distance/angular/node.go     | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 1dfaed7..ea6ead3 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -25,7 +25,7 @@ func Distance[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	ad := &angularDistanceImpl[TV, TIX]{
 		vectorLength: vectorLength,
 		nodeSize: TIX(
-			unsafe.Offsetof(n.v) +
+			vectorOffset[TV, TIX]() +
 				(uintptr(vectorLength) * unsafe.Sizeof(TV(0))),
 		),
 	}
diff --git a/distance/angular/node.go b/distance/angular/node.go
index e6e6868..64092c0 100644
--- a/distance/angular/node.go
+++ b/distance/angular/node.go
@@ -37,19 +37,30 @@ type AngularNodeImpl[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct
 	// };
 	// ```
 	children [2]TIX
-	v        [0]TV
+	// The vector follows (see vectorOffset). It is not a zero sized last field since go pads
+	// those, and the padding of the last node in the index could be outside of its memory.
+}
+
+// vectorOffset is where in a node its vector starts.
+func vectorOffset[TV interfaces.VectorType, TIX interfaces.IndexTypes]() uintptr {
+	var n struct {
+		_ AngularNodeImpl[TV, TIX]
+		v [0]TV
+	}
+
+	return unsafe.Offsetof(n.v)
 }
 
 func (n *AngularNodeImpl[TV, TIX]) GetRawVector() *TV {
-	return (*TV)(unsafe.Pointer(&n.v))
+	return (*TV)(unsafe.Add(unsafe.Pointer(n), vectorOffset[TV, TIX]()))
 }
 
 func (n *AngularNodeImpl[TV, TIX]) GetVector(vectorLength TIX) []TV {
-	return unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), vectorLength)
+	return unsafe.Slice(n.GetRawVector(), vectorLength)
 }
 
 func (n *AngularNodeImpl[TV, TIX]) SetVector(v []TV) {
-	dst := unsafe.Pointer(&n.v)
+	dst := unsafe.Pointer(n.GetRawVector())
 	src := unsafe.Pointer(unsafe.SliceData(v))
 	size := uintptr(len(v)) * unsafe.Sizeof(TV(0))
 
-- 
2.43.0


From 0fb792f46d9deecfcfe85f4248bbf73cb84f4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 25/33] fix: a worker takes all locks from the policy it is
 given Split nodes used the policy of the index instead, which need not be the
 one passed to ThreadBuild (a policy may give each worker its own).

---
 index/annoyindex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 46e3033..389780d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -450,13 +450,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 	m.SetChildren(child_first)
 
-	idx.buildPolicy.LockNNodes()
+	threadedBuildPolicy.LockNNodes()
 	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
 	item := idx._n_nodes
 	idx._n_nodes++
-	idx.buildPolicy.UnlockNNodes()
+	threadedBuildPolicy.UnlockNNodes()
 
-	idx.buildPolicy.LockSharedNodes()
+	threadedBuildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
@@ -465,7 +465,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
-	idx.buildPolicy.UnlockSharedNodes()
+	threadedBuildPolicy.UnlockSharedNodes()
 
 	return item
 }
-- 
2.43.0


From 9896fc0b9f3d639ef0019baa72c38ffa845228ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 26/33] fix: refuse items whose id or memory size overflows

---
 index/annoyindex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 389780d..44a301d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -170,6 +170,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
 
+	if itemIndex+1 == 0 {
+		panic(fmt.Sprintf("Item index too large: %d", itemIndex))
+	}
+
 	// Ensure that we have enough memory for the new node
 	idx.allocateSize(itemIndex+1, nil)
 
@@ -490,6 +494,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
+
+		if uint64(new_node_size) > math.MaxInt/uint64(idx.nodeSize) {
+			panic(fmt.Sprintf("Index too large: %d nodes", numNodes))
+		}
+
 		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
-- 
2.43.0


From f221c3d67752b02e62457bfe86f0f6faadf7540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 27/33] fix: don't overflow the default budget of huge
 numReturn

---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 826cf78..8674136 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -99,6 +100,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 
 	if numNodesToInspect == -1 {
 		numNodesToInspect = numReturn * len(idx._roots)
+
+		if len(idx._roots) > 0 && numReturn > math.MaxInt/len(idx._roots) {
+			numNodesToInspect = math.MaxInt
+		}
 	}
 
 	// The queue yields the smallest value first whereas the subtree with the greatest
-- 
2.43.0


From 5187628f3100360117800952fae0a0a50083f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 28/33] fix: keep mode and links of the file that Save replaces

---
 index/annoyindex_io.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index fc23aac..61003ef 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -14,19 +14,34 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	if fi, err := os.Stat(fileName); err == nil && !fi.Mode().IsRegular() {
-		return fmt.Errorf("can't save index, %s is not a regular file", fileName)
+	fi, err := os.Stat(fileName)
+	replace := err == nil
+	target := fileName
+
+	if replace {
+		if !fi.Mode().IsRegular() {
+			return fmt.Errorf("can't save index, %s is not a regular file", fileName)
+		}
+
+		// A link stays and the file it leads to is replaced
+		if target, err = filepath.EvalSymlinks(fileName); err != nil {
+			return err
+		}
 	}
 
 	// Write to a temporary file and rename it when complete. The file may be mapped, by this
 	// or another index, and must not be truncated. Nor shall it be lost if the write fails.
-	tmpName := filepath.Join(filepath.Dir(fileName), fmt.Sprintf(".%d.%p.tmp", os.Getpid(), idx))
+	tmpName := filepath.Join(filepath.Dir(target), fmt.Sprintf(".%d.%p.tmp", os.Getpid(), idx))
 
 	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
 
+	if replace {
+		file.Chmod(fi.Mode())
+	}
+
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -44,7 +59,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	}
 
 	if err == nil {
-		err = os.Rename(tmpName, fileName)
+		err = os.Rename(tmpName, target)
 	}
 
 	if err != nil {
-- 
2.43.0


From 813bef2d5470f7ec9f4ea1f90fa670c1a71d1f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 29/33] fix: keep the index when Save can't open the written
 file

---
 index/annoyindex_io.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 61003ef..03c10af 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -6,6 +6,7 @@ import (
 	"path/filepath"
 	"unsafe"
 
+	"github.com/mariotoffia/goannoy/interfaces"
 	"github.com/mariotoffia/goannoy/utils"
 )
 
@@ -67,7 +68,15 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return err
 	}
 
-	return idx.Load(fileName)
+	// Keep this index when the file can't be opened
+	indexMemory, err := idx.indexMemoryAllocator.Open(fileName)
+	if err != nil {
+		return err
+	}
+
+	idx.Close()
+
+	return idx.load(fileName, indexMemory)
 }
 
 // isRootCopied checks if any of the roots found before the one at position _last_ is
@@ -90,14 +99,19 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
 
-	var err error
-
-	idx.indexMemory, err = idx.indexMemoryAllocator.Open(fileName)
+	indexMemory, err := idx.indexMemoryAllocator.Open(fileName)
 
 	if err != nil {
 		return err
 	}
 
+	return idx.load(fileName, indexMemory)
+}
+
+// load sets up this, closed, index to use the nodes in _indexMemory_.
+func (idx *AnnoyIndexImpl[TV, TIX]) load(fileName string, indexMemory interfaces.AllocatedIndex) error {
+	idx.indexMemory = indexMemory
+
 	if idx.indexMemory.Size() == 0 || idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
 		idx.Close()
 
-- 
2.43.0


From cf0c29b78487cf7b11d01b7082499fe5cf08fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 30/33] fix: the angular distance of two very long (or very
 short) vectors was sqrt(2)

The product of the squared norms is out of range long before the squared norms are
(float32: norms of 1e10, or 1e-12).
---
 distance/angular/distance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index ea6ead3..5358c1f 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -91,15 +91,17 @@ func (a *angularDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y in
 		qq = vector.DotUnsafe(yv, yv, a.vectorLength)
 	}
 
-	var ppqq TV
+	if pp > 0 && qq > 0 {
+		ppqq := float64(pp) * float64(qq)
+		norm := math.Sqrt(ppqq)
 
-	if pp != 0 {
-		ppqq = pp * qq
-	}
+		// The product is out of range when both vectors are very long, or very short
+		if ppqq > math.MaxFloat64 || ppqq < 0x1p-1022 {
+			norm = math.Sqrt(float64(pp)) * math.Sqrt(float64(qq))
+		}
 
-	if ppqq > 0 {
 		pq := vector.DotUnsafe(xv, yv, a.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
+		return 2.0 - 2.0*pq/TV(norm)
 	}
 	return 2.0
 }
-- 
2.43.0


From 2b4b5227ed2b0099c47745ca2ade9e881284caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:43 +0000
Subject: [PATCH 31/33] fix: an index could load another's file after Save

Two indexes that save to the same path at the same time: the first could open
what the second had renamed in place, and then answer with nodes of the other.
---
 index/annoyindex_io.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 03c10af..13e3d7d 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -60,6 +60,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	}
 
 	if err == nil {
+		// Hold on to the written file, to recognize it below
+		file, err = os.Open(tmpName)
+	}
+
+	if err == nil {
+		defer file.Close()
 		err = os.Rename(tmpName, target)
 	}
 
@@ -68,12 +74,22 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return err
 	}
 
+	written, err := file.Stat()
+	if err != nil {
+		return err
+	}
+
 	// Keep this index when the file can't be opened
 	indexMemory, err := idx.indexMemoryAllocator.Open(fileName)
 	if err != nil {
 		return err
 	}
 
+	// Or when another index, saved to the same file, has replaced it since
+	if now, err := os.Stat(fileName); err != nil || !os.SameFile(now, written) {
+		return indexMemory.Close()
+	}
+
 	idx.Close()
 
 	return idx.load(fileName, indexMemory)
-- 
2.43.0


From a26d625777168ee58a98dc481a0acc0316e1486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:47 +0000
Subject: [PATCH 32/33] fix: SetSeed restarts a KISS generator that has been
 used

---
 random/kiss32random.go | 4 ++--
 random/kiss64random.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 65bcc02..dabfcf1 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -63,9 +63,9 @@ func (r *Kiss32Random[TIX]) NextIndex(n TIX) TIX {
 	return r.Next() % n
 }
 
+// SetSeed restarts the generator with _seed_, as if newly created with it.
 func (r *Kiss32Random[TIX]) SetSeed(seed TIX) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss32Random(seed)
 }
 
 func (r *Kiss32Random[TIX]) GetSeed() TIX {
diff --git a/random/kiss64random.go b/random/kiss64random.go
index d143bc0..6d1c47e 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -64,9 +64,9 @@ func (r *Kiss64Random) NextIndex(n uint64) uint64 {
 	return r.Next() % n
 }
 
+// SetSeed restarts the generator with _seed_, as if newly created with it.
 func (r *Kiss64Random) SetSeed(seed uint64) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss64Random(seed)
 }
 
 func (r *Kiss64Random) GetSeed() uint64 {
-- 
2.43.0


From 5730650095a0b33070a6c2c49e8285b17f7d51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:42 +0000
Subject: [PATCH 33/33] fix: node memory moved once more than needed when a
 size was asked for again

---
 index/memory/gc_index_build_allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/memory/gc_index_build_allocator.go b/index/memory/gc_index_build_allocator.go
index d4b1606..38ab53f 100644
--- a/index/memory/gc_index_build_allocator.go
+++ b/index/memory/gc_index_build_allocator.go
@@ -24,7 +24,7 @@ func (a *GoGCIndexBuildAllocatorImpl) Free() {
 }
 
 func (a *GoGCIndexBuildAllocatorImpl) Reallocate(byteSize int) unsafe.Pointer {
-	if a.memory != nil && byteSize < a.ptrSize {
+	if a.memory != nil && byteSize <= a.ptrSize {
 		// No new memory needed
 		return a.ptr
 	}
-- 
2.43.0

