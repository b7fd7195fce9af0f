From 322fb5c3b868f45df627b359bb5226e696a310d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 01/20] fix: copy whole nodes, the size of a node is in bytes
 and not vector elements

---
 distance/two_means.go | 6 ++++--
 index/annoyindex.go   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..0b7c8f4 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,10 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	nodeSize := distance.NodeSize()
+
+	utils.CopyNode(p, nodes[i], nodeSize)
+	utils.CopyNode(q, nodes[j], nodeSize)
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From 625e1ad585a586693da6820e4baf794df3e6551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 02/20] fix: build trees from the worker's own random generator

---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 48567cd11b5d1834621dfaf86d4bcf5c907eea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 03/20] fix: byte offsets and sizes of indexes larger than 4
 GiB

---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..ab5cdd2 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uint64(itemIndex)*uint64(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..ad5f246 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uint64(itemIndex)*uint64(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..663c5bf 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -474,7 +474,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..22ce202 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -28,7 +28,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), uint64(idx._n_nodes)*uint64(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -59,7 +59,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	var (
 		mset bool
-- 
2.43.0


From faae171201eae4bf169ba8115af4eb81f174e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 04/20] fix: loading an index where every node has the same
 number of descendants

---
 index/annoyindex_io.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 22ce202..1cbc326 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -66,7 +66,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		m    TIX
 	)
 
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	// the index type is unsigned, hence count down from one past the last node
+	for next := idx._n_nodes; next > 0; next-- {
+		i := next - 1
 
 		n := idx.getNode(i)
 		k := n.GetNumberOfDescendants()
@@ -81,7 +83,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	}
 
 	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
+	if len(idx._roots) > 1 && m > 0 {
 		fn := idx.getNode(idx._roots[0])
 		ln := idx.getNode(idx._roots[len(idx._roots)-1])
 
-- 
2.43.0


From 71d7d77f6a93086b1988c2cb875b753e1a037e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 05/20] fix: searches that find more nodes than the context has
 room for

---
 index/annoyindex_search.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..f20edc3 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -88,9 +88,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
-	cnt := 0
+	nns := bc.nns[:0]
 
-	for cnt < numNodesToInspect && !q.Empty() {
+	for len(nns) < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
 		d := top.First
@@ -102,16 +102,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
-			bc.nns[cnt] = i
-			cnt++
+			nns = append(nns, i)
 		} else if nDescendants <= idx.maxDescendants {
 			dst := nd.GetChildren()
-			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
-			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
-			}
-			cnt += int(nDescendants)
+			nns = append(nns, dst[:nDescendants]...)
 		} else {
 			// Node is normal of the split plane.
 			margin := idx.distance.Margin(nd, vector)
@@ -131,7 +125,6 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 
 	// Get distances for all items
 	// To avoid calculating distance multiple times for any items, sort by id
-	nns := bc.nns[:cnt]
 	idx.sorter.SortSlice(nns)
 
 	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap
@@ -151,7 +144,14 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		last    TIX
 	)
 
-	cnt = 0
+	// More nodes may have been found than the context was created for
+	bc.nns = nns
+
+	for len(bc.nns_dist) < len(nns) {
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+	}
+
+	cnt := 0
 
 	for i := 0; i < len(nns); i++ {
 		j := nns[i]
-- 
2.43.0


From 253ced1c1d30066f3bb3599e3500e23929cee547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 06/20] fix: search the most promising node first

---
 index/annoyindex_search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index f20edc3..9cf30d9 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -85,7 +85,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		// The queue pops the smallest value first, hence negate in order to
+		// always continue with the most promising node.
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	nns := bc.nns[:0]
@@ -93,7 +95,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for len(nns) < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -112,12 +114,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From d32cfb23d6e1218e47cdb0690492da15f9eecac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 07/20] fix: angular distance of parallel vectors must not be
 NaN

---
 distance/angular/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index ab5cdd2..c5e6b40 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,8 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	// Rounding may make the distance of (almost) parallel vectors negative
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From e903818155a158f6ebfaa86cd949c7a1bf03f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 08/20] fix: zero workers means one worker

---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From accc398b0379b0f7d9a17349a225d603bcd23f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 09/20] fix: do not truncate a loaded index file when saving

---
 index/annoyindex_io.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 1cbc326..e9742ec 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -13,6 +13,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	// Remove any existing file since it may be mapped into memory (even by this index)
+	if err := os.Remove(fileName); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
-- 
2.43.0


From 2a4d130b6a500f8044c13875ba7b392017b67c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 10/20] fix: a closed index is not built anymore

---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 663c5bf..ac97215 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 0deac4ee124bd12e3ffcdc34e6acf667cd227a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 11/20] fix: file index allocator must not panic on empty or
 unreadable files

---
 index/memory/index_allocator_gcmem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..3c5bb1d 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -71,7 +71,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
@@ -85,7 +85,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		parent: mm,
 		fqFile: fqFile,
 		size:   fileInfo.Size(),
-		ptr:    unsafe.Pointer(&data[0]),
+		ptr:    unsafe.Pointer(unsafe.SliceData(data)),
 		data:   data,
 	}
 
-- 
2.43.0


From 18bded73dec127df020030746607f7cfc6fdf455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 12/20] fix: GoRandom honours its seed

---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..3041a17 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() *GoRandom {
-- 
2.43.0


From f9f5480ccb3694baba21f305790f7e6e2a597cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 13/20] fix: multiply with carry step of the KISS generator

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From e1c3ec00793544407f9433fb9c03c2c0ff20543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 14/20] fix: partial sort must not touch pairs outside of its
 range

---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From 9038ec77fbb275b5805458d642d5e87f83a6ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 15/20] fix: default random generator for uint64 indexes

---
 builder/index.go       | 2 ++
 random/gorand.go       | 2 +-
 random/kiss64random.go | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..d99ca83 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -96,6 +96,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			k := random.NewKiss32Random(uint32(0))
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
+			k := random.NewKiss64Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX])
 			// TODO: Need to completely refactor random!!
 		}
 	}
diff --git a/random/gorand.go b/random/gorand.go
index 3041a17..8b2f4a6 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -56,6 +56,6 @@ func (r *GoRandom) SetSeed(seed uint32) {
 	r.seed = seed
 }
 
-func (r *GoRandom) CloneAndReset() *GoRandom {
+func (r *GoRandom) CloneAndReset() interfaces.Random[uint32] {
 	return NewGoRandomWithSeed(r.seed)
 }
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From 678a6bf7392c313bde8ce4f503d8459d2a7fe3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 16/20] fix: allocator lookup of files not open or opened more
 than once

---
 index/memory/index_allocator_gcmem.go | 12 +++++++++---
 index/memory/index_allocator_mmap.go  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 3c5bb1d..60b1015 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,10 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	// The file may have been opened anew, keep that allocation
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
@@ -46,8 +49,11 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
-	index, ok := mm.indexes[fqFile]
-	return index, ok
+	if index, ok := mm.indexes[fqFile]; ok {
+		return index, true
+	}
+
+	return nil, false
 }
 
 func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex, error) {
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..8ff802a 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,10 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	// The file may have been opened anew, keep that allocation
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
@@ -59,8 +62,11 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
-	index, ok := mm.indexes[fqFile]
-	return index, ok
+	if index, ok := mm.indexes[fqFile]; ok {
+		return index, true
+	}
+
+	return nil, false
 }
 
 func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, error) {
-- 
2.43.0


From 9ca0681fa6ec537e7f8ed431db4b5139cdb36b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 17/20] fix: dot product distance is the negated dot product

---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index ad5f246..9202d72 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From d9c43b3706c45cdfba5cbca24a611915996a9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 18/20] fix: reject query vectors of the wrong length

---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 9cf30d9..9d6024a 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -77,6 +78,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From 4f90b59be7eac56005deabc615aaa130bbafa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 19/20] fix: indexes of the same builder must not share their
 memory

---
 builder/index.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index d99ca83..b4b4b0e 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,10 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	// Each index needs an allocator of its own, since it has a single block of memory only
+	allocator := bld.allocator
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -106,7 +108,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From 08ac7261117720e92d3fd5859195d78254acaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 20/20] fix: file allocators may be shared by indexes of
 several goroutines

---
 index/memory/index_allocator_gcmem.go | 11 +++++++++++
 index/memory/index_allocator_mmap.go  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 60b1015..d8c217c 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,15 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	// mutex guards indexes since an allocator may be shared by several indexes
+	mutex   sync.Mutex
 	indexes map[string]*fileIndexAllocation
 }
 
@@ -32,9 +35,11 @@ func (fi *fileIndexAllocation) Size() int64 {
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
 	// The file may have been opened anew, keep that allocation
+	fi.parent.mutex.Lock()
 	if fi.parent.indexes[fi.fqFile] == fi {
 		delete(fi.parent.indexes, fi.fqFile)
 	}
+	fi.parent.mutex.Unlock()
 
 	fi.data = nil
 	fi.ptr = nil
@@ -49,6 +54,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	if index, ok := mm.indexes[fqFile]; ok {
 		return index, true
 	}
@@ -95,6 +103,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = fi
+	mm.mutex.Unlock()
+
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index 8ff802a..0f5f409 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,8 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	// mutex guards indexes since an allocator may be shared by several indexes
+	mutex   sync.Mutex
 	indexes map[string]*mmapIndexAllocation
 }
 
@@ -32,9 +35,11 @@ func (mi *mmapIndexAllocation) Size() int64 {
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
 	// The file may have been opened anew, keep that allocation
+	mi.parent.mutex.Lock()
 	if mi.parent.indexes[mi.fqFile] == mi {
 		delete(mi.parent.indexes, mi.fqFile)
 	}
+	mi.parent.mutex.Unlock()
 
 	var err error
 
@@ -62,6 +67,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	if index, ok := mm.indexes[fqFile]; ok {
 		return index, true
 	}
@@ -105,6 +113,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = mi
+	mm.mutex.Unlock()
+
 	return mi, nil
 }
-- 
2.43.0

