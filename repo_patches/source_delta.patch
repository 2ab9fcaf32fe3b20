From 8af6bc45f7bee7840438b2055547a8a2cfbdddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:57 +0000
Subject: [PATCH 01/31] fix: commit the feeds after creating or deleting a
 collection

An acknowledged CreateCollection/DeleteCollection only reached the feed
cache, so a restart lost the new collection or brought the deleted one back.
---
 pkg/document/document.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..068e08f 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -204,7 +204,8 @@ func (c *Client) CreateCollection(col *Collection) error {
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
-	return nil
+	// the tables live in the feed cache until the feeds are committed
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -242,7 +243,8 @@ func (c *Client) DeleteCollection(collection string) error {
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	// the deletion lives in the feed cache until the feeds are committed
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From c31fb66b2c928707a7ca98afc3a93900b74e715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 02/31] fix: load whatever part of a collection is missing
 before using it

After a restart a GetDocument opened only the document table; the next search
or AddDocuments then found the table open, skipped creating the vector index
and dereferenced a nil index. Concurrent first uses each created an index of
their own, one of which was lost.
---
 pkg/document/document.go | 169 +++++++++++----------------------------
 1 file changed, 46 insertions(+), 123 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 068e08f..ca1f512 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -286,58 +286,68 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	namespacedCollection := namespace + collection
+// openCollection makes sure the kv table, the document table and the vector
+// index of a collection are loaded, whichever of them is missing. Only one
+// index instance may exist per collection, as it caches the graph.
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	c.hnswLock.Lock()
+	defer c.hnswLock.Unlock()
 
-	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
 		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
+		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
 		if err != nil {
-			return err
+			return nil, err
 		}
+	}
+	if index, ok := c.indices[namespacedCollection]; ok {
+		return index, nil
+	}
 
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
+			return v.([]float32), nil
 		}
+		return nil, fmt.Errorf("document not found")
 	}
 
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
+	makeCL := h.MakeNoopCommitLogger
+	index, err := h.New(h.Config{
+		RootPath:              "not-used",
+		ID:                    "not-used",
+		MakeCommitLoggerThunk: makeCL,
+		DistanceProvider:      distancer.NewCosineDistanceProvider(),
+		VectorForIDThunk:      vectorForID,
+		ClassName:             namespacedCollection,
+	}, h.UserConfig{
+		MaxConnections: 30,
+		EFConstruction: 60,
+	}, kvStore)
+	if err != nil {
+		return nil, err
+	}
+	c.indices[namespacedCollection] = index
+	return index, nil
+}
+
+func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	namespacedCollection := namespace + collection
+
+	index, err := c.openCollection(namespacedCollection)
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		count = 0
@@ -457,50 +467,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -508,9 +478,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -559,54 +526,10 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From dd1f675916d3ad2ed67e8bed1521167c78c286c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:57 +0000
Subject: [PATCH 03/31] fix: report a vectorizer failure as an error

A non-200 answer returned a nil vector with a nil error, which the callers
dereference.
---
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..ba0dd4f 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, fmt.Errorf("vectorizer answered with status %d", resp.StatusCode)
 	}
 
 	var result map[string][]float32
-- 
2.43.0


From 0fa252b2b634eef4f94cd4b49d22228341fe10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:20 +0000
Subject: [PATCH 04/31] fix: take a node's vector from the graph when the cache
 misses it

The thunk behind the vector cache only knows the vectors added since startup
(at most 1000), so after a restart every insert that had to select neighbours
failed and AddDocuments silently dropped the document.
---
 pkg/hnsw/index.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..dcc3b51 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -229,12 +229,21 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	var index *hnsw
+	// the graph holds the vector of every node, the thunk may only know the
+	// ones added since startup
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
+			return node.Vector, nil
+		}
+		return cfg.VectorForIDThunk(ctx, id)
+	}
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
-- 
2.43.0


From 9e2d15e5e4c09b13bd85aca36683600f7c7af5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:30 +0000
Subject: [PATCH 05/31] fix: keep exact matches whose cosine distance rounds
 below zero

One in five normalized vectors has a product with itself above 1, and a search
for exactly that vector dropped its document. The distances are cut to the
length of the result, too.
---
 pkg/hnsw/search_with_max_dist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..40e63c8 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -71,8 +71,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
-		if elem.Dist < 0 {
-			continue
+		if elem.Dist < 0 && h.distancerProvider.Type() == "cosine-dot" {
+			// rounding, the vectors point in the same direction
+			elem.Dist = 0
 		}
 		if elem.Dist > dist {
 			break
@@ -83,5 +84,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From be74aa0e7ecb4d4285910d8fbf6a43336714cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:47 +0000
Subject: [PATCH 06/31] fix: let a collection grow beyond 25000 vectors

The caches keep their initial size since growing the index was disabled, so
the insert of node 25000 panicked with an index out of range.
---
 pkg/hnsw/maintainance.go |  6 ++++++
 pkg/hnsw/vector_cache.go | 32 +++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pkg/hnsw/maintainance.go b/pkg/hnsw/maintainance.go
index 891485a..d9c8060 100644
--- a/pkg/hnsw/maintainance.go
+++ b/pkg/hnsw/maintainance.go
@@ -56,6 +56,12 @@ func (h *hnsw) growIndexToAccomodateNode(id uint64, logger logrus.FieldLogger) e
 	//
 	//h.nodes = newIndex
 
+	// the nodes live in the kv store, only the caches have to make room
+	if h.compressed.Load() {
+		h.compressedVectorsCache.grow(id)
+	} else {
+		h.cache.grow(id)
+	}
 	return nil
 }
 
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..a0d978f 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -73,10 +73,7 @@ func (s *shardedLockCache) all() [][]float32 {
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
-	s.shardedLocks[id%shardFactor].RLock()
-	vec := s.cache[id]
-	s.shardedLocks[id%shardFactor].RUnlock()
-
+	vec := s.peek(id)
 	if vec != nil {
 		return vec, nil
 	}
@@ -84,6 +81,18 @@ func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error
 	return s.handleCacheMiss(ctx, id)
 }
 
+// peek returns the cached vector, nil if there is none or the id is out of the
+// range the cache has room for
+func (s *shardedLockCache) peek(id uint64) []float32 {
+	s.shardedLocks[id%shardFactor].RLock()
+	defer s.shardedLocks[id%shardFactor].RUnlock()
+
+	if id >= uint64(len(s.cache)) {
+		return nil
+	}
+	return s.cache[id]
+}
+
 //nolint:unused
 func (s *shardedLockCache) delete(ctx context.Context, id uint64) {
 	s.shardedLocks[id%shardFactor].Lock()
@@ -111,9 +120,11 @@ func (s *shardedLockCache) handleCacheMiss(ctx context.Context, id uint64) ([]fl
 		vec = distancer.Normalize(vec)
 	}
 
-	atomic.AddInt64(&s.count, 1)
 	s.shardedLocks[id%shardFactor].Lock()
-	s.cache[id] = vec
+	if id < uint64(len(s.cache)) {
+		atomic.AddInt64(&s.count, 1)
+		s.cache[id] = vec
+	}
 	s.shardedLocks[id%shardFactor].Unlock()
 
 	return vec, nil
@@ -124,10 +135,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 	errs := make([]error, len(ids))
 
 	for i, id := range ids {
-		s.shardedLocks[id%shardFactor].RLock()
-		vec := s.cache[id]
-		s.shardedLocks[id%shardFactor].RUnlock()
-
+		vec := s.peek(id)
 		if vec == nil {
 			vecFromDisk, err := s.handleCacheMiss(ctx, id)
 			errs[i] = err
@@ -151,7 +159,9 @@ func (s *shardedLockCache) prefetch(id uint64) {
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
-	prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
+	if id < uint64(len(s.cache)) {
+		prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
+	}
 }
 
 //nolint:unused
-- 
2.43.0


From 31008e56824b4b540626f9bc788d335b67edccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:16 +0000
Subject: [PATCH 07/31] fix: remember the visited entrypoint beyond the initial
 list size

The visited list was passed by value, so growing it for a large entrypoint id
was lost and the entrypoint came back as a result twice. preload stored the
vector under a read lock, which tears concurrent reads.
---
 pkg/hnsw/compressed_vector_cache.go | 4 ++--
 pkg/hnsw/search.go                  | 4 ++--
 pkg/hnsw/vector_cache.go            | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/hnsw/compressed_vector_cache.go b/pkg/hnsw/compressed_vector_cache.go
index 97bfc25..feec4d2 100644
--- a/pkg/hnsw/compressed_vector_cache.go
+++ b/pkg/hnsw/compressed_vector_cache.go
@@ -125,8 +125,8 @@ func (n *compressedShardedLockCache) prefetch(id uint64) {
 
 //nolint:unused
 func (n *compressedShardedLockCache) preload(id uint64, vec []byte) {
-	n.shardedLocks[id%shardFactor].RLock()
-	defer n.shardedLocks[id%shardFactor].RUnlock()
+	n.shardedLocks[id%shardFactor].Lock()
+	defer n.shardedLocks[id%shardFactor].Unlock()
 	atomic.AddInt64(&n.count, 1)
 	n.trackDimensionsOnce.Do(func() {
 		atomic.StoreInt32(&n.dims, int32(len(vec)))
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index a0d978f..714fecd 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -166,8 +166,8 @@ func (s *shardedLockCache) prefetch(id uint64) {
 
 //nolint:unused
 func (s *shardedLockCache) preload(id uint64, vec []float32) {
-	s.shardedLocks[id%shardFactor].RLock()
-	defer s.shardedLocks[id%shardFactor].RUnlock()
+	s.shardedLocks[id%shardFactor].Lock()
+	defer s.shardedLocks[id%shardFactor].Unlock()
 
 	atomic.AddInt64(&s.count, 1)
 	s.trackDimensionsOnce.Do(func() {
-- 
2.43.0


From 9c26d0a3dd3863ad2ef770585baf917d0216ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:11 +0000
Subject: [PATCH 08/31] fix: answer a search on an empty collection with no
 documents

The entrypoint of an index nothing was added to does not exist, and the search
reported that as an error.
---
 pkg/hnsw/insert.go               | 5 +++++
 pkg/hnsw/search_with_max_dist.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..0204c9a 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -165,6 +166,10 @@ func (h *hnsw) Flush(docCount uint64) error {
 
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		// nothing was flushed yet
+		return 0, nil
+	}
 	if err != nil {
 		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
 	}
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 40e63c8..cdcce23 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -28,6 +28,12 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		searchVec = distancer.Normalize(searchVec)
 	}
 	entryPointID := h.entryPointID
+	if h.nodeByID(entryPointID) == nil {
+		// an index nothing was added to yet has no entrypoint
+		if count, err := h.GetDocCount(); err == nil && count == 0 {
+			return nil, nil, nil
+		}
+	}
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
-- 
2.43.0


From 9b8f037001caa634c2fadfe2e21927be8eb70148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:53 +0000
Subject: [PATCH 09/31] fix: do not lose changed graph nodes that leave the
 node cache

The cache of 10000 nodes is the only holder of what changed since the last
flush; a larger batch evicted nodes that were never written. Loading a node
could also replace an instance another goroutine had loaded and changed.
---
 pkg/hnsw/index.go  | 21 ++++++++++++++++++---
 pkg/hnsw/insert.go | 35 ++++++++++++++++++++++-------------
 pkg/hnsw/vertex.go |  3 +++
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index dcc3b51..0bbb350 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -214,7 +214,19 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 	if err := cfg.Validate(); err != nil {
 		return nil, errors.Wrap(err, "invalid config")
 	}
-	indexCache, err := lru.New(10000)
+	var index *hnsw
+	indexCache, err := lru.NewWithEvict(10000, func(_, value interface{}) {
+		// the cache is the only place that knows the changes since the last flush
+		node, ok := value.(*vertex)
+		if !ok {
+			return
+		}
+		if err := index.persistNode(node); err != nil {
+			index.logger.WithField("action", "hnsw_evict_node").
+				WithField("node_id", node.Id).
+				Error(err)
+		}
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -229,7 +241,6 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	var index *hnsw
 	// the graph holds the vector of every node, the thunk may only know the
 	// ones added since startup
 	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
@@ -626,7 +637,11 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("nodeByID: could not Unmarshal node", err)
 			return nil
 		}
-		h.indexCache.Add(id, v)
+		v.Committed = true
+		// someone else may have loaded, and already changed, the node meanwhile
+		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			return previous.(*vertex)
+		}
 		return v
 	}
 }
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 0204c9a..e87a3f6 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -116,6 +116,26 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	return nil
 }
 
+// persistNode writes a node that changed since it was last written or read
+func (h *hnsw) persistNode(node *vertex) error {
+	node.Lock()
+	defer node.Unlock()
+
+	if node.Committed {
+		return nil
+	}
+	nodeBytes, err := json.Marshal(node)
+	if err != nil {
+		return errors.Wrapf(err, "marshal node %d", node.Id)
+	}
+	err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
+	if err != nil {
+		return errors.Wrapf(err, "put node %d", node.Id)
+	}
+	node.Committed = true
+	return nil
+}
+
 func (h *hnsw) Flush(docCount uint64) error {
 	keys := h.indexCache.Keys()
 	for _, key := range keys {
@@ -123,20 +143,9 @@ func (h *hnsw) Flush(docCount uint64) error {
 		if !ok {
 			continue
 		}
-		node := iNode.(*vertex)
-		if node.Committed {
-			continue
-		}
-		nodeBytes, err := json.Marshal(node)
-		if err != nil {
-			return errors.Wrapf(err, "marshal node %d", node.Id)
-		}
-		err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
-		if err != nil {
-			return errors.Wrapf(err, "put node %d", node.Id)
+		if err := h.persistNode(iNode.(*vertex)); err != nil {
+			return err
 		}
-		node.Committed = true
-		h.indexCache.Add(node.Id, node)
 	}
 	ep := &entrypoint{
 		ID: h.entryPointID,
diff --git a/pkg/hnsw/vertex.go b/pkg/hnsw/vertex.go
index 5242958..1fb609b 100644
--- a/pkg/hnsw/vertex.go
+++ b/pkg/hnsw/vertex.go
@@ -29,12 +29,14 @@ type vertex struct {
 func (v *vertex) markAsMaintenance() {
 	v.Lock()
 	v.Maintenance = true
+	v.Committed = false
 	v.Unlock()
 }
 
 func (v *vertex) unmarkAsMaintenance() {
 	v.Lock()
 	v.Maintenance = false
+	v.Committed = false
 	v.Unlock()
 }
 
@@ -59,6 +61,7 @@ func (v *vertex) upgradeToLevelNoLock(level int) {
 func (v *vertex) setConnectionsAtLevel(level int, connections []uint64) {
 	v.Lock()
 	defer v.Unlock()
+	v.Committed = false
 	// before we simply copy the Connections let's check how much smaller the new
 	// list is. If it's considerably smaller, we might want to downsize the
 	// current allocation
-- 
2.43.0


From f24e06510416425d4597cdf734889d52bf8a5cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:31 +0000
Subject: [PATCH 10/31] fix: reject a batch that cannot be indexed before
 changing anything

---
 pkg/document/document.go | 234 +++++++++++++++++++++++----------------
 pkg/hnsw/index.go        |   1 +
 pkg/hnsw/insert.go       |  10 +-
 3 files changed, 142 insertions(+), 103 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ca1f512..042db85 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -341,128 +342,167 @@ func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, err
 	return index, nil
 }
 
+// vectorFor returns the vector a document is indexed by, nil if the document
+// neither brings one nor has any of the properties to vectorize.
+func (c *Client) vectorFor(doc *Document, propertiesToIndex []string) ([]float32, error) {
+	var vector []float32
+	//check if vector is already present in the properties
+	if doc.Properties["vector"] != nil {
+		if slice, ok := doc.Properties["vector"].([]interface{}); ok {
+			vector = make([]float32, len(slice))
+			for j, v := range slice {
+				var result float32
+
+				switch value := v.(type) {
+				case json.Number:
+					f64Val, err := value.Float64()
+					if err != nil {
+						return nil, fmt.Errorf("vector is not []float32")
+					} else {
+						result = float32(f64Val)
+					}
+				case float32:
+					result = value
+				case float64:
+					result = float32(value)
+				default:
+					return nil, fmt.Errorf("vector is not []float32")
+				}
+				vector[j] = result
+			}
+		} else if slice, ok := doc.Properties["vector"].([]float32); ok {
+			vector = slice
+		} else {
+			return nil, fmt.Errorf("vector format is now supported")
+		}
+	} else {
+		// vectorize the properties
+		vectorData := ""
+		for _, property := range propertiesToIndex {
+			dt, ok := doc.Properties[property]
+			if ok {
+				text, ok := dt.(string)
+				if !ok {
+					return nil, fmt.Errorf("property %s to vectorize is not a string", property)
+				}
+				vectorData += text + " "
+			}
+		}
+		if vectorData == "" {
+			return nil, nil
+		}
+		if c.lookup == nil {
+			return nil, fmt.Errorf("vectorizer is not initialized")
+		}
+		v, err := c.lookup.Corpi([]string{vectorData})
+		if err != nil {
+			c.logger.Errorf("corpi failed :%s\n", err.Error())
+			return nil, err
+		}
+		vector = v.ToArray()
+	}
+
+	if len(vector) == 0 {
+		return nil, fmt.Errorf("vector is empty")
+	}
+	var norm float32
+	for _, v := range vector {
+		norm += v * v
+	}
+	if math.IsNaN(float64(norm)) || math.IsInf(float64(norm), 0) {
+		return nil, fmt.Errorf("vector is not finite")
+	}
+	return vector, nil
+}
+
+// AddDocuments adds a batch of documents. A batch that cannot be indexed as a
+// whole is rejected before anything is changed.
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	namespacedCollection := namespace + collection
 
+	vectors := make([][]float32, len(documents))
+	dimensions := 0
+	for i, doc := range documents {
+		if doc == nil || doc.Properties == nil {
+			return fmt.Errorf("document has no properties")
+		}
+		vector, err := c.vectorFor(doc, propertiesToIndex)
+		if err != nil {
+			return err
+		}
+		if vector != nil {
+			if dimensions != 0 && len(vector) != dimensions {
+				return fmt.Errorf("vectors have different dimensions")
+			}
+			dimensions = len(vector)
+		}
+		vectors[i] = vector
+	}
+
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
 	}
 	count, err := index.GetDocCount()
 	if err != nil {
-		count = 0
+		return err
+	}
+	for _, vector := range vectors {
+		if vector != nil {
+			if err := index.ValidateBeforeInsert(vector); err != nil {
+				return err
+			}
+			break
+		}
 	}
 
 	indexId := count
-	for _, doc := range documents {
-		doc.Properties["id"] = doc.ID
-
-		//check if vector is already present in the properties
-		if doc.Properties["vector"] != nil {
-			doc.Properties[hnswIndexName] = indexId
-
-			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
-
-				vector := make([]float32, len(slice))
-				for j, v := range slice {
-					var result float32
-
-					switch value := v.(type) {
-					case json.Number:
-						f64Val, err := value.Float64()
-						if err != nil {
-							return fmt.Errorf("vector is not []float32")
-						} else {
-							result = float32(f64Val)
-						}
-					case float32:
-						result = value
-					case float64:
-						result = float32(value)
-					default:
-						return fmt.Errorf("vector is not []float32")
-					}
-					vector[j] = result
-				}
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
-
+	addErr := func() error {
+		for i, doc := range documents {
+			delete(doc.Properties, "vector")
+			doc.Properties["id"] = doc.ID
+			doc.Properties[hnswIndexName] = -1
+
+			if vectors[i] != nil {
+				// an id is used up even if the document does not make it, the
+				// graph may link to it already
+				id := indexId
 				indexId++
-			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
+				doc.Properties[hnswIndexName] = id
+				err := index.Add(id, vectors[i])
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
-
-				indexId++
-			} else {
-				return fmt.Errorf("vector format is now supported")
-			}
-		} else {
-			// vectorize the properties
-			// add the vector in the properties before adding the document in the collection
-			vectorData := ""
-			for _, property := range propertiesToIndex {
-				dt, ok := doc.Properties[property]
-				if ok {
-					vectorData += dt.(string) + " "
+					return err
 				}
+				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id), vectors[i])
 			}
 
-			if vectorData != "" {
-				if c.lookup == nil {
-					return fmt.Errorf("vectorizer is not initialized")
-				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
-				if err != nil {
-					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
-				}
-
-				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
-
-				indexId++
-			} else {
-				doc.Properties[hnswIndexName] = -1
+			data, err := json.Marshal(doc.Properties)
+			if err != nil {
+				c.logger.Errorf("marshal document failed :%s\n", err.Error())
+				return err
 			}
-		}
 
-		data, err := json.Marshal(doc.Properties)
-		if err != nil {
-			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+			if err != nil {
+				c.logger.Errorf("DocPut failed :%v\n", err.Error())
+				return err
+			}
+			fmt.Println("added document", indexId)
 		}
+		return nil
+	}()
 
-		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
-		if err != nil {
-			c.logger.Errorf("DocPut failed :%v\n", err.Error())
-			return err
-		}
-		fmt.Println("added document", indexId)
-	}
+	// what was added before an error has to be flushed all the same, otherwise
+	// the next batch would hand out the same ids again
 	err = index.Flush(indexId)
-	if err != nil {
-		return err
+	if err == nil {
+		err = c.api.CommitPodFeeds(c.pod, c.sessionId)
 	}
-	err = c.api.CommitPodFeeds(c.pod, c.sessionId)
-	if err != nil {
-		return err
+	if addErr != nil {
+		return addErr
 	}
-	return nil
+	return err
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 0bbb350..36f8300 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -185,6 +185,7 @@ type VectorIndex interface {
 	Flush(docCount uint64) error
 	GetDocCount() (uint64, error)
 	LoadEntrypoint() error
+	ValidateBeforeInsert(vector []float32) error
 	Add(id uint64, vector []float32) error
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
 		allowList helpers.AllowList) ([]uint64, []float32, error)
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index e87a3f6..58b4ae1 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -12,7 +12,6 @@
 package hnsw
 
 import (
-	"context"
 	"encoding/json"
 	"fmt"
 	"math"
@@ -38,14 +37,13 @@ type count struct {
 }
 
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
-	if h.isEmpty() {
+	entryPoint := h.nodeByID(h.Entrypoint())
+	if entryPoint == nil {
+		// no vector was added yet
 		return nil
 	}
 	// check if vector length is the same as existing nodes
-	existingNodeVector, err := h.cache.get(context.Background(), h.entryPointID)
-	if err != nil {
-		return err
-	}
+	existingNodeVector := entryPoint.Vector
 
 	if len(existingNodeVector) != len(vector) {
 		return fmt.Errorf("new node has a vector with length %v. "+
-- 
2.43.0


From ae0b1a253ab94620527fa8c5c4b12e03512ad0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:04 +0000
Subject: [PATCH 11/31] fix: leave replaced documents out of search results

---
 pkg/document/document.go | 113 +++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 57 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 042db85..cd39a53 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -522,45 +522,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
-	if err != nil {
-		return nil, nil, err
-	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
-	}
-	documents := make([][]byte, len(ids))
-	wg := sync.WaitGroup{}
-	errCh := make(chan error, len(ids))
-	for i, id := range ids {
-		wg.Add(1)
-		go func(i int, id uint64) {
-			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if err != nil {
-				fmt.Println("doc find error", err, id, expr, ids)
-				errCh <- err
-				return
-			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
-			}
-			documents[i] = docs[0]
-		}(i, id)
-	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
-	for err := range errCh {
-		return nil, nil, err
-	}
-
-	return documents, dists, nil
+	return c.nearDocuments(index, namespacedCollection, vector.ToArray(), distance, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
@@ -574,15 +536,45 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
-	if err != nil {
-		return nil, nil, err
-	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
+	return c.nearDocuments(index, namespacedCollection, vector, distance, limit)
+}
+
+// nearDocuments searches the index and fetches the documents found. Graph nodes
+// no document refers to any more (the document was added again) are passed over.
+func (c *Client) nearDocuments(index h.VectorIndex, namespacedCollection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	for k := 800; ; k *= 2 {
+		ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, k, nil)
+		if err != nil {
+			return nil, nil, err
+		}
+		documents := [][]byte{}
+		distances := []float32{}
+		for from := 0; from < len(ids) && (limit == 0 || len(documents) < limit); {
+			to := len(ids)
+			if limit != 0 {
+				to = min(to, from+limit-len(documents))
+			}
+			found, err := c.documentsByIndexID(namespacedCollection, ids[from:to])
+			if err != nil {
+				return nil, nil, err
+			}
+			for i, doc := range found {
+				if doc != nil {
+					documents = append(documents, doc)
+					distances = append(distances, dists[from+i])
+				}
+			}
+			from = to
+		}
+		if len(ids) < k || limit == 0 || len(documents) >= limit {
+			return documents, distances, nil
+		}
 	}
+}
 
+// documentsByIndexID fetches the documents with the given index ids, nil for an
+// id that no document has.
+func (c *Client) documentsByIndexID(namespacedCollection string, ids []uint64) ([][]byte, error) {
 	documents := make([][]byte, len(ids))
 	wg := sync.WaitGroup{}
 	errCh := make(chan error, len(ids))
@@ -593,26 +585,33 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
 			if err != nil {
-				errCh <- err
+				if !errors.Is(err, collection.ErrEntryNotFound) {
+					errCh <- err
+				}
 				return
 			}
 			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
 				return
 			}
-			documents[i] = docs[0]
+			// the lookup yields the next higher id if there is no exact match
+			var found struct {
+				ID float64 `json:"hnswId"`
+			}
+			if err := json.Unmarshal(docs[0], &found); err != nil {
+				errCh <- err
+				return
+			}
+			if found.ID == float64(id) {
+				documents[i] = docs[0]
+			}
 		}(i, id)
 	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
+	wg.Wait()
+	close(errCh)
 	for err := range errCh {
-		return nil, nil, err
+		return nil, err
 	}
-
-	return documents, dists, nil
+	return documents, nil
 }
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
-- 
2.43.0


From 9b746719cc54f458d81cee3b7d1cb343b7a37391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:27 +0000
Subject: [PATCH 12/31] fix: return a document only if it has the value asked
 for

---
 pkg/document/document.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index cd39a53..ba15f7d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -638,6 +639,24 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if len(docs) == 0 {
 		return nil, fmt.Errorf("document not found")
 	}
+	if expr != "" {
+		// the lookup also yields longer strings and higher numbers
+		properties := map[string]interface{}{}
+		if err := json.Unmarshal(docs[0], &properties); err != nil {
+			return nil, err
+		}
+		matches := true
+		switch v := properties[property].(type) {
+		case string:
+			matches = v == value
+		case float64:
+			number, err := strconv.ParseFloat(value, 64)
+			matches = err == nil && v == number
+		}
+		if !matches {
+			return nil, fmt.Errorf("document not found")
+		}
+	}
 	return docs[0], nil
 }
 
-- 
2.43.0


From 773ae0a4e654b63cac130e20ed9fb701315f19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:50 +0000
Subject: [PATCH 13/31] fix: serialise batches and let searches run only
 between them

---
 pkg/document/document.go         | 36 ++++++++++++++------------------
 pkg/hnsw/insert.go               |  4 ++--
 pkg/hnsw/search_with_max_dist.go |  2 +-
 3 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ba15f7d..4472286 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -38,7 +38,7 @@ type Config struct {
 }
 
 type Client struct {
-	lock          sync.Mutex
+	lock          sync.RWMutex
 	hnswLock      sync.RWMutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
@@ -250,8 +250,8 @@ func (c *Client) DeleteCollection(collection string) error {
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-	c.lock.Lock()
-	defer c.lock.Unlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 	if c.sessionId == "" {
 		return nil, dfs.ErrUserNotLoggedIn
 	}
@@ -440,6 +440,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		vectors[i] = vector
 	}
 
+	// ids are handed out by the current count, one batch at a time
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
@@ -507,11 +511,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-	namespacedCollection := namespace + collection
-	index, err := c.openCollection(namespacedCollection)
-	if err != nil {
-		return nil, nil, err
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -519,16 +518,15 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	err = index.LoadEntrypoint()
-	if err != nil {
-		return nil, nil, err
-	}
-	return c.nearDocuments(index, namespacedCollection, vector.ToArray(), distance, limit)
+	return c.GetNearDocumentsByVector(collection, vector.ToArray(), distance, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
@@ -617,16 +615,14 @@ func (c *Client) documentsByIndexID(namespacedCollection string, ids []uint64) (
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
+	_, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, err
 	}
-	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
-	}
 
 	expr := ""
 	if property != "" && value != "" {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 58b4ae1..bdeacd0 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -191,8 +191,8 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index cdcce23..510e2a3 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,7 +27,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
-	entryPointID := h.entryPointID
+	entryPointID := h.getEntrypoint()
 	if h.nodeByID(entryPointID) == nil {
 		// an index nothing was added to yet has no entrypoint
 		if count, err := h.GetDocCount(); err == nil && count == 0 {
-- 
2.43.0


From d753b8eb67eba8fda25dfb2b07579a23f7921722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:58 +0000
Subject: [PATCH 14/31] fix: do not hand out index ids again after a failed
 flush

---
 pkg/hnsw/index.go  | 3 +++
 pkg/hnsw/insert.go | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 36f8300..1d14f80 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -75,6 +75,9 @@ type hnsw struct {
 	// this point is always currentMaximumLayer
 	entryPointID uint64
 
+	// number of ids handed out as of the last flush, successful or not
+	docCount atomic.Uint64
+
 	// ef parameter used in construction phases, should be higher than ef during querying
 	efConstruction int
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index bdeacd0..93eef3b 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -135,6 +135,8 @@ func (h *hnsw) persistNode(node *vertex) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
+	// the ids are in use whether or not the count can be written
+	h.docCount.Store(docCount)
 	keys := h.indexCache.Keys()
 	for _, key := range keys {
 		iNode, ok := h.indexCache.Get(key)
@@ -175,7 +177,7 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
 	if errors.Is(err, collection.ErrEntryNotFound) {
 		// nothing was flushed yet
-		return 0, nil
+		return h.docCount.Load(), nil
 	}
 	if err != nil {
 		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
@@ -187,7 +189,7 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 		return 0, err
 	}
 
-	return c.Count, nil
+	return max(c.Count, h.docCount.Load()), nil
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-- 
2.43.0


From b6986b12e5b71c0b0df803bbb38a4a0dd6336790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:34 +0000
Subject: [PATCH 15/31] fix: give every unvectorized document its own index id

---
 pkg/document/document.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 4472286..c2150ab 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"hash/fnv"
 	"math"
 	"os"
 	"strconv"
@@ -416,6 +417,16 @@ func (c *Client) vectorFor(doc *Document, propertiesToIndex []string) ([]float32
 	return vector, nil
 }
 
+// unindexedID is the index id of a document without a vector: negative, and its
+// own, because replacing a document drops the lookup entry of its index id for
+// every document that shares it.
+func unindexedID(id string) int64 {
+	hash := fnv.New64a()
+	_, _ = hash.Write([]byte(id))
+	// 52 bits, the lookup keeps numbers as float64
+	return -1 - int64(hash.Sum64()>>12)
+}
+
 // AddDocuments adds a batch of documents. A batch that cannot be indexed as a
 // whole is rejected before anything is changed.
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
@@ -466,7 +477,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		for i, doc := range documents {
 			delete(doc.Properties, "vector")
 			doc.Properties["id"] = doc.ID
-			doc.Properties[hnswIndexName] = -1
+			doc.Properties[hnswIndexName] = unindexedID(doc.ID)
 
 			if vectors[i] != nil {
 				// an id is used up even if the document does not make it, the
-- 
2.43.0


From 9e6cc0f4d986f47f34a5f27f9541d64dcf05b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:18 +0000
Subject: [PATCH 16/31] fix: refuse null documents and indexes instead of
 panicking

---
 adapters/handlers/collections.go | 3 +++
 adapters/handlers/documents.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..8634de8 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index cannot be null"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..01b22e9 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,6 +24,9 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be null"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
 			continue
-- 
2.43.0


From 895cabf42e9ab0ad6c6618b8a184946d4f553a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:29 +0000
Subject: [PATCH 17/31] fix: do not mix up graph nodes that leave and enter the
 node cache at once

Searching loads nodes in parallel. With more than 10000 nodes every load pushes
another node out of the cache, and those were written to the key value store
concurrently, so some were lost; a node on its way out could also be read back
in its earlier state.
---
 pkg/hnsw/index.go                | 22 ++++++++++++++++++++++
 pkg/hnsw/insert.go               | 26 ++++++++++++++++++--------
 pkg/hnsw/neighbor_connections.go |  6 +++---
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 1d14f80..4aacc76 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -160,6 +160,12 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// nodesLock keeps what the cache and the key value store say about a node
+	// apart from a node on its way from one to the other: held for writing while
+	// nodes enter, and thereby leave, the cache or are written, and for reading
+	// while a node is looked for in both.
+	nodesLock sync.RWMutex
 }
 
 type CommitLogger interface {
@@ -631,7 +637,13 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			return nil
 		}
 	} else {
+		h.nodesLock.RLock()
+		if val, ok := h.indexCache.Get(id); ok {
+			h.nodesLock.RUnlock()
+			return val.(*vertex)
+		}
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
+		h.nodesLock.RUnlock()
 		if err != nil {
 			fmt.Println("nodeByID: could not get node", id, h.className, err)
 			return nil
@@ -642,6 +654,8 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			return nil
 		}
 		v.Committed = true
+		h.nodesLock.Lock()
+		defer h.nodesLock.Unlock()
 		// someone else may have loaded, and already changed, the node meanwhile
 		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
 			return previous.(*vertex)
@@ -650,6 +664,14 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	}
 }
 
+// cacheNode puts a node into the cache, writing the node that has to leave it
+func (h *hnsw) cacheNode(node *vertex) {
+	h.nodesLock.Lock()
+	defer h.nodesLock.Unlock()
+
+	h.indexCache.Add(node.Id, node)
+}
+
 func (h *hnsw) Drop(ctx context.Context) error {
 	// cancel tombstone cleanup goroutine
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 93eef3b..d186e5c 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -100,7 +100,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.cacheNode(node)
 
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
@@ -114,7 +114,8 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	return nil
 }
 
-// persistNode writes a node that changed since it was last written or read
+// persistNode writes a node that changed since it was last written or read, the
+// caller holds nodesLock
 func (h *hnsw) persistNode(node *vertex) error {
 	node.Lock()
 	defer node.Unlock()
@@ -134,11 +135,11 @@ func (h *hnsw) persistNode(node *vertex) error {
 	return nil
 }
 
-func (h *hnsw) Flush(docCount uint64) error {
-	// the ids are in use whether or not the count can be written
-	h.docCount.Store(docCount)
-	keys := h.indexCache.Keys()
-	for _, key := range keys {
+func (h *hnsw) persistCachedNodes() error {
+	h.nodesLock.Lock()
+	defer h.nodesLock.Unlock()
+
+	for _, key := range h.indexCache.Keys() {
 		iNode, ok := h.indexCache.Get(key)
 		if !ok {
 			continue
@@ -147,6 +148,15 @@ func (h *hnsw) Flush(docCount uint64) error {
 			return err
 		}
 	}
+	return nil
+}
+
+func (h *hnsw) Flush(docCount uint64) error {
+	// the ids are in use whether or not the count can be written
+	h.docCount.Store(docCount)
+	if err := h.persistCachedNodes(); err != nil {
+		return err
+	}
 	ep := &entrypoint{
 		ID: h.entryPointID,
 	}
@@ -282,7 +292,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.cacheNode(node)
 
 	h.insertMetrics.prepareAndInsertNode(before)
 	before = time.Now()
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..72ee4d7 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -65,7 +65,7 @@ func (n *neighborFinderConnector) Do() error {
 		}
 	}
 
-	n.graph.indexCache.Add(n.node.Id, n.node)
+	n.graph.cacheNode(n.node)
 
 	return nil
 }
@@ -157,7 +157,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		// we can simply append
 		// updatedConnections = append(currentConnections, n.node.ID)
 		neighbor.appendConnectionAtLevelNoLock(level, n.node.Id, maximumConnections)
-		n.graph.indexCache.Add(neighbor.Id, neighbor)
+		n.graph.cacheNode(neighbor)
 
 		if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, n.node.Id); err != nil {
 			return err
@@ -206,7 +206,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		for candidates.Len() > 0 {
 			id := candidates.Pop().ID
 			neighbor.appendConnectionAtLevelNoLock(level, id, maximumConnections)
-			n.graph.indexCache.Add(neighbor.Id, neighbor)
+			n.graph.cacheNode(neighbor)
 
 			if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, id); err != nil {
 				return err
-- 
2.43.0


From 268144272a0d93484cc39abaee8045de1230c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:02 +0000
Subject: [PATCH 18/31] fix: normalise vectors of any magnitude

The squared length was summed in float32: it overflowed or vanished for long or
short vectors, which then had no direction (or were refused).
---
 pkg/document/document.go        |  8 +++-----
 pkg/hnsw/distancer/normalize.go | 10 ++++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c2150ab..c059912 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -407,12 +407,10 @@ func (c *Client) vectorFor(doc *Document, propertiesToIndex []string) ([]float32
 	if len(vector) == 0 {
 		return nil, fmt.Errorf("vector is empty")
 	}
-	var norm float32
 	for _, v := range vector {
-		norm += v * v
-	}
-	if math.IsNaN(float64(norm)) || math.IsInf(float64(norm), 0) {
-		return nil, fmt.Errorf("vector is not finite")
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return nil, fmt.Errorf("vector is not finite")
+		}
 	}
 	return vector, nil
 }
diff --git a/pkg/hnsw/distancer/normalize.go b/pkg/hnsw/distancer/normalize.go
index 48abb2f..befe389 100644
--- a/pkg/hnsw/distancer/normalize.go
+++ b/pkg/hnsw/distancer/normalize.go
@@ -14,18 +14,20 @@ package distancer
 import "math"
 
 func Normalize(v []float32) []float32 {
-	var norm float32
+	// in double precision: the squares of very large or very small entries do
+	// not fit single precision
+	var norm float64
 	out := make([]float32, len(v))
 	for i := range v {
-		norm += v[i] * v[i]
+		norm += float64(v[i]) * float64(v[i])
 	}
 	if norm == 0 {
 		return out
 	}
 
-	norm = float32(math.Sqrt(float64(norm)))
+	norm = math.Sqrt(norm)
 	for i := range v {
-		out[i] = v[i] / norm
+		out[i] = float32(float64(v[i]) / norm)
 	}
 
 	return out
-- 
2.43.0


From fa9535c659ab0b0fdbe50331a2d5903220629cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:02 +0000
Subject: [PATCH 19/31] fix: distance of antipodes is not NaN

Rounding can push the haversine just beyond one.
---
 pkg/hnsw/distancer/geo_spatial.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..9754732 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -35,6 +35,11 @@ func geoDist(a, b []float32) (float32, bool, error) {
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
 
+	if A > 1 {
+		// rounding, for places on opposite sides of the globe
+		A = 1
+	}
+
 	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
 
 	return float32(R * C), true, nil
-- 
2.43.0


From e76a3d6a63abe8c2b5a3f6f93bf33b2ade88f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 20/31] fix: a cut-off entrypoint record does not reset the
 entrypoint

---
 pkg/hnsw/deserializer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..47ca303 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,11 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
-- 
2.43.0


From 91715d7eed3e55de4314e7d9c6fc5b3669fb6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 21/31] fix: a condensing attempt that failed halfway leaves no
 condensed log

---
 pkg/hnsw/condensor.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 6453a33..fd4accd 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -42,8 +42,11 @@ func (c *MemoryCondensor) Do(fileName string) error {
 		return errors.Wrap(err, "read commit log to be condensed")
 	}
 
-	newLogFile, err := os.OpenFile(fmt.Sprintf("%s.condensed", fileName),
-		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o666)
+	// only a complete file may carry the .condensed suffix, otherwise an attempt
+	// that failed halfway would be combined with other logs
+	scratchName := fmt.Sprintf("%s.scratch.tmp", fileName)
+	newLogFile, err := os.OpenFile(scratchName,
+		os.O_WRONLY|os.O_TRUNC|os.O_CREATE, 0o666)
 	if err != nil {
 		return errors.Wrap(err, "open new commit log file for writing")
 	}
@@ -104,6 +107,10 @@ func (c *MemoryCondensor) Do(fileName string) error {
 		return errors.Wrap(err, "close new commit log")
 	}
 
+	if err := os.Rename(scratchName, fmt.Sprintf("%s.condensed", fileName)); err != nil {
+		return errors.Wrap(err, "rename new commit log")
+	}
+
 	if err := os.Remove(fileName); err != nil {
 		return errors.Wrap(err, "cleanup old (uncondensed) commit log")
 	}
-- 
2.43.0


From ce5b5d0d930be02f2478588d9ec06358204fd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 22/31] fix: condensing a commit log keeps what the log takes
 away

Deletions, cleared links, removed tombstones and resets of what an earlier log
added were dropped, so that it came back.
---
 pkg/hnsw/condensor.go    | 55 +++++++++++++++++++++++++++++++++++
 pkg/hnsw/deserializer.go | 63 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 110 insertions(+), 8 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index fd4accd..9f4de45 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -55,6 +55,26 @@ func (c *MemoryCondensor) Do(fileName string) error {
 
 	c.newLog = NewWriterSize(c.newLogFile, 1*1024*1024)
 
+	// what the log takes away may have been added by an earlier log, so it has
+	// to be taken away by the condensed one as well
+	if res.IndexReset {
+		if err := c.Reset(); err != nil {
+			return errors.Wrap(err, "write reset to commit log")
+		}
+	}
+
+	for id := range res.NodesDeleted {
+		if err := c.DeleteNode(id); err != nil {
+			return errors.Wrapf(err, "write deletion of node %d to commit log", id)
+		}
+	}
+
+	for id := range res.LinksCleared {
+		if err := c.ClearLinks(id); err != nil {
+			return errors.Wrapf(err, "write clearing of node %d to commit log", id)
+		}
+	}
+
 	for _, node := range res.Nodes {
 		if node == nil {
 			// nil nodes occur when we've grown, but not inserted anything yet
@@ -99,6 +119,13 @@ func (c *MemoryCondensor) Do(fileName string) error {
 		}
 	}
 
+	for ts := range res.TombstonesRemoved {
+		if err := c.RemoveTombstone(ts); err != nil {
+			return errors.Wrapf(err,
+				"write removal of tombstone for node %d to commit log", ts)
+		}
+	}
+
 	if err := c.newLog.Flush(); err != nil {
 		return errors.Wrap(err, "close new commit log")
 	}
@@ -235,6 +262,34 @@ func (c *MemoryCondensor) AddTombstone(nodeid uint64) error {
 	return ec.ToError()
 }
 
+func (c *MemoryCondensor) RemoveTombstone(nodeid uint64) error {
+	ec := &errorcompounder.ErrorCompounder{}
+	ec.Add(c.writeCommitType(c.newLog, RemoveTombstone))
+	ec.Add(c.writeUint64(c.newLog, nodeid))
+
+	return ec.ToError()
+}
+
+func (c *MemoryCondensor) ClearLinks(nodeid uint64) error {
+	ec := &errorcompounder.ErrorCompounder{}
+	ec.Add(c.writeCommitType(c.newLog, ClearLinks))
+	ec.Add(c.writeUint64(c.newLog, nodeid))
+
+	return ec.ToError()
+}
+
+func (c *MemoryCondensor) DeleteNode(nodeid uint64) error {
+	ec := &errorcompounder.ErrorCompounder{}
+	ec.Add(c.writeCommitType(c.newLog, DeleteNode))
+	ec.Add(c.writeUint64(c.newLog, nodeid))
+
+	return ec.ToError()
+}
+
+func (c *MemoryCondensor) Reset() error {
+	return c.writeCommitType(c.newLog, ResetIndex)
+}
+
 func NewMemoryCondensor(logger logrus.FieldLogger) *MemoryCondensor {
 	return &MemoryCondensor{logger: logger}
 }
diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 47ca303..fa50835 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -45,6 +45,14 @@ type DeserializationResult struct {
 	// many Connections as discovered in
 	// https://github.com/weaviate/weaviate/issues/1868
 	LinksReplaced map[uint64]map[uint16]struct{}
+
+	// What was taken away. As with LinksReplaced it may have been added by a
+	// prior log, so that a condensed log must not lose it. Only kept together
+	// with the link replace information.
+	IndexReset        bool
+	NodesDeleted      map[uint64]struct{}
+	LinksCleared      map[uint64]struct{}
+	TombstonesRemoved map[uint64]struct{}
 }
 
 func (dr DeserializationResult) ReplaceLinks(node uint64, level uint16) bool {
@@ -87,6 +95,10 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			Nodes:         make([]*vertex, initialSize),
 			Tombstones:    make(map[uint64]struct{}),
 			LinksReplaced: make(map[uint64]map[uint16]struct{}),
+
+			NodesDeleted:      make(map[uint64]struct{}),
+			LinksCleared:      make(map[uint64]struct{}),
+			TombstonesRemoved: make(map[uint64]struct{}),
 		}
 	}
 
@@ -124,10 +136,10 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 		case ReplaceLinksAtLevel:
 			readThisRound, err = c.ReadLinks(fd, out, keepLinkReplaceInformation)
 		case AddTombstone:
-			err = c.ReadAddTombstone(fd, out.Tombstones)
+			err = c.ReadAddTombstone(fd, out)
 			readThisRound = 8
 		case RemoveTombstone:
-			err = c.ReadRemoveTombstone(fd, out.Tombstones)
+			err = c.ReadRemoveTombstone(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ClearLinks:
 			err = c.ReadClearLinks(fd, out, keepLinkReplaceInformation)
@@ -136,12 +148,18 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			err = c.ReadClearLinksAtLevel(fd, out, keepLinkReplaceInformation)
 			readThisRound = 10
 		case DeleteNode:
-			err = c.ReadDeleteNode(fd, out)
+			err = c.ReadDeleteNode(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ResetIndex:
 			out.Entrypoint = 0
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
+			if keepLinkReplaceInformation {
+				out.IndexReset = true
+				out.NodesDeleted = make(map[uint64]struct{})
+				out.LinksCleared = make(map[uint64]struct{})
+				out.LinksReplaced = make(map[uint64]map[uint16]struct{})
+			}
 		case AddPQ:
 			err = c.ReadPQ(fd, out)
 			readThisRound = 9
@@ -325,24 +343,30 @@ func (c *Deserializer) ReadAddLinks(r io.Reader,
 	return 12 + int(length)*8, nil
 }
 
-func (c *Deserializer) ReadAddTombstone(r io.Reader, tombstones map[uint64]struct{}) error {
+func (c *Deserializer) ReadAddTombstone(r io.Reader, res *DeserializationResult) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
-	tombstones[id] = struct{}{}
+	res.Tombstones[id] = struct{}{}
+	delete(res.TombstonesRemoved, id)
 
 	return nil
 }
 
-func (c *Deserializer) ReadRemoveTombstone(r io.Reader, tombstones map[uint64]struct{}) error {
+func (c *Deserializer) ReadRemoveTombstone(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
-	delete(tombstones, id)
+	delete(res.Tombstones, id)
+	if keepReplaceInfo {
+		res.TombstonesRemoved[id] = struct{}{}
+	}
 
 	return nil
 }
@@ -355,6 +379,10 @@ func (c *Deserializer) ReadClearLinks(r io.Reader, res *DeserializationResult,
 		return err
 	}
 
+	if keepReplaceInfo {
+		res.LinksCleared[id] = struct{}{}
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
@@ -382,6 +410,17 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 		return err
 	}
 
+	if keepReplaceInfo {
+		newNodes, changed, err := growIndexToAccomodateNode(res.Nodes, id, c.logger)
+		if err != nil {
+			return err
+		}
+
+		if changed {
+			res.Nodes = newNodes
+		}
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
@@ -435,12 +474,20 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	return nil
 }
 
-func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult) error {
+func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
+	if keepReplaceInfo {
+		res.NodesDeleted[id] = struct{}{}
+		delete(res.LinksCleared, id)
+		delete(res.LinksReplaced, id)
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
-- 
2.43.0


From d7669504f0ef64b87b7e22ea8084504fca537f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:36 +0000
Subject: [PATCH 23/31] fix: the index normalises vectors of any magnitude, too

It used a copy of Normalize in another module, with the same overflow.
---
 pkg/hnsw/insert.go       | 2 +-
 pkg/hnsw/search.go       | 2 +-
 pkg/hnsw/vector_cache.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d186e5c..2204c31 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -17,10 +17,10 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
-	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
 )
 
 const (
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a8c6619..d95d234 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -18,11 +18,11 @@ import (
 	"sync"
 	"sync/atomic"
 
+	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
 	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
-	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
 	ssdhelpers "github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
 	"github.com/weaviate/weaviate/entities/storobj"
 	"github.com/weaviate/weaviate/usecases/floatcomp"
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 714fecd..ef1d7e0 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -18,8 +18,8 @@ import (
 	"time"
 	"unsafe"
 
+	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/sirupsen/logrus"
-	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
 )
 
 type shardedLockCache struct {
-- 
2.43.0


From 37549d40e3437a321267e9579ffec29697704267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 24/31] fix: reject a batch with a document that the
 collection's indexes cannot take

A document without an id, or with a missing or mistyped value of an indexed
field, failed or panicked in the middle of the batch, after documents before it
were stored.
---
 pkg/document/document.go | 69 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c059912..5f15d4b 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -425,6 +425,71 @@ func unindexedID(id string) int64 {
 	return -1 - int64(hash.Sum64()>>12)
 }
 
+// checkIndexed makes sure that every document has an id and a value of the right
+// type for every index of the collection, which DocPut takes for granted.
+func (c *Client) checkIndexed(namespacedCollection string, documents []*Document) error {
+	schemas, err := c.api.DocList(c.sessionId, c.pod)
+	if err != nil {
+		return err
+	}
+	schema := schemas[namespacedCollection]
+
+	for _, doc := range documents {
+		if doc.ID == "" {
+			return fmt.Errorf("document has no id")
+		}
+		data, err := json.Marshal(doc.Properties)
+		if err != nil {
+			return err
+		}
+		properties := map[string]interface{}{}
+		if err := json.Unmarshal(data, &properties); err != nil {
+			return err
+		}
+		// these are set when the document is stored
+		properties[collection.DefaultIndexFieldName] = doc.ID
+		properties[hnswIndexName] = float64(0)
+
+		for _, indexes := range [][]collection.SIndex{schema.SimpleIndexes, schema.MapIndexes, schema.ListIndexes} {
+			for _, index := range indexes {
+				if !indexable(properties[index.FieldName], index.FieldType) {
+					return fmt.Errorf("property %s of document %s cannot be indexed", index.FieldName, doc.ID)
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// indexable tells whether a value fits an index of the given type.
+func indexable(value interface{}, indexType collection.IndexType) bool {
+	switch indexType {
+	case collection.StringIndex:
+		_, ok := value.(string)
+		return ok
+	case collection.NumberIndex:
+		_, ok := value.(float64)
+		return ok
+	case collection.MapIndex:
+		entries, ok := value.(map[string]interface{})
+		for _, entry := range entries {
+			if _, isString := entry.(string); !isString {
+				return false
+			}
+		}
+		return ok
+	case collection.ListIndex:
+		entries, ok := value.([]interface{})
+		for _, entry := range entries {
+			if _, isString := entry.(string); !isString {
+				return false
+			}
+		}
+		return ok
+	}
+	return true
+}
+
 // AddDocuments adds a batch of documents. A batch that cannot be indexed as a
 // whole is rejected before anything is changed.
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
@@ -470,6 +535,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 	}
 
+	if err := c.checkIndexed(namespacedCollection, documents); err != nil {
+		return err
+	}
+
 	indexId := count
 	addErr := func() error {
 		for i, doc := range documents {
-- 
2.43.0


From 1eb57a19ecf17c28d5f56c8490389cec86845d94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:57 +0000
Subject: [PATCH 25/31] fix: a lookup in a list or map index returns only
 documents with the entry asked for

---
 pkg/document/document.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 5f15d4b..ba5455d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -726,6 +726,17 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 		case float64:
 			number, err := strconv.ParseFloat(value, 64)
 			matches = err == nil && v == number
+		case []interface{}:
+			matches = false
+			for _, entry := range v {
+				matches = matches || entry == value
+			}
+		case map[string]interface{}:
+			// asked for as key:text or keytext
+			matches = false
+			for key, text := range v {
+				matches = matches || fmt.Sprint(key, text) == strings.ReplaceAll(value, ":", "")
+			}
 		}
 		if !matches {
 			return nil, fmt.Errorf("document not found")
-- 
2.43.0


From 0bf936d2b84eba3fd7a6de2ed45538f4d9ad450d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:35:41 +0000
Subject: [PATCH 26/31] fix: documents are found by values with operator and
 pattern characters

---
 pkg/document/document.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ba5455d..f92406e 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -7,6 +7,7 @@ import (
 	"hash/fnv"
 	"math"
 	"os"
+	"regexp"
 	"strconv"
 	"strings"
 	"sync"
@@ -706,6 +707,23 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if property != "" && value != "" {
 		expr = fmt.Sprintf("%s=%s", property, value)
 	}
+	doc, err := c.findDocument(namespacedCollection, expr, property, value)
+	if err != nil && expr != "" && (regexp.QuoteMeta(value) != value || escapeOperators.Replace(value) != value) {
+		// the lookup takes the value for a pattern and looks for operators in it,
+		// so go through all values with a pattern that only this one matches
+		pattern := escapeOperators.Replace(regexp.QuoteMeta(value))
+		expr = fmt.Sprintf("%s=>\x00|^%s$", property, pattern)
+		if doc, err := c.findDocument(namespacedCollection, expr, property, value); err == nil {
+			return doc, nil
+		}
+	}
+	return doc, err
+}
+
+var escapeOperators = strings.NewReplacer("=", `\x3d`, "<", `\x3c`, ">", `\x3e`, "!", `\x21`)
+
+// findDocument returns the first document the lookup yields, if it has the value.
+func (c *Client) findDocument(namespacedCollection, expr, property, value string) ([]byte, error) {
 	docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b5ac4666ea43bf4c5c11b70579d907719769cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 27/31] fix: a search by distance alone returns no vector twice
 and none too few where equally near ones meet the end of a page

---
 pkg/hnsw/search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index d95d234..f288f2a 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -113,12 +113,14 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		offsetCap := searchParams.offsetCapacity(ids)
 		totalLimitCap := searchParams.totalLimitCapacity(ids)
 
-		ids, dist = ids[offsetCap:totalLimitCap], dist[offsetCap:totalLimitCap]
-
-		if len(ids) == 0 {
+		if offsetCap == totalLimitCap {
 			return false, nil
 		}
 
+		// start over, equally near vectors may come in another order than before
+		ids, dist = ids[:totalLimitCap], dist[:totalLimitCap]
+		resultIDs, resultDist = resultIDs[:0], resultDist[:0]
+
 		lastFound := dist[len(dist)-1]
 		shouldContinue = lastFound <= targetDistance
 
-- 
2.43.0


From 00cf98306b05dbbe00026089657ea3c55a9173bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:41 +0000
Subject: [PATCH 28/31] fix: reopening an index restores its topmost layer

---
 pkg/hnsw/insert.go               | 4 ++++
 pkg/hnsw/search.go               | 6 ++++--
 pkg/hnsw/search_with_max_dist.go | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 2204c31..5c80887 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -219,6 +219,10 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
+	if node := h.nodeByID(ep.ID); node != nil {
+		// the entrypoint is on the topmost layer
+		h.currentMaximumLayer = node.Level
+	}
 	return nil
 }
 
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index f288f2a..1a54cf0 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -469,7 +469,9 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	if h.isEmpty() {
 		return nil, nil, nil
 	}
-	entryPointID := h.entryPointID
+	h.RLock()
+	entryPointID, maximumLayer := h.entryPointID, h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -479,7 +481,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 			"it has been flagged for cleanup and should be fixed in the next cleanup cycle")
 	}
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(10)
 		eps.Insert(entryPointID, entryPointDistance)
 		res, err := h.searchLayerByVector(searchVec, eps, 1, level, nil)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 510e2a3..43b3ae1 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,7 +27,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
-	entryPointID := h.getEntrypoint()
+	h.RLock()
+	entryPointID, maximumLayer := h.entryPointID, h.currentMaximumLayer
+	h.RUnlock()
 	if h.nodeByID(entryPointID) == nil {
 		// an index nothing was added to yet has no entrypoint
 		if count, err := h.GetDocCount(); err == nil && count == 0 {
@@ -44,7 +46,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(1)
 		eps.Insert(entryPointID, entryPointDistance)
 		// ignore allowList on layers > 0
-- 
2.43.0


From 0ccb2c4e083950255f58afdfb9f0c3d9d0f2db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:22 +0000
Subject: [PATCH 29/31] fix: answer REST requests with the numbers that were
 stored, without rounding

---
 adapters/handlers/documents.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 01b22e9..2db94bd 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -1,6 +1,7 @@
 package handlers
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"github.com/fairDataSociety/FaVe/models"
@@ -59,8 +60,7 @@ func (s *Handler) FaveGetNearestDocumentsHandler(request operations.FaveGetNeare
 
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
-		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		props, err := unmarshalProperties(v)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -99,8 +99,7 @@ func (s *Handler) FaveGetNearestDocumentsByVectorHandler(request operations.Fave
 
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
-		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		props, err := unmarshalProperties(v)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsByVectorBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -129,8 +128,7 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 	if err != nil {
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
-	props := map[string]interface{}{}
-	err = json.Unmarshal(documentRaw, &props)
+	props, err := unmarshalProperties(documentRaw)
 	if err != nil {
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
@@ -143,3 +141,15 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 
 	return operations.NewGetDocumentsOK().WithPayload(d)
 }
+
+// unmarshalProperties keeps numbers as they were given, a float64 would round
+// those with many digits.
+func unmarshalProperties(data []byte) (map[string]interface{}, error) {
+	props := map[string]interface{}{}
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&props); err != nil {
+		return nil, err
+	}
+	return props, nil
+}
-- 
2.43.0


From 0128cacfb2d59466a2d976c2d49b9c7e82686842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:25 +0000
Subject: [PATCH 30/31] fix: switch to a new commit log file even within the
 second the old one was started

---
 pkg/hnsw/commit_logger.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/commit_logger.go b/pkg/hnsw/commit_logger.go
index 0c3eb65..d581257 100644
--- a/pkg/hnsw/commit_logger.go
+++ b/pkg/hnsw/commit_logger.go
@@ -511,8 +511,13 @@ func (l *hnswCommitLogger) switchCommitLogs(force bool) (bool, error) {
 		return true, err
 	}
 
-	// this is a new commit log, initialize with the current time stamp
-	fileName := fmt.Sprintf("%d", time.Now().Unix())
+	// this is a new commit log, initialize with the current time stamp, unless
+	// the old one is from this very second
+	timeStamp := time.Now().Unix()
+	if old, err := asTimeStamp(oldFileName); err == nil && timeStamp <= old {
+		timeStamp = old + 1
+	}
+	fileName := fmt.Sprintf("%d", timeStamp)
 
 	if force {
 		l.logger.WithField("action", "commit_log_file_switched").
-- 
2.43.0


From 6a3686c964cddbffecd069faf157abf07a5fd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:12 +0000
Subject: [PATCH 31/31] fix: after combining commit logs was interrupted, do
 not read the second file twice

---
 pkg/hnsw/commit_log_combiner.go       |  6 ++-
 pkg/hnsw/corrupt_commit_logs_fixer.go | 59 ++++++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/commit_log_combiner.go b/pkg/hnsw/commit_log_combiner.go
index 29003a4..aa11fa5 100644
--- a/pkg/hnsw/commit_log_combiner.go
+++ b/pkg/hnsw/commit_log_combiner.go
@@ -127,7 +127,9 @@ func (c *CommitLogCombiner) combine(first, second string) error {
 		return errors.Wrap(err, "merge files")
 	}
 
-	if err := c.renameAndCleanUp(tmpName, finalName, first, second); err != nil {
+	// the first file goes last: as long as it is there the corrupted file fixer
+	// can tell that the second one is part of the combined file
+	if err := c.renameAndCleanUp(tmpName, finalName, second, first); err != nil {
 		return errors.Wrap(err, "rename and clean up files")
 	}
 
@@ -187,7 +189,7 @@ func (c *CommitLogCombiner) renameAndCleanUp(tmpName, finalName string,
 	// with duplicate files both with and without the ".condensed" suffix. The
 	// new (and complete) merged file will not carry the suffix whereas the
 	// sources will. This will look to the corrupted file fixer as if a
-	// condensing had gone wrong and will delete the the source
+	// condensing had gone wrong and will delete the the sources
 
 	if err := os.Rename(tmpName, finalName); err != nil {
 		return errors.Wrapf(err, "rename tmp (%q) to final (%q)", tmpName, finalName)
diff --git a/pkg/hnsw/corrupt_commit_logs_fixer.go b/pkg/hnsw/corrupt_commit_logs_fixer.go
index e41eebf..1a06fdc 100644
--- a/pkg/hnsw/corrupt_commit_logs_fixer.go
+++ b/pkg/hnsw/corrupt_commit_logs_fixer.go
@@ -12,6 +12,7 @@
 package hnsw
 
 import (
+	"bytes"
 	"os"
 	"strings"
 
@@ -40,11 +41,21 @@ func NewCorruptedCommitLogFixer(logger logrus.FieldLogger) *CorruptCommitLogFixe
 // successful condensing would have been succeeded by the removal of the
 // original file. We thus assume the file must be corrupted, and delete it, so
 // that the original will be used instead.
+//
+// If combining this file with the next one was interrupted after the combined
+// file got its final name, the next file is deleted as well: its contents are
+// part of the combined file and would otherwise be read twice.
 func (fixer *CorruptCommitLogFixer) Do(fileNames []string) ([]string, error) {
 	out := make([]string, len(fileNames))
 
 	i := 0
-	for _, fileName := range fileNames {
+	combined := ""
+	for pos, fileName := range fileNames {
+		if fileName == combined {
+			// already deleted
+			continue
+		}
+
 		if !strings.HasSuffix(fileName, ".condensed") {
 			// has no suffix, so it can never be considered corrupt
 			out[i] = fileName
@@ -60,6 +71,22 @@ func (fixer *CorruptCommitLogFixer) Do(fileNames []string) ([]string, error) {
 			continue
 		}
 
+		if pos+1 < len(fileNames) && strings.HasSuffix(fileNames[pos+1], ".condensed") {
+			next := fileNames[pos+1]
+			ok, err := isConcatenation(strings.TrimSuffix(fileName, ".condensed"), fileName, next)
+			if err != nil {
+				return out, errors.Wrapf(err, "compare commit log file %q", fileName)
+			}
+
+			if ok {
+				// the next file goes first, so that this can be repeated if interrupted
+				if err := os.Remove(next); err != nil {
+					return out, errors.Wrapf(err, "delete combined commit log file %q", next)
+				}
+				combined = next
+			}
+		}
+
 		// we have found a corrupt file, delete it and do not append it to the list
 		if err := os.Remove(fileName); err != nil {
 			return out, errors.Wrapf(err, "delete corrupt commit log file %q", fileName)
@@ -69,6 +96,36 @@ func (fixer *CorruptCommitLogFixer) Do(fileNames []string) ([]string, error) {
 	return out[:i], nil
 }
 
+// isConcatenation tells whether a file holds what the files first and
+// second hold, one after the other
+func isConcatenation(whole, first, second string) (bool, error) {
+	sizes := [3]int64{}
+	for i, name := range []string{whole, first, second} {
+		stat, err := os.Stat(name)
+		if err != nil {
+			return false, err
+		}
+		sizes[i] = stat.Size()
+	}
+	if sizes[0] != sizes[1]+sizes[2] {
+		return false, nil
+	}
+
+	all, err := os.ReadFile(whole)
+	if err != nil {
+		return false, err
+	}
+	head, err := os.ReadFile(first)
+	if err != nil {
+		return false, err
+	}
+	tail, err := os.ReadFile(second)
+	if err != nil {
+		return false, err
+	}
+	return bytes.HasPrefix(all, head) && bytes.Equal(all[len(head):], tail), nil
+}
+
 func (fixer *CorruptCommitLogFixer) listContains(haystack []string,
 	needle string,
 ) bool {
-- 
2.43.0

