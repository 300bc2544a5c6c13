From ef3a0d0c387c11a02d2fd767cb26db629db5bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 01/33] fix: max-distance search drops matches whose distance
 rounds below zero and returns surplus distances

---
 pkg/hnsw/search_with_max_dist.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..55eaa3f 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -71,9 +71,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
-		if elem.Dist < 0 {
-			continue
-		}
 		if elem.Dist > dist {
 			break
 		}
@@ -83,5 +80,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From 94a59c2bc5e4a9fd9bec3e6d1d4e4e5bb6e4c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 02/33] fix: vectorizer error status is reported instead of a
 nil vector

---
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..4a66fd6 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, errors.Wrapf(ErrServiceUnavailable, "vectorizer responded with status %d", resp.StatusCode)
 	}
 
 	var result map[string][]float32
-- 
2.43.0


From d02150498d162c11d1b1b5ebd284c9a29d657a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 03/33] fix: null documents, null indexes and non-object
 properties are rejected instead of crashing the request

---
 adapters/handlers/collections.go | 3 +++
 adapters/handlers/documents.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..8634de8 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index cannot be null"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..228268a 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be null"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document properties should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
-- 
2.43.0


From 95989307fed3a9b63b8422533461a097728a615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:09 +0000
Subject: [PATCH 04/33] fix: document operations report a missing login, pod or
 index list instead of crashing

---
 pkg/document/document.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..d151fd5 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -153,6 +153,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	if col.Indexes == nil {
+		col.Indexes = map[string]collection.IndexType{}
+	}
 	col.Indexes[hnswIndexName] = collection.NumberIndex
 
 	namespacedCollection := namespace + col.Name
@@ -285,6 +288,12 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 }
 
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	if c.sessionId == "" {
+		return dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 
 	// check if kv and doc table is open or not
@@ -454,6 +463,12 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
+	if c.sessionId == "" {
+		return nil, nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, nil, dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -555,6 +570,12 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	if c.sessionId == "" {
+		return nil, nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, nil, dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 
 	kvStore := c.podInfo.GetKVStore()
-- 
2.43.0


From 842cbfaf2cc5db1ee5e5b26b4408a6c0aaef697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:09 +0000
Subject: [PATCH 05/33] fix: vector operations after a document lookup opened
 the collection no longer crash

---
 pkg/document/document.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index d151fd5..d40e61d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -309,7 +309,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	if !docIsOpen {
+	c.hnswLock.RLock()
+	_, indexLoaded := c.indices[namespacedCollection]
+	c.hnswLock.RUnlock()
+	if !docIsOpen || !indexLoaded {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -336,9 +339,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		c.hnswLock.Lock()
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
+		if !docIsOpen {
+			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
@@ -482,7 +487,10 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
+	c.hnswLock.RLock()
+	_, indexLoaded := c.indices[namespacedCollection]
+	c.hnswLock.RUnlock()
+	if !docIsOpen || !indexLoaded {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -509,9 +517,11 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		c.hnswLock.Lock()
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
+		if !docIsOpen {
+			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+			if err != nil {
+				return nil, nil, err
+			}
 		}
 	}
 	if c.lookup == nil {
@@ -590,7 +600,10 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
+	c.hnswLock.RLock()
+	_, indexLoaded := c.indices[namespacedCollection]
+	c.hnswLock.RUnlock()
+	if !docIsOpen || !indexLoaded {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -617,9 +630,11 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		c.hnswLock.Lock()
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
+		if !docIsOpen {
+			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+			if err != nil {
+				return nil, nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From c87de1f6b79e642cf19ca6cb5966929c085a84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 06/33] fix: grow the vector cache for node ids beyond its
 initial 25000 slots

---
 pkg/hnsw/maintainance.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/hnsw/maintainance.go b/pkg/hnsw/maintainance.go
index 891485a..0f8e126 100644
--- a/pkg/hnsw/maintainance.go
+++ b/pkg/hnsw/maintainance.go
@@ -56,6 +56,14 @@ func (h *hnsw) growIndexToAccomodateNode(id uint64, logger logrus.FieldLogger) e
 	//
 	//h.nodes = newIndex
 
+	// nodes live in the key-value store, but the vector caches are still slices
+	// indexed by node id
+	if h.compressed.Load() {
+		h.compressedVectorsCache.grow(id)
+	} else {
+		h.cache.grow(id)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b52a0c2d027c87faba3e0191a6acd4e8caac41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 07/33] fix: keep the visited list grown while registering
 entrypoints, so large ids are not returned twice

---
 pkg/hnsw/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
-- 
2.43.0


From ca6b2b6c09caba8a6c0de075da1f81d05f31ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:38 +0000
Subject: [PATCH 08/33] fix: neighbour selection falls back to the vector
 stored with the node

---
 pkg/hnsw/index.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..0c0b6d9 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -229,12 +229,27 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	// the vector source may only know recently added vectors (e.g. it is empty
+	// after a restart), fall back to the vector stored with the node
+	var index *hnsw
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		vec, err := cfg.VectorForIDThunk(ctx, id)
+		var notFound storobj.ErrNotFound
+		if err == nil || errors.As(err, &notFound) {
+			return vec, err
+		}
+		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
+			return node.Vector, nil
+		}
+		return nil, err
+	}
+
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
-- 
2.43.0


From 6a025906f0fc28eaa8ee764dfef78d4057ea0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:38 +0000
Subject: [PATCH 09/33] fix: near search rejects negative limits, and text
 search without a limit returns all matches

---
 pkg/document/document.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index d40e61d..05675e4 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -474,6 +474,9 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if c.podInfo == nil {
 		return nil, nil, dfs.ErrPodNotOpen
 	}
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit must not be negative")
+	}
 	namespacedCollection := namespace + collection
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -538,7 +541,11 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
+	ef := 800
+	if limit > ef {
+		ef = limit
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, ef, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -586,6 +593,9 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if c.podInfo == nil {
 		return nil, nil, dfs.ErrPodNotOpen
 	}
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit must not be negative")
+	}
 	namespacedCollection := namespace + collection
 
 	kvStore := c.podInfo.GetKVStore()
-- 
2.43.0


From 9cfa0d4b742ba572829c03c590a6b9f909fefda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:23 +0000
Subject: [PATCH 10/33] fix: concurrent AddDocuments calls no longer assign the
 same index id twice

---
 pkg/document/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 05675e4..7c259d0 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -38,6 +38,7 @@ type Config struct {
 type Client struct {
 	lock          sync.Mutex
 	hnswLock      sync.RWMutex
+	addLock       sync.Mutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
 	pod           string
@@ -294,6 +295,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	// index ids are assigned from the stored document count, so batches must not
+	// overlap
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+
 	namespacedCollection := namespace + collection
 
 	// check if kv and doc table is open or not
-- 
2.43.0


From 92c9de66fe7548b62b982b6dcc8364b4487ff168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:27 +0000
Subject: [PATCH 11/33] fix: a failed read of the document count no longer
 restarts index ids at zero

---
 pkg/document/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 7c259d0..c2ec098 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -29,6 +29,9 @@ const (
 	namespace     = "fave_"
 )
 
+// errNoDocCount is returned for a collection that was never flushed
+var errNoDocCount = collection.ErrEntryNotFound
+
 // Config for fairOS-dfs
 type Config struct {
 	Verbose       bool
@@ -358,6 +361,9 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
+		if !errors.Is(err, errNoDocCount) {
+			return err
+		}
 		count = 0
 	}
 
-- 
2.43.0


From 0aa1caf0921fedac1604630463ef10c7eb168aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:52 +0000
Subject: [PATCH 12/33] fix: AddDocuments reports documents it could not store
 or index, and keeps index ids of the stored ones

---
 pkg/document/document.go | 79 ++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c2ec098..5d0c20f 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -368,8 +368,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 
 	indexId := count
+	var addErr error
+addLoop:
 	for _, doc := range documents {
 		doc.Properties["id"] = doc.ID
+		var vector []float32
 
 		//check if vector is already present in the properties
 		if doc.Properties["vector"] != nil {
@@ -377,7 +380,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
 
-				vector := make([]float32, len(slice))
+				vector = make([]float32, len(slice))
 				for j, v := range slice {
 					var result float32
 
@@ -385,7 +388,8 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					case json.Number:
 						f64Val, err := value.Float64()
 						if err != nil {
-							return fmt.Errorf("vector is not []float32")
+							addErr = fmt.Errorf("vector is not []float32")
+							break addLoop
 						} else {
 							result = float32(f64Val)
 						}
@@ -394,31 +398,18 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					case float64:
 						result = float32(value)
 					default:
-						return fmt.Errorf("vector is not []float32")
+						addErr = fmt.Errorf("vector is not []float32")
+						break addLoop
 					}
 					vector[j] = result
 				}
 				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
-
-				indexId++
 			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
 				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
-
-				indexId++
+				vector = slice
 			} else {
-				return fmt.Errorf("vector format is now supported")
+				addErr = fmt.Errorf("vector format is now supported")
+				break addLoop
 			}
 		} else {
 			// vectorize the properties
@@ -427,47 +418,65 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			for _, property := range propertiesToIndex {
 				dt, ok := doc.Properties[property]
 				if ok {
-					vectorData += dt.(string) + " "
+					text, ok := dt.(string)
+					if !ok {
+						addErr = fmt.Errorf("property %s is not a string", property)
+						break addLoop
+					}
+					vectorData += text + " "
 				}
 			}
 
 			if vectorData != "" {
 				if c.lookup == nil {
-					return fmt.Errorf("vectorizer is not initialized")
+					addErr = fmt.Errorf("vectorizer is not initialized")
+					break addLoop
 				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
+				corpi, err := c.lookup.Corpi([]string{vectorData})
 				if err != nil {
 					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
+					addErr = err
+					break addLoop
 				}
 
 				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
-
-				indexId++
+				vector = corpi.ToArray()
 			} else {
 				doc.Properties[hnswIndexName] = -1
 			}
 		}
+		if doc.Properties[hnswIndexName] != -1 && len(vector) == 0 {
+			addErr = fmt.Errorf("vector is empty")
+			break
+		}
 
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			addErr = err
+			break
 		}
 
 		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
 		if err != nil {
 			c.logger.Errorf("DocPut failed :%v\n", err.Error())
-			return err
+			addErr = err
+			break
+		}
+		if vector != nil {
+			id := indexId
+			indexId++
+			err = index.Add(id, vector)
+			if err != nil {
+				c.logger.Errorf("index.Add failed :%s\n", err.Error())
+				addErr = err
+				break
+			}
+			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id), vector)
 		}
 		fmt.Println("added document", indexId)
 	}
+	// documents stored before a failure keep their index ids
 	err = index.Flush(indexId)
 	if err != nil {
 		return err
@@ -476,7 +485,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	return nil
+	return addErr
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-- 
2.43.0


From af593763ad68336c1d11afadf1dc851cce3282ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:30 +0000
Subject: [PATCH 13/33] fix: flushing an empty index no longer makes the first
 vector its own neighbour

---
 pkg/hnsw/insert.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..cf0a59c 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -117,6 +117,11 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 
 func (h *hnsw) Flush(docCount uint64) error {
 	keys := h.indexCache.Keys()
+	if len(keys) == 0 && h.isEmpty() {
+		// nothing was added yet, storing an entrypoint would make the index look
+		// populated and the first node would be linked to itself
+		return nil
+	}
 	for _, key := range keys {
 		iNode, ok := h.indexCache.Get(key)
 		if !ok {
-- 
2.43.0


From a49bc16d933f8f63d82e6c09d910c6924f133701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:42 +0000
Subject: [PATCH 14/33] fix: a near search in an empty collection returns no
 documents instead of an error

---
 pkg/hnsw/search_with_max_dist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 55eaa3f..589d943 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,6 +27,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if h.isEmpty() && h.indexCache.Len() == 0 {
+		return nil, nil, nil
+	}
 	entryPointID := h.entryPointID
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
-- 
2.43.0


From 7801d9ea45752021e0ac96c4126bb08e0faa17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:39 +0000
Subject: [PATCH 15/33] fix: distance search returns each vector once when
 vectors at a page boundary are equally far

---
 pkg/hnsw/search.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a8c6619..afa8dfe 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -113,12 +113,17 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		offsetCap := searchParams.offsetCapacity(ids)
 		totalLimitCap := searchParams.totalLimitCapacity(ids)
 
-		ids, dist = ids[offsetCap:totalLimitCap], dist[offsetCap:totalLimitCap]
-
-		if len(ids) == 0 {
+		if offsetCap == totalLimitCap {
+			// nothing beyond what the previous search covered
 			return false, nil
 		}
 
+		// vectors at the same distance can come back in a different order than in
+		// the previous search, so the results are not paged together by offset,
+		// but taken from the larger search as a whole
+		ids, dist = ids[:totalLimitCap], dist[:totalLimitCap]
+		resultIDs, resultDist = resultIDs[:0], resultDist[:0]
+
 		lastFound := dist[len(dist)-1]
 		shouldContinue = lastFound <= targetDistance
 
-- 
2.43.0


From c6bd03f7bebb7d17317be8774360dda0906843ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:34 +0000
Subject: [PATCH 16/33] fix: nodes evicted from the node cache before they are
 stored are no longer lost

---
 pkg/hnsw/index.go                | 46 +++++++++++++++++++++++++++++++-
 pkg/hnsw/insert.go               | 13 +++++----
 pkg/hnsw/neighbor_connections.go |  2 ++
 3 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 0c0b6d9..4c64933 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math"
 	"math/rand"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -157,6 +158,11 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// nodes with changes that are not stored yet, the indexCache may evict them
+	// before the next Flush
+	uncommitted     map[uint64]*vertex
+	uncommittedLock sync.Mutex
 }
 
 type CommitLogger interface {
@@ -289,7 +295,8 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		compressActionLock: &sync.RWMutex{},
 		className:          cfg.ClassName,
 
-		indexCache: indexCache,
+		indexCache:  indexCache,
+		uncommitted: map[uint64]*vertex{},
 	}
 
 	index.tombstoneCleanupCycle = cyclemanager.New(
@@ -621,6 +628,9 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("Value is not a vertex.")
 			return nil
 		}
+	} else if node, ok := h.uncommittedNode(id); ok {
+		h.indexCache.Add(id, node)
+		return node
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
@@ -637,6 +647,40 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	}
 }
 
+func (h *hnsw) addUncommittedNode(node *vertex) {
+	h.uncommittedLock.Lock()
+	defer h.uncommittedLock.Unlock()
+
+	h.uncommitted[node.Id] = node
+}
+
+func (h *hnsw) uncommittedNode(id uint64) (*vertex, bool) {
+	h.uncommittedLock.Lock()
+	defer h.uncommittedLock.Unlock()
+
+	node, ok := h.uncommitted[id]
+	return node, ok
+}
+
+func (h *hnsw) removeUncommittedNode(id uint64) {
+	h.uncommittedLock.Lock()
+	defer h.uncommittedLock.Unlock()
+
+	delete(h.uncommitted, id)
+}
+
+func (h *hnsw) uncommittedIDs() []uint64 {
+	h.uncommittedLock.Lock()
+	defer h.uncommittedLock.Unlock()
+
+	ids := make([]uint64, 0, len(h.uncommitted))
+	for id := range h.uncommitted {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
+	return ids
+}
+
 func (h *hnsw) Drop(ctx context.Context) error {
 	// cancel tombstone cleanup goroutine
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index cf0a59c..697c94f 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -101,6 +101,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
+	h.addUncommittedNode(node)
 	h.indexCache.Add(node.Id, node)
 
 	if h.compressed.Load() {
@@ -116,19 +117,15 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
-	keys := h.indexCache.Keys()
+	keys := h.uncommittedIDs()
 	if len(keys) == 0 && h.isEmpty() {
 		// nothing was added yet, storing an entrypoint would make the index look
 		// populated and the first node would be linked to itself
 		return nil
 	}
 	for _, key := range keys {
-		iNode, ok := h.indexCache.Get(key)
-		if !ok {
-			continue
-		}
-		node := iNode.(*vertex)
-		if node.Committed {
+		node, ok := h.uncommittedNode(key)
+		if !ok || node.Committed {
 			continue
 		}
 		nodeBytes, err := json.Marshal(node)
@@ -140,6 +137,7 @@ func (h *hnsw) Flush(docCount uint64) error {
 			return errors.Wrapf(err, "put node %d", node.Id)
 		}
 		node.Committed = true
+		h.removeUncommittedNode(node.Id)
 		h.indexCache.Add(node.Id, node)
 	}
 	ep := &entrypoint{
@@ -273,6 +271,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
+	h.addUncommittedNode(node)
 	h.indexCache.Add(node.Id, node)
 
 	h.insertMetrics.prepareAndInsertNode(before)
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..eed8608 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -65,6 +65,7 @@ func (n *neighborFinderConnector) Do() error {
 		}
 	}
 
+	n.graph.addUncommittedNode(n.node)
 	n.graph.indexCache.Add(n.node.Id, n.node)
 
 	return nil
@@ -146,6 +147,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	neighbor.Lock()
 	defer neighbor.Unlock()
 	neighbor.Committed = false
+	n.graph.addUncommittedNode(neighbor)
 	if level > neighbor.Level {
 		// upgrade neighbor Level if the Level is out of sync due to a delete re-assign
 		neighbor.upgradeToLevelNoLock(level)
-- 
2.43.0


From 11a04c9f2ca70e063f0fe538ba1c200238cb2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:06 +0000
Subject: [PATCH 17/33] fix: requests that open a collection at the same time
 share one index instead of failing

---
 pkg/document/document.go | 177 +++++++++++----------------------------
 1 file changed, 50 insertions(+), 127 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 5d0c20f..a3619a5 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -42,6 +42,7 @@ type Client struct {
 	lock          sync.Mutex
 	hnswLock      sync.RWMutex
 	addLock       sync.Mutex
+	openLock      sync.Mutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
 	pod           string
@@ -291,19 +292,11 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	if c.sessionId == "" {
-		return dfs.ErrUserNotLoggedIn
-	}
-	if c.podInfo == nil {
-		return dfs.ErrPodNotOpen
-	}
-	// index ids are assigned from the stored document count, so batches must not
-	// overlap
-	c.addLock.Lock()
-	defer c.addLock.Unlock()
-
-	namespacedCollection := namespace + collection
+// openCollection opens the tables of a collection and loads its index, unless
+// that is done already. Requests that arrive at the same time get the same index.
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 
 	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
@@ -311,15 +304,15 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	c.hnswLock.RLock()
-	_, indexLoaded := c.indices[namespacedCollection]
+	index, indexLoaded := c.indices[namespacedCollection]
 	c.hnswLock.RUnlock()
 	if !docIsOpen || !indexLoaded {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
@@ -330,7 +323,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 
 		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
+		index, err = h.New(h.Config{
 			RootPath:              "not-used",
 			ID:                    "not-used",
 			MakeCommitLoggerThunk: makeCL,
@@ -342,7 +335,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			EFConstruction: 60,
 		}, kvStore)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.hnswLock.Lock()
@@ -351,14 +344,32 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		if !docIsOpen {
 			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
 			if err != nil {
-				return err
+				return nil, err
 			}
 		}
 	}
 
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
+	return index, nil
+}
+
+func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	if c.sessionId == "" {
+		return dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return dfs.ErrPodNotOpen
+	}
+	// index ids are assigned from the stored document count, so batches must not
+	// overlap
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+
+	namespacedCollection := namespace + collection
+
+	index, err := c.openCollection(namespacedCollection)
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		if !errors.Is(err, errNoDocCount) {
@@ -499,55 +510,10 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, fmt.Errorf("limit must not be negative")
 	}
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.RLock()
-	_, indexLoaded := c.indices[namespacedCollection]
-	c.hnswLock.RUnlock()
-	if !docIsOpen || !indexLoaded {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		if !docIsOpen {
-			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-			if err != nil {
-				return nil, nil, err
-			}
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -555,9 +521,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -619,59 +582,11 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	}
 	namespacedCollection := namespace + collection
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.RLock()
-	_, indexLoaded := c.indices[namespacedCollection]
-	c.hnswLock.RUnlock()
-	if !docIsOpen || !indexLoaded {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
 
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		if !docIsOpen {
-			err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-			if err != nil {
-				return nil, nil, err
-			}
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -717,17 +632,25 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	return documents, dists, nil
 }
 
-func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
-	namespacedCollection := namespace + collection
+func (c *Client) openDocuments(namespacedCollection string) error {
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
+
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-		return nil, err
+		return err
 	}
 	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
+		return c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+	}
+	return nil
+}
+
+func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
+	namespacedCollection := namespace + collection
+	err := c.openDocuments(namespacedCollection)
+	if err != nil {
+		return nil, err
 	}
 
 	expr := ""
-- 
2.43.0


From 134df4d38874e9dfaf5c7775413503de05b46962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:27 +0000
Subject: [PATCH 18/33] fix: a node loaded by a search no longer replaces the
 copy an addition is changing

---
 pkg/hnsw/index.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 4c64933..9651926 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -642,7 +642,12 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("nodeByID: could not Unmarshal node", err)
 			return nil
 		}
-		h.indexCache.Add(id, v)
+		// keep the copy another request may have cached, and changed, meanwhile
+		if cached, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			if vertexValue, ok := cached.(*vertex); ok {
+				return vertexValue
+			}
+		}
 		return v
 	}
 }
-- 
2.43.0


From 107a618d191e347927673ccb6f27411d48a4d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 19/33] fix: creating or deleting a collection waits for
 documents being added to it

---
 pkg/document/document.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index a3619a5..c55584c 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -151,6 +151,11 @@ func (c *Client) OpenPod(pod string) error {
 func (c *Client) CreateCollection(col *Collection) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	// not while documents are added, they would go to the index replaced here
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -218,6 +223,11 @@ func (c *Client) CreateCollection(col *Collection) error {
 func (c *Client) DeleteCollection(collection string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	// not while documents are added, they would go to the index replaced here
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
-- 
2.43.0


From 97a4026acda55b714d3308a8ad1f746655f631e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:16 +0000
Subject: [PATCH 20/33] fix: a search no longer resets the entry point while
 documents are added

---
 pkg/hnsw/index.go                | 13 +++++++++++++
 pkg/hnsw/insert.go               | 23 +++++++++++++++--------
 pkg/hnsw/search.go               |  4 ++--
 pkg/hnsw/search_with_max_dist.go |  4 ++--
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 9651926..7ca8bd9 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -76,6 +76,10 @@ type hnsw struct {
 	// this point is always currentMaximumLayer
 	entryPointID uint64
 
+	// the entry point was loaded from the store or set since, so what is in the
+	// store is not newer
+	entryPointKnown bool
+
 	// ef parameter used in construction phases, should be higher than ef during querying
 	efConstruction int
 
@@ -738,6 +742,15 @@ func (h *hnsw) Shutdown(ctx context.Context) error {
 
 	return nil
 }
+
+// entrypointAndLayer returns the entry point and the layer it is on
+func (h *hnsw) entrypointAndLayer() (uint64, int) {
+	h.RLock()
+	defer h.RUnlock()
+
+	return h.entryPointID, h.currentMaximumLayer
+}
+
 func (h *hnsw) Entrypoint() uint64 {
 	h.RLock()
 	defer h.RUnlock()
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 697c94f..32c2f9f 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -86,6 +86,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	}
 
 	h.entryPointID = node.Id
+	h.entryPointKnown = true
 	h.currentMaximumLayer = 0
 	node.Connections = [][]uint64{
 		make([]uint64, 0, h.maximumConnectionsLayerZero),
@@ -141,15 +142,15 @@ func (h *hnsw) Flush(docCount uint64) error {
 		h.indexCache.Add(node.Id, node)
 	}
 	ep := &entrypoint{
-		ID: h.entryPointID,
+		ID: h.Entrypoint(),
 	}
 	epBytes, err := json.Marshal(ep)
 	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal entrypoint %d", ep.ID)
 	}
 	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "put entrypoint %d", ep.ID)
 	}
 
 	c := &count{
@@ -157,11 +158,11 @@ func (h *hnsw) Flush(docCount uint64) error {
 	}
 	cBytes, err := json.Marshal(c)
 	if err != nil {
-		return errors.Wrapf(err, "marshal count %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal count %d", docCount)
 	}
 	err = h.nodes.KVPut(h.className, countKey, cBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put count %d", h.entryPointID)
+		return errors.Wrapf(err, "put count %d", docCount)
 	}
 	return h.commitLog.Flush()
 }
@@ -169,7 +170,7 @@ func (h *hnsw) Flush(docCount uint64) error {
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
 	if err != nil {
-		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
+		return 0, errors.Wrapf(err, "put count %d", h.Entrypoint())
 	}
 
 	c := &count{}
@@ -182,9 +183,13 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
+	if h.entryPointKnown {
+		// an addition may have moved it and not stored it yet
+		return nil
+	}
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
 		h.entryPointID = 0
@@ -198,6 +203,7 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
+	h.entryPointKnown = true
 	return nil
 }
 
@@ -307,6 +313,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		}
 
 		h.entryPointID = nodeId
+		h.entryPointKnown = true
 		h.currentMaximumLayer = targetLevel
 	}
 	h.Unlock()
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index afa8dfe..2b597c1 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -472,7 +472,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	if h.isEmpty() {
 		return nil, nil, nil
 	}
-	entryPointID := h.entryPointID
+	entryPointID, maximumLayer := h.entrypointAndLayer()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -482,7 +482,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 			"it has been flagged for cleanup and should be fixed in the next cleanup cycle")
 	}
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(10)
 		eps.Insert(entryPointID, entryPointDistance)
 		res, err := h.searchLayerByVector(searchVec, eps, 1, level, nil)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 589d943..fd4fca6 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -30,7 +30,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	if h.isEmpty() && h.indexCache.Len() == 0 {
 		return nil, nil, nil
 	}
-	entryPointID := h.entryPointID
+	entryPointID, maximumLayer := h.entrypointAndLayer()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -41,7 +41,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(1)
 		eps.Insert(entryPointID, entryPointDistance)
 		// ignore allowList on layers > 0
-- 
2.43.0


From 301f87d7e45c6a4457bab9233b550777e1c812fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:58 +0000
Subject: [PATCH 21/33] fix: report a collection that could not be deleted

DeleteCollection logged the errors of the storage and reported success.
---
 pkg/document/document.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c55584c..04f53bd 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -32,6 +32,12 @@ const (
 // errNoDocCount is returned for a collection that was never flushed
 var errNoDocCount = collection.ErrEntryNotFound
 
+// errNoDocDB and errNoKVTable mean that there is nothing left to delete
+var (
+	errNoDocDB   = collection.ErrDocumentDBNotPresent
+	errNoKVTable = collection.ErrKVTableNotPresent
+)
+
 // Config for fairOS-dfs
 type Config struct {
 	Verbose       bool
@@ -237,6 +243,7 @@ func (c *Client) DeleteCollection(collection string) error {
 
 	namespacedCollection := namespace + collection
 
+	var docErr, kvErr error
 	wg := sync.WaitGroup{}
 	wg.Add(2)
 	go func() {
@@ -244,6 +251,9 @@ func (c *Client) DeleteCollection(collection string) error {
 		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
 		if err != nil {
 			c.logger.Errorf("delete collection failed :%s\n", err.Error())
+			if !errors.Is(err, errNoDocDB) {
+				docErr = err
+			}
 		}
 	}()
 
@@ -254,13 +264,19 @@ func (c *Client) DeleteCollection(collection string) error {
 		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
 		if err != nil {
 			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+			if !errors.Is(err, errNoKVTable) {
+				kvErr = err
+			}
 		}
 	}()
 	wg.Wait()
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	if docErr != nil {
+		return docErr
+	}
+	return kvErr
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From 8c313420a0e9233015e4ad0b9948e185a367c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:42 +0000
Subject: [PATCH 22/33] fix: keep the pods and users a client switches between
 apart

Opening another pod kept the indices and vectors of the pod used before, a
pod that could not be opened was used half way, and a new login kept using
the pod of the earlier one.
---
 pkg/document/document.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 04f53bd..6a764d5 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -115,27 +115,37 @@ func (c *Client) Login(username, password string) error {
 	if err != nil {
 		return err
 	}
-	c.sessionId = ui.UserInfo.GetSessionId()
+	sessionId := ui.UserInfo.GetSessionId()
+	if sessionId != c.sessionId {
+		// a pod has to be opened in the new session
+		c.podInfo = nil
+	}
+	c.sessionId = sessionId
 	return nil
 }
 
 func (c *Client) OpenPod(pod string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	c.pod = pod
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
-	if !c.api.IsPodExist(c.pod, c.sessionId) {
-		_, err := c.api.CreatePod(c.pod, c.sessionId)
+	if !c.api.IsPodExist(pod, c.sessionId) {
+		_, err := c.api.CreatePod(pod, c.sessionId)
 		if err != nil {
 			return err
 		}
 	}
-	pi, err := c.api.OpenPod(c.pod, c.sessionId)
+	pi, err := c.api.OpenPod(pod, c.sessionId)
 	if err != nil {
 		return err
 	}
+	// the loaded indices and vectors belong to the pod used before
+	c.hnswLock.Lock()
+	c.indices = map[string]h.VectorIndex{}
+	c.hnswLock.Unlock()
+	c.documentCache.Purge()
+	c.pod = pod
 	c.podInfo = pi
 
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
-- 
2.43.0


From d43c2d7a88de6bd2f9e91a23bd30c8bc147ac705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:31 +0000
Subject: [PATCH 23/33] fix: normalize vectors with very large or very small
 components

The sum of squares overflowed or underflowed float32, and the vector became
zero. Insertion used the same function of weaviate; it now uses this one, as
the search by distance does.
---
 pkg/hnsw/distancer/normalize.go | 9 +++++----
 pkg/hnsw/insert.go              | 2 +-
 pkg/hnsw/search.go              | 3 ++-
 pkg/hnsw/vector_cache.go        | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/distancer/normalize.go b/pkg/hnsw/distancer/normalize.go
index 48abb2f..fd080b1 100644
--- a/pkg/hnsw/distancer/normalize.go
+++ b/pkg/hnsw/distancer/normalize.go
@@ -14,18 +14,19 @@ package distancer
 import "math"
 
 func Normalize(v []float32) []float32 {
-	var norm float32
+	// the squares of large or small components do not fit a float32
+	var norm float64
 	out := make([]float32, len(v))
 	for i := range v {
-		norm += v[i] * v[i]
+		norm += float64(v[i]) * float64(v[i])
 	}
 	if norm == 0 {
 		return out
 	}
 
-	norm = float32(math.Sqrt(float64(norm)))
+	norm = math.Sqrt(norm)
 	for i := range v {
-		out[i] = v[i] / norm
+		out[i] = float32(float64(v[i]) / norm)
 	}
 
 	return out
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 32c2f9f..2c2cfb7 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,9 +18,9 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
-	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
 )
 
 const (
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 2b597c1..5d4c057 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -18,6 +18,7 @@ import (
 	"sync"
 	"sync/atomic"
 
+	favedistancer "github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
 	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
 	"github.com/pkg/errors"
@@ -74,7 +75,7 @@ func (h *hnsw) SearchByVector(vector []float32, k int, allowList helpers.AllowLi
 	if h.distancerProvider.Type() == "cosine-dot" {
 		// cosine-dot requires normalized vectors, as the dot product and cosine
 		// similarity are only identical if the vector is normalized
-		vector = distancer.Normalize(vector)
+		vector = favedistancer.Normalize(vector)
 	}
 
 	flatSearchCutoff := int(atomic.LoadInt64(&h.flatSearchCutoff))
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..864b471 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -18,8 +18,8 @@ import (
 	"time"
 	"unsafe"
 
+	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
 	"github.com/sirupsen/logrus"
-	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
 )
 
 type shardedLockCache struct {
-- 
2.43.0


From 61fb7279eb0daca8c0b664e82eb208bfa67f04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:50 +0000
Subject: [PATCH 24/33] fix: refuse vectors with components beyond float32

Such a component became infinite, the stored vector not a number, and its
distances disturbed every later search.
---
 pkg/document/document.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 6a764d5..a3c3bcd 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -496,6 +497,12 @@ addLoop:
 			addErr = fmt.Errorf("vector is empty")
 			break
 		}
+		for _, v := range vector {
+			if f := float64(v); math.IsNaN(f) || math.IsInf(f, 0) {
+				addErr = fmt.Errorf("vector has a component that is not a finite float32")
+				break addLoop
+			}
+		}
 
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
-- 
2.43.0


From 435e65af36b3f5375c6bdc461de4abef1074adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:48 +0000
Subject: [PATCH 25/33] fix: give points opposite each other on the globe a
 distance

Rounding takes the haversine of opposite points slightly above one, and the
distance between them, the poles for instance, came out as NaN.
---
 pkg/hnsw/distancer/geo_spatial.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..7a99740 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -35,6 +35,11 @@ func geoDist(a, b []float32) (float32, bool, error) {
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
 
+	if A > 1 {
+		// rounding, for points opposite each other
+		A = 1
+	}
+
 	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
 
 	return float32(R * C), true, nil
-- 
2.43.0


From 6e8dd95633eb994c87a1585d783a96b950838fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 26/33] fix: answer a flat search for no results without a
 panic

A search for zero results over a short allow list read the top of an empty
heap.
---
 pkg/hnsw/flat_search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 141b7ce..315d7ad 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -19,6 +19,9 @@ import (
 func (h *hnsw) flatSearch(queryVector []float32, limit int,
 	allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
+	if limit <= 0 {
+		return nil, nil, nil
+	}
 	results := priorityqueue.NewMax(limit)
 
 	it := allowList.Iterator()
-- 
2.43.0


From 349f52a8eeb8bdbd9eca96ef7e0125b7b4727eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:41 +0000
Subject: [PATCH 27/33] fix: report a failed read of the emptiness or entry
 point of an index instead of taking it for empty

---
 pkg/hnsw/compress.go             |  8 ++++++--
 pkg/hnsw/delete.go               |  6 +++++-
 pkg/hnsw/index.go                | 12 +++++-------
 pkg/hnsw/insert.go               | 33 +++++++++++++++++++++++++-------
 pkg/hnsw/search.go               |  6 +++++-
 pkg/hnsw/search_with_max_dist.go |  6 +++++-
 6 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/pkg/hnsw/compress.go b/pkg/hnsw/compress.go
index dac2d08..4aa533b 100644
--- a/pkg/hnsw/compress.go
+++ b/pkg/hnsw/compress.go
@@ -38,10 +38,14 @@ func (h *hnsw) initCompressedStore() error {
 }
 
 func (h *hnsw) Compress(segments int, centroids int, useBitsEncoding bool, encoderType int, encoderDistribution int) error {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return err
+	}
+	if empty {
 		return errors.New("Compress command cannot be executed before inserting some data. Please, insert your data first.")
 	}
-	err := h.initCompressedStore()
+	err = h.initCompressedStore()
 	if err != nil {
 		return errors.Wrap(err, "Initializing compressed vector store")
 	}
diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 4d13c75..defb2ca 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -90,7 +90,11 @@ func (h *hnsw) resetIfEmpty() (empty bool, err error) {
 	defer h.Unlock()
 	defer h.resetLock.Unlock()
 
-	if h.isEmptyUnsecured() {
+	empty, err = h.isEmptyUnsecured()
+	if err != nil {
+		return false, err
+	}
+	if empty {
 		return true, h.resetUnsecured()
 	}
 	return false, nil
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 7ca8bd9..c1acbaa 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -602,19 +602,17 @@ func (h *hnsw) Stats() {
 	//}
 }
 
-func (h *hnsw) isEmpty() bool {
+func (h *hnsw) isEmpty() (bool, error) {
 	h.RLock()
 	defer h.RUnlock()
 
 	return h.isEmptyUnsecured()
 }
 
-func (h *hnsw) isEmptyUnsecured() bool {
-	isEmpty, err := h.nodes.IsEmpty(h.className)
-	if err != nil {
-		return true
-	}
-	return isEmpty
+// isEmptyUnsecured fails when the store can not be read, a collection must not
+// be taken for an empty one then
+func (h *hnsw) isEmptyUnsecured() (bool, error) {
+	return h.nodes.IsEmpty(h.className)
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 2c2cfb7..8ceecf4 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 )
@@ -37,7 +38,11 @@ type count struct {
 }
 
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return err
+	}
+	if empty {
 		return nil
 	}
 	// check if vector length is the same as existing nodes
@@ -119,10 +124,16 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 
 func (h *hnsw) Flush(docCount uint64) error {
 	keys := h.uncommittedIDs()
-	if len(keys) == 0 && h.isEmpty() {
-		// nothing was added yet, storing an entrypoint would make the index look
-		// populated and the first node would be linked to itself
-		return nil
+	if len(keys) == 0 {
+		empty, err := h.isEmpty()
+		if err != nil {
+			return err
+		}
+		if empty {
+			// nothing was added yet, storing an entrypoint would make the index look
+			// populated and the first node would be linked to itself
+			return nil
+		}
 	}
 	for _, key := range keys {
 		node, ok := h.uncommittedNode(key)
@@ -192,6 +203,9 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
+		if !errors.Is(err, collection.ErrEntryNotFound) {
+			return errors.Wrap(err, "get entrypoint")
+		}
 		h.entryPointID = 0
 		return nil
 	}
@@ -213,10 +227,15 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 
 	before := time.Now()
 
+	empty, err := h.isEmpty()
+	if err != nil {
+		return errors.Wrap(err, "check for the first element")
+	}
+
 	wasFirst := false
 	var firstInsertError error
 	h.initialInsertOnce.Do(func() {
-		if h.isEmpty() {
+		if empty {
 			wasFirst = true
 			firstInsertError = h.insertInitialElement(node, nodeVec)
 		}
@@ -260,7 +279,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 	// before = time.Now()
 	h.Lock()
 	// m.addBuildingLocking(before)
-	err := h.growIndexToAccomodateNode(node.Id, h.logger)
+	err = h.growIndexToAccomodateNode(node.Id, h.logger)
 	if err != nil {
 		h.Unlock()
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 5d4c057..69a296e 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -470,7 +470,11 @@ func (h *hnsw) handleDeletedNode(docID uint64) {
 func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return nil, nil, errors.Wrap(err, "knn search")
+	}
+	if empty {
 		return nil, nil, nil
 	}
 	entryPointID, maximumLayer := h.entrypointAndLayer()
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index fd4fca6..fbd645f 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,7 +27,11 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
-	if h.isEmpty() && h.indexCache.Len() == 0 {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return nil, nil, errors.Wrap(err, "knn search")
+	}
+	if empty && h.indexCache.Len() == 0 {
 		return nil, nil, nil
 	}
 	entryPointID, maximumLayer := h.entrypointAndLayer()
-- 
2.43.0


From f791281410e22ca49ab6d7868c7e977735bebe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:29 +0000
Subject: [PATCH 28/33] fix: report nodes that could not be read instead of
 leaving them out of searches and links

---
 pkg/hnsw/flat_search.go          |  6 ++++-
 pkg/hnsw/index.go                | 38 +++++++++++++++++++-------------
 pkg/hnsw/neighbor_connections.go | 10 +++++++--
 pkg/hnsw/search.go               | 23 +++++++++++++++++--
 4 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 315d7ad..6c77763 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -36,7 +36,11 @@ func (h *hnsw) flatSearch(queryVector []float32, limit int,
 		//	h.RUnlock()
 		//	continue
 		//}
-		c := h.nodeByID(candidate)
+		c, err := h.loadNode(candidate)
+		if err != nil {
+			h.RUnlock()
+			return nil, nil, err
+		}
 		if c == nil || h.hasTombstone(candidate) {
 			h.RUnlock()
 			continue
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index c1acbaa..5eebd94 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -616,41 +616,49 @@ func (h *hnsw) isEmptyUnsecured() (bool, error) {
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
-	var (
-		value []byte
-		v     *vertex
-		err   error
-	)
+	node, err := h.loadNode(id)
+	if err != nil {
+		fmt.Println("nodeByID: could not get node", id, h.className, err)
+		return nil
+	}
+	return node
+}
+
+// loadNode gives nil for a node that does not exist, and an error for one that
+// could not be read
+func (h *hnsw) loadNode(id uint64) (*vertex, error) {
+	var v *vertex
 	val, ok := h.indexCache.Get(id)
 	if ok {
 		if vertexValue, ok := val.(*vertex); ok {
 			// Now vertexValue is a pointer to the cached vertex object
-			return vertexValue
+			return vertexValue, nil
 		} else {
 			fmt.Println("Value is not a vertex.")
-			return nil
+			return nil, nil
 		}
 	} else if node, ok := h.uncommittedNode(id); ok {
 		h.indexCache.Add(id, node)
-		return node
+		return node, nil
 	} else {
-		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
+		_, value, err := h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
-			fmt.Println("nodeByID: could not get node", id, h.className, err)
-			return nil
+			if errors.Is(err, collection.ErrEntryNotFound) {
+				return nil, nil
+			}
+			return nil, err
 		}
 		err = json.Unmarshal(value, &v)
 		if err != nil {
-			fmt.Println("nodeByID: could not Unmarshal node", err)
-			return nil
+			return nil, errors.Wrapf(err, "unmarshal node %d", id)
 		}
 		// keep the copy another request may have cached, and changed, meanwhile
 		if cached, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
 			if vertexValue, ok := cached.(*vertex); ok {
-				return vertexValue
+				return vertexValue, nil
 			}
 		}
-		return v
+		return v, nil
 	}
 }
 
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index eed8608..a6b4d1f 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -139,7 +139,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	level int,
 ) error {
-	neighbor := n.graph.nodeByID(neighborID)
+	neighbor, err := n.graph.loadNode(neighborID)
+	if err != nil {
+		return err
+	}
 	if skip := n.skipNeighbor(neighbor); skip {
 		return nil
 	}
@@ -292,7 +295,10 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 }
 
 func (n *neighborFinderConnector) tryEpCandidate(candidate uint64) (bool, error) {
-	node := n.graph.nodeByID(candidate)
+	node, err := n.graph.loadNode(candidate)
+	if err != nil {
+		return false, errors.Wrapf(err, "get entrypoint candidate %d", candidate)
+	}
 	if node == nil {
 		return false, nil
 	}
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 69a296e..2848103 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -210,8 +210,11 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			break
 		}
 		//h.RLock()
-		candidateNode := h.nodeByID(candidate.ID)
+		candidateNode, err := h.loadNode(candidate.ID)
 		//h.RUnlock()
+		if err != nil {
+			return nil, errors.Wrapf(err, "get node %d", candidate.ID)
+		}
 		if candidateNode == nil {
 			// could have been a node that already had a tombstone attached and was
 			// just cleaned up while we were waiting for a read lock
@@ -249,6 +252,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 		candidateNode.Unlock()
 
 		nds := []neighbourDistance{}
+		var readErr error
 		wg := sync.WaitGroup{}
 		lock := sync.Mutex{}
 		for i, neighborID := range connectionsReusable {
@@ -265,6 +269,15 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 				var ok bool
 				var err error
 
+				// a neighbor that could not be read is not a missing one, leaving it
+				// out would make the results incomplete
+				if _, err = h.loadNode(neighborID); err != nil {
+					lock.Lock()
+					readErr = errors.Wrapf(err, "get node %d", neighborID)
+					lock.Unlock()
+					return
+				}
+
 				if h.compressed.Load() {
 					distance, ok, err = h.distanceToByteNode(byteDistancer, neighborID)
 				} else {
@@ -283,6 +296,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			}(i, neighborID)
 		}
 		wg.Wait()
+		if readErr != nil {
+			return nil, readErr
+		}
 		for _, nd := range nds {
 			distance, neighborID := nd.dist, nd.id
 			if distance < worstResultDistance || results.Len() < ef {
@@ -503,7 +519,10 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 		// deleted), and not under Maintenance is a viable candidate
 		for res.Len() > 0 {
 			cand := res.Pop()
-			n := h.nodeByID(cand.ID)
+			n, err := h.loadNode(cand.ID)
+			if err != nil {
+				return nil, nil, errors.Wrapf(err, "knn search: get node %d", cand.ID)
+			}
 			if n == nil {
 				// we have found a node in results that is nil. This means it was
 				// deleted, but not cleaned up properly. Make sure to add a tombstone to
-- 
2.43.0


From dd63fcf688a51a11b74edb7059e2a63941badab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 29/33] fix: leave the caller's documents as they are when
 adding them, and take documents without properties

---
 pkg/document/document.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index a3c3bcd..2c1c333 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -419,6 +419,13 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	var addErr error
 addLoop:
 	for _, doc := range documents {
+		// the caller's document stays as it is, so that it can be added again
+		// after a failure
+		properties := make(map[string]interface{}, len(doc.Properties)+2)
+		for name, value := range doc.Properties {
+			properties[name] = value
+		}
+		doc = &Document{ID: doc.ID, Properties: properties}
 		doc.Properties["id"] = doc.ID
 		var vector []float32
 
-- 
2.43.0


From 25bc269b1b148611d1ecb6fc177cedbf30c63c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:00 +0000
Subject: [PATCH 30/33] fix: a commit log cut off in an entry point record
 resets the entry point, and the valid length leaves out product quantizers

---
 pkg/hnsw/deserializer.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..e787387 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,11 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
@@ -141,8 +143,7 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
 		case AddPQ:
-			err = c.ReadPQ(fd, out)
-			readThisRound = 9
+			readThisRound, err = c.ReadPQ(fd, out)
 		default:
 			err = errors.Errorf("unrecognized commit type %d", ct)
 		}
@@ -507,30 +508,30 @@ func (c *Deserializer) ReadKMeansEncoder(r io.Reader, res *DeserializationResult
 	return kms, nil
 }
 
-func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
+func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) (int, error) {
 	dims, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	enc, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	ks, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	m, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	dist, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	useBitsEncoding, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	encoder := ssdhelpers.Encoder(enc)
 	res.PQData = ssdhelpers.PQData{
@@ -548,18 +549,20 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 	case ssdhelpers.UseKMeansEncoder:
 		encoderReader = c.ReadKMeansEncoder
 	default:
-		return errors.New("Unsuported encoder type")
+		return 0, errors.New("Unsuported encoder type")
 	}
+	length := 9
 	for i := uint16(0); i < m; i++ {
 		encoder, err := encoderReader(r, res, i)
 		if err != nil {
-			return err
+			return 0, err
 		}
 		res.PQData.Encoders = append(res.PQData.Encoders, encoder)
+		length += len(encoder.ExposeDataForRestore())
 	}
 	res.Compressed = true
 
-	return nil
+	return length, nil
 }
 
 func (c *Deserializer) readUint64(r io.Reader) (uint64, error) {
-- 
2.43.0


From 8d0895c7f7b6330f030a54bb1d9298987e3c2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:04 +0000
Subject: [PATCH 31/33] fix: condensing a commit log loses deletions, removed
 tombstones, cleared links, resets and product quantizers

---
 pkg/hnsw/condensor.go    | 52 +++++++++++++++++++++++++++++++
 pkg/hnsw/deserializer.go | 67 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 111 insertions(+), 8 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 6453a33..cb1dd92 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -20,6 +20,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
+	ssdhelpers "github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
 	"github.com/weaviate/weaviate/entities/errorcompounder"
 )
 
@@ -52,6 +53,16 @@ func (c *MemoryCondensor) Do(fileName string) error {
 
 	c.newLog = NewWriterSize(c.newLogFile, 1*1024*1024)
 
+	if err := c.writeRemoved(res.Removed); err != nil {
+		return errors.Wrap(err, "write removals to commit log")
+	}
+
+	if res.Compressed {
+		if err := c.AddPQ(res.PQData); err != nil {
+			return errors.Wrap(err, "write product quantizer to commit log")
+		}
+	}
+
 	for _, node := range res.Nodes {
 		if node == nil {
 			// nil nodes occur when we've grown, but not inserted anything yet
@@ -228,6 +239,47 @@ func (c *MemoryCondensor) AddTombstone(nodeid uint64) error {
 	return ec.ToError()
 }
 
+// writeRemoved has to come before everything that adds to the state
+func (c *MemoryCondensor) writeRemoved(removed removedInformation) error {
+	ec := &errorcompounder.ErrorCompounder{}
+	if removed.index {
+		ec.Add(c.writeCommitType(c.newLog, ResetIndex))
+	}
+	for _, r := range []struct {
+		commitType HnswCommitType
+		ids        map[uint64]struct{}
+	}{
+		{DeleteNode, removed.nodes},
+		{ClearLinks, removed.links},
+		{RemoveTombstone, removed.tombstones},
+	} {
+		for id := range r.ids {
+			ec.Add(c.writeCommitType(c.newLog, r.commitType))
+			ec.Add(c.writeUint64(c.newLog, id))
+		}
+	}
+
+	return ec.ToError()
+}
+
+func (c *MemoryCondensor) AddPQ(data ssdhelpers.PQData) error {
+	toWrite := make([]byte, 10)
+	toWrite[0] = byte(AddPQ)
+	binary.LittleEndian.PutUint16(toWrite[1:3], data.Dimensions)
+	toWrite[3] = byte(data.EncoderType)
+	binary.LittleEndian.PutUint16(toWrite[4:6], data.Ks)
+	binary.LittleEndian.PutUint16(toWrite[6:8], data.M)
+	toWrite[8] = data.EncoderDistribution
+	if data.UseBitsEncoding {
+		toWrite[9] = 1
+	}
+	for _, encoder := range data.Encoders {
+		toWrite = append(toWrite, encoder.ExposeDataForRestore()...)
+	}
+	_, err := c.newLog.Write(toWrite)
+	return err
+}
+
 func NewMemoryCondensor(logger logrus.FieldLogger) *MemoryCondensor {
 	return &MemoryCondensor{logger: logger}
 }
diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index e787387..d8bf7bb 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -45,6 +45,25 @@ type DeserializationResult struct {
 	// many Connections as discovered in
 	// https://github.com/weaviate/weaviate/issues/1868
 	LinksReplaced map[uint64]map[uint16]struct{}
+
+	// Removed is set only if replace information is kept. It holds what this log
+	// takes away from the state before it, so that condensing does not lose it.
+	Removed removedInformation
+}
+
+type removedInformation struct {
+	index      bool
+	nodes      map[uint64]struct{}
+	links      map[uint64]struct{}
+	tombstones map[uint64]struct{}
+}
+
+func newRemovedInformation() removedInformation {
+	return removedInformation{
+		nodes:      make(map[uint64]struct{}),
+		links:      make(map[uint64]struct{}),
+		tombstones: make(map[uint64]struct{}),
+	}
 }
 
 func (dr DeserializationResult) ReplaceLinks(node uint64, level uint16) bool {
@@ -87,6 +106,7 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			Nodes:         make([]*vertex, initialSize),
 			Tombstones:    make(map[uint64]struct{}),
 			LinksReplaced: make(map[uint64]map[uint16]struct{}),
+			Removed:       newRemovedInformation(),
 		}
 	}
 
@@ -124,10 +144,10 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 		case ReplaceLinksAtLevel:
 			readThisRound, err = c.ReadLinks(fd, out, keepLinkReplaceInformation)
 		case AddTombstone:
-			err = c.ReadAddTombstone(fd, out.Tombstones)
+			err = c.ReadAddTombstone(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case RemoveTombstone:
-			err = c.ReadRemoveTombstone(fd, out.Tombstones)
+			err = c.ReadRemoveTombstone(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ClearLinks:
 			err = c.ReadClearLinks(fd, out, keepLinkReplaceInformation)
@@ -136,12 +156,19 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			err = c.ReadClearLinksAtLevel(fd, out, keepLinkReplaceInformation)
 			readThisRound = 10
 		case DeleteNode:
-			err = c.ReadDeleteNode(fd, out)
+			err = c.ReadDeleteNode(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ResetIndex:
 			out.Entrypoint = 0
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
+			if keepLinkReplaceInformation {
+				tombstones := out.Removed.tombstones
+				out.Removed = newRemovedInformation()
+				out.Removed.index = true
+				out.Removed.tombstones = tombstones
+				out.LinksReplaced = make(map[uint64]map[uint16]struct{})
+			}
 		case AddPQ:
 			readThisRound, err = c.ReadPQ(fd, out)
 		default:
@@ -324,24 +351,34 @@ func (c *Deserializer) ReadAddLinks(r io.Reader,
 	return 12 + int(length)*8, nil
 }
 
-func (c *Deserializer) ReadAddTombstone(r io.Reader, tombstones map[uint64]struct{}) error {
+func (c *Deserializer) ReadAddTombstone(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
-	tombstones[id] = struct{}{}
+	res.Tombstones[id] = struct{}{}
+	if keepReplaceInfo {
+		delete(res.Removed.tombstones, id)
+	}
 
 	return nil
 }
 
-func (c *Deserializer) ReadRemoveTombstone(r io.Reader, tombstones map[uint64]struct{}) error {
+func (c *Deserializer) ReadRemoveTombstone(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
-	delete(tombstones, id)
+	delete(res.Tombstones, id)
+	if keepReplaceInfo {
+		res.Removed.tombstones[id] = struct{}{}
+	}
 
 	return nil
 }
@@ -354,6 +391,11 @@ func (c *Deserializer) ReadClearLinks(r io.Reader, res *DeserializationResult,
 		return err
 	}
 
+	if keepReplaceInfo {
+		// the node may have links from a log before this one
+		res.Removed.links[id] = struct{}{}
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
@@ -434,12 +476,21 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	return nil
 }
 
-func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult) error {
+func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
+	if keepReplaceInfo {
+		// the node may come from a log before this one
+		res.Removed.nodes[id] = struct{}{}
+		delete(res.Removed.links, id)
+		delete(res.LinksReplaced, id)
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
-- 
2.43.0


From c1f9330ec854d77a441f6046b17afb32f9566d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:28 +0000
Subject: [PATCH 32/33] fix: index settings beyond the integers are capped, not
 wrapped around

A number given as float64 of 2^63 or more became the smallest integer, and
a json.Number below the integers became the largest.
---
 pkg/hnsw/user_config.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/user_config.go b/pkg/hnsw/user_config.go
index 8fd42a5..10c324f 100644
--- a/pkg/hnsw/user_config.go
+++ b/pkg/hnsw/user_config.go
@@ -209,7 +209,7 @@ func (uc *UserConfig) validate() error {
 }
 
 // Tries to parse the int value from the map, if it overflows math.MaxInt64, it
-// uses math.MaxInt64 instead. This is to protect from rounding errors from
+// uses math.MaxInt64 instead (and math.MinInt64 below math.MinInt64). This is to protect from rounding errors from
 // json marshalling where the type may be assumed as float64
 func optionalIntFromMap(in map[string]interface{}, name string,
 	setFn func(v int),
@@ -228,12 +228,19 @@ func optionalIntFromMap(in map[string]interface{}, name string,
 	case json.Number:
 		asInt64, err = typed.Int64()
 	case float64:
-		asInt64 = int64(typed)
+		switch {
+		case typed >= math.MaxInt64:
+			asInt64 = math.MaxInt64
+		case typed <= math.MinInt64:
+			asInt64 = math.MinInt64
+		default:
+			asInt64 = int64(typed)
+		}
 	}
 	if err != nil {
-		// try to recover from error
+		// try to recover from error, the value is the closest one in range
 		if errors.Is(err, strconv.ErrRange) {
-			setFn(int(math.MaxInt64))
+			setFn(int(asInt64))
 			return nil
 		}
 
-- 
2.43.0


From 3ed683c969b16539171811ad72c167ad50ca063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:09 +0000
Subject: [PATCH 33/33] fix: a search by vector for more than 800 documents
 returned at most 800

---
 pkg/document/document.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 2c1c333..1836b85 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -641,7 +641,11 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
+	ef := 800
+	if limit > ef {
+		ef = limit
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, ef, nil)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0

