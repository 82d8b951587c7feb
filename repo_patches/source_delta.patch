From bc4214507279dc9712000e39c67df1d6b46346b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:46 +0000
Subject: [PATCH 01/58] fix: apply SQLite pragmas to every pooled connection

The DSN used parameters the driver ignores, so only the one connection that
ran PRAGMA foreign_keys enforced cascades and no connection waited for locks.
---
 pkg/core/store_init.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 18f515d..d32a84e 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -18,12 +18,17 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", ErrStoreClosed)
 	}
 
-	// Open database connection
-	// _journal_mode=WAL: Better concurrency
-	// _synchronous=NORMAL: Good balance of safety and speed
-	// _busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
-	// _cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
-	dsn := fmt.Sprintf("%s?_journal_mode=WAL&_synchronous=NORMAL&_busy_timeout=5000&_cache_size=-2000", s.config.Path)
+	// Open database connection. Pragmas are per connection, so they are part of the
+	// DSN (the driver applies each _pragma to every connection the pool opens):
+	// journal_mode=WAL: Better concurrency
+	// synchronous=NORMAL: Good balance of safety and speed
+	// busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
+	// cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
+	// foreign_keys=1: Crucial for cascading deletes
+	// Transactions take the write lock up front so that they wait for it instead of
+	// failing when they upgrade from reading to writing.
+	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)"+
+		"&_pragma=cache_size(-2000)&_pragma=foreign_keys(1)&_txlock=immediate", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
-- 
2.43.0


From 0a9bd5236cb6467bec74ee647b4b1ea0cc8c92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:54 +0000
Subject: [PATCH 02/58] fix: drop overwritten text from the full-text index

INSERT OR REPLACE does not fire delete triggers unless recursive triggers are
on, so an overwritten embedding stayed findable by its old text.
---
 pkg/core/store_init.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index d32a84e..520c896 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -25,10 +25,12 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	// busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
 	// cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
 	// foreign_keys=1: Crucial for cascading deletes
+	// recursive_triggers=1: INSERT OR REPLACE fires the delete triggers of the row it
+	// replaces, which keep the full-text index free of overwritten text
 	// Transactions take the write lock up front so that they wait for it instead of
 	// failing when they upgrade from reading to writing.
 	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)"+
-		"&_pragma=cache_size(-2000)&_pragma=foreign_keys(1)&_txlock=immediate", s.config.Path)
+		"&_pragma=cache_size(-2000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)&_txlock=immediate", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
-- 
2.43.0


From 6e9797d7901d03f03d2dff6ed72481b2f50a0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:40 +0000
Subject: [PATCH 03/58] fix: validate and dimension-check bulk writes like
 single writes

UpsertBatch skipped dimension detection, adaptation and vector validation;
single writes accepted non-finite vectors, and a refused first write left its
dimension behind. Both routes now share one path, and look collections up
without re-entering the store lock (which deadlocks behind a waiting writer).
---
 pkg/core/collections.go |  17 ++++-
 pkg/core/store.go       |   7 ++
 pkg/core/store_crud.go  | 141 ++++++++++++++++++++++++++++++----------
 3 files changed, 130 insertions(+), 35 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 5af01a8..623884e 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -113,6 +113,11 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 		return nil, wrapError("get_collection", ErrStoreClosed)
 	}
 
+	return s.getCollection(ctx, name)
+}
+
+// getCollection retrieves a collection by name; the caller holds the store lock
+func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collection, error) {
 	collection := &Collection{}
 	var metadataJSON sql.NullString
 	var description sql.NullString
@@ -152,6 +157,16 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 	return collection, nil
 }
 
+// lookupCollectionID returns the ID of a named collection, read through q (the
+// database or a transaction)
+func lookupCollectionID(ctx context.Context, q interface {
+	QueryRowContext(ctx context.Context, query string, args ...interface{}) *sql.Row
+}, name string) (int, error) {
+	var id int
+	err := q.QueryRowContext(ctx, "SELECT id FROM collections WHERE name = ?", name).Scan(&id)
+	return id, err
+}
+
 // ListCollections lists all collections
 func (s *SQLiteStore) ListCollections(ctx context.Context) ([]*Collection, error) {
 	s.mu.RLock()
@@ -273,7 +288,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	}
 
 	// First get collection info
-	collection, err := s.GetCollection(ctx, name)
+	collection, err := s.getCollection(ctx, name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/core/store.go b/pkg/core/store.go
index c589b7c..de0f29b 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -86,6 +86,13 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 	s.config.AutoDimAdapt = policy
 }
 
+// isClosed reports whether the store has been closed
+func (s *SQLiteStore) isClosed() bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.closed
+}
+
 // GetDB returns the underlying database connection
 func (s *SQLiteStore) GetDB() *sql.DB {
 	return s.db
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a74fab6..a3abad2 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -11,24 +11,20 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
 )
 
-// Upsert inserts or updates a single embedding
-func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
+// ensureDimension returns the store dimension, adopting incomingDim if none is known
+// yet. detected reports whether this call adopted it.
+func (s *SQLiteStore) ensureDimension(incomingDim int) (currentDim int, detected bool) {
 	s.mu.RLock()
-	currentDim := s.config.VectorDim
+	currentDim = s.config.VectorDim
 	s.mu.RUnlock()
 
-	if s.closed {
-		return wrapError("upsert", ErrStoreClosed)
-	}
-
-	incomingDim := len(emb.Vector)
-
 	// Auto-detect dimension on first insert
 	if currentDim == 0 {
 		s.mu.Lock()
 		if s.config.VectorDim == 0 { // Double-check after acquiring write lock
 			s.config.VectorDim = incomingDim
 			currentDim = incomingDim
+			detected = true
 
 			// Initialize quantizer now that we know the dimension
 			if s.config.Quantization.Enabled && s.quantizer == nil {
@@ -51,6 +47,68 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		}
 		s.mu.Unlock()
 	}
+	return currentDim, detected
+}
+
+// forgetDimension undoes ensureDimension after the write that detected the dimension
+// failed, unless another write has stored a vector in the meantime.
+func (s *SQLiteStore) forgetDimension() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		return
+	}
+	var exists bool
+	err := s.db.QueryRow("SELECT EXISTS(SELECT 1 FROM embeddings)").Scan(&exists)
+	if err == nil && !exists {
+		s.config.VectorDim = 0
+	}
+}
+
+// adaptEmbedding validates an embedding and brings its vector to the store dimension
+func (s *SQLiteStore) adaptEmbedding(emb *Embedding, currentDim int) error {
+	if incomingDim := len(emb.Vector); incomingDim != currentDim {
+		adaptedVector, err := s.adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
+		if err != nil {
+			return err
+		}
+		s.adapter.logDimensionEvent("adapt", incomingDim, currentDim, emb.ID)
+		emb.Vector = adaptedVector
+	}
+	return encoding.ValidateVector(emb.Vector)
+}
+
+// checkIncomingVector refuses vectors that no adaptation policy can make storable. An
+// empty vector is left to the policy once the store dimension is known.
+func (s *SQLiteStore) checkIncomingVector(vector []float32) error {
+	if len(vector) == 0 {
+		s.mu.RLock()
+		defer s.mu.RUnlock()
+		if s.config.VectorDim > 0 {
+			return nil
+		}
+	}
+	return encoding.ValidateVector(vector)
+}
+
+// Upsert inserts or updates a single embedding
+func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
+	if s.isClosed() {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
+	if err := s.checkIncomingVector(emb.Vector); err != nil {
+		return wrapError("upsert", err)
+	}
+
+	currentDim, detected := s.ensureDimension(len(emb.Vector))
+	if detected {
+		defer func() {
+			if err != nil {
+				s.forgetDimension()
+			}
+		}()
+	}
 
 	// Auto-train quantizer if not trained
 	if s.quantizer != nil {
@@ -68,18 +126,8 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		}
 	}
 
-	// Handle dimension mismatch
-	if incomingDim != currentDim {
-		adaptedVector, err := s.adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
-		if err != nil {
-			return wrapError("upsert", err)
-		}
-		s.adapter.logDimensionEvent("adapt", incomingDim, currentDim, emb.ID)
-		emb.Vector = adaptedVector
-	}
-
-	// Validate adapted embedding
-	if err := encoding.ValidateEmbedding(*emb, currentDim); err != nil {
+	// Validate and handle dimension mismatch
+	if err := s.adaptEmbedding(emb, currentDim); err != nil {
 		return wrapError("upsert", err)
 	}
 
@@ -87,16 +135,19 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
 		if emb.Collection != "" {
-			collection, err := s.GetCollection(ctx, emb.Collection)
+			collectionID, err = lookupCollectionID(ctx, s.db, emb.Collection)
 			if err != nil {
 				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
 			}
-			collectionID = collection.ID
 		} else {
 			collectionID = 1 // Default collection
 		}
@@ -158,11 +209,8 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 }
 
 // UpsertBatch inserts or updates multiple embeddings in a transaction
-func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
-	if s.closed {
+func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err error) {
+	if s.isClosed() {
 		return wrapError("upsert_batch", ErrStoreClosed)
 	}
 
@@ -170,6 +218,35 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		return nil
 	}
 
+	// Validate the whole batch before anything is learned from it or written
+	for i, emb := range embs {
+		if err := s.checkIncomingVector(emb.Vector); err != nil {
+			return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
+		}
+	}
+
+	currentDim, detected := s.ensureDimension(len(embs[0].Vector))
+	if detected {
+		defer func() {
+			if err != nil {
+				s.forgetDimension()
+			}
+		}()
+	}
+
+	for i, emb := range embs {
+		if err := s.adaptEmbedding(emb, currentDim); err != nil {
+			return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
+		}
+	}
+
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	if s.closed {
+		return wrapError("upsert_batch", ErrStoreClosed)
+	}
+
 	// Auto-train quantizer if not trained
 	if s.quantizer != nil {
 		trained := false
@@ -224,20 +301,16 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	// Execute for each embedding
 	for i, emb := range embs {
-		if err := encoding.ValidateEmbedding(*emb, s.config.VectorDim); err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
-		}
-
 		// Determine collection ID
 		collectionID := emb.CollectionID
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
 			if emb.Collection != "" {
-				collection, err := s.GetCollection(ctx, emb.Collection)
+				// Look it up on the transaction's own connection
+				collectionID, err = lookupCollectionID(ctx, tx, emb.Collection)
 				if err != nil {
 					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
 				}
-				collectionID = collection.ID
 			} else {
 				collectionID = 1 // Default collection
 			}
-- 
2.43.0


From 9daca1a9e85b15c02db9e9aafb034905123d52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 04/58] fix: recover the auto-detected dimension when a store
 is reopened

---
 pkg/core/store_init.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 520c896..ac8280f 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
+
 	_ "modernc.org/sqlite" // SQLite driver
 )
 
@@ -55,6 +57,11 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", err)
 	}
 
+	// Recover an auto-detected dimension from the stored vectors
+	if err := s.detectDimension(ctx); err != nil {
+		return wrapError("init", err)
+	}
+
 	// Initialize HNSW index if enabled
 	if err := s.initHNSWIndex(ctx); err != nil {
 		return wrapError("init", err)
@@ -75,6 +82,27 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	return nil
 }
 
+// detectDimension sets an unconfigured store dimension from the data already stored
+func (s *SQLiteStore) detectDimension(ctx context.Context) error {
+	if s.config.VectorDim != 0 {
+		return nil
+	}
+	var vectorBytes []byte
+	err := s.db.QueryRowContext(ctx, "SELECT vector FROM embeddings LIMIT 1").Scan(&vectorBytes)
+	if err == sql.ErrNoRows {
+		return nil
+	}
+	if err != nil {
+		return fmt.Errorf("failed to read stored vectors: %w", err)
+	}
+	vector, err := encoding.DecodeVector(vectorBytes)
+	if err != nil {
+		return fmt.Errorf("failed to decode stored vector: %w", err)
+	}
+	s.config.VectorDim = len(vector)
+	return nil
+}
+
 // createTables creates the necessary database tables
 func (s *SQLiteStore) createTables(ctx context.Context) error {
 	createTableSQL := `
-- 
2.43.0


From 4dd6b58035362fd4c43176aa985db9293605664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:50 +0000
Subject: [PATCH 05/58] fix: keep HNSW and IVF indexes correct under
 re-insertion and deletion

Re-adding an id kept the old vector (HNSW) or stored a second copy (IVF), a
deleted id could never come back, IVF deletion shifted positions wrongly, many
deletions starved HNSW searches, and parallel construction left its sub-graphs
unconnected.
---
 pkg/index/hnsw.go | 112 +++++++++++++++++++++++++++++++++++++++-------
 pkg/index/ivf.go  |  43 +++++++++++++-----
 2 files changed, 126 insertions(+), 29 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 4c55f1f..d4b2385 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -175,8 +175,12 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
-	if _, exists := h.Nodes[id]; exists {
-		return fmt.Errorf("node %s already exists", id)
+	if existing, exists := h.Nodes[id]; exists {
+		if !existing.Deleted {
+			return fmt.Errorf("node %s already exists", id)
+		}
+		h.replaceNode(existing, vector)
+		return nil
 	}
 	
 	// Prepare node data
@@ -219,6 +223,42 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 		return nil
 	}
 	
+	h.linkNode(node, vector)
+	
+	return nil
+}
+
+// Upsert adds a vector to the index, replacing the vector of an existing id
+func (h *HNSW) Upsert(id string, vector []float32) error {
+	h.mu.Lock()
+	if existing, exists := h.Nodes[id]; exists {
+		h.replaceNode(existing, vector)
+		h.mu.Unlock()
+		return nil
+	}
+	h.mu.Unlock()
+	
+	return h.Insert(id, vector)
+}
+
+// replaceNode gives an existing (possibly deleted) node a new vector. The node keeps its
+// links, so nothing that is reachable through it is lost, and gains links to the
+// neighborhood of the new vector.
+func (h *HNSW) replaceNode(node *HNSWNode, vector []float32) {
+	node.Vector, node.Quantized = vector, nil
+	if h.Quantizer != nil {
+		if quantized, err := h.Quantizer.Encode(vector); err == nil {
+			node.Vector, node.Quantized = nil, quantized
+		}
+	}
+	node.Deleted = false
+	h.linkNode(node, vector)
+}
+
+// linkNode connects a node to its nearest neighbors on each of its levels
+func (h *HNSW) linkNode(node *HNSWNode, vector []float32) {
+	id, level := node.ID, node.Level
+	
 	// Search for closest points at all levels
 	currNearest := []string{h.EntryPoint}
 	
@@ -239,8 +279,11 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 		neighbors := h.selectNeighborsHeuristic(vector, candidates, m, lc)
 		
 		// Add bidirectional links
-		node.Neighbors[lc] = neighbors
 		for _, neighbor := range neighbors {
+			if neighbor == id {
+				continue
+			}
+			h.addConnection(id, neighbor, lc)
 			h.addConnection(neighbor, id, lc)
 			
 			// Prune connections of neighbors if needed
@@ -282,8 +325,6 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	if level > h.Nodes[h.EntryPoint].Level {
 		h.EntryPoint = id
 	}
-	
-	return nil
 }
 
 // searchLayer performs a greedy search in a specific layer
@@ -424,7 +465,7 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
-	if h.EntryPoint == "" {
+	if h.EntryPoint == "" || k <= 0 {
 		return []string{}, []float32{}
 	}
 	
@@ -436,23 +477,34 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 		currNearest = h.searchLayerClosest(query, currNearest, 1, layer)
 	}
 	
-	// Search at layer 0 with ef
-	candidates := h.searchLayer(query, currNearest, ef, 0)
-	
 	// Return top k
 	type result struct {
 		id   string
 		dist float32
 	}
 	
-	results := make([]result, 0, len(candidates))
-	for _, candidate := range candidates {
-		if node, exists := h.Nodes[candidate]; exists && !node.Deleted {
-			results = append(results, result{
-				id:   candidate,
-				dist: h.calculateDistance(query, node),
-			})
+	// Search at layer 0 with ef, widening it while deleted nodes leave fewer than k
+	var results []result
+	if ef < 1 {
+		ef = 1
+	}
+	for {
+		candidates := h.searchLayer(query, currNearest, ef, 0)
+		
+		results = make([]result, 0, len(candidates))
+		for _, candidate := range candidates {
+			if node, exists := h.Nodes[candidate]; exists && !node.Deleted {
+				results = append(results, result{
+					id:   candidate,
+					dist: h.calculateDistance(query, node),
+				})
+			}
+		}
+		
+		if len(results) >= k || len(candidates) < ef {
+			break
 		}
+		ef *= 2
 	}
 	
 	// Sort by distance
@@ -486,7 +538,7 @@ func (h *HNSW) Delete(id string) error {
 	defer h.mu.Unlock()
 	
 	node, exists := h.Nodes[id]
-	if !exists {
+	if !exists || node.Deleted {
 		return errors.New("node not found")
 	}
 	
@@ -895,12 +947,38 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
+	// The sub-graphs know nothing of each other: connect each one at the base layer to
+	// what has been merged before it, so that a search can reach all of them.
 	for _, pg := range graphs {
+		entry := h.EntryPoint
 		for id, node := range pg.nodes {
 			if _, exists := h.Nodes[id]; !exists {
 				h.Nodes[id] = node
 			}
 		}
+		if entry == "" {
+			h.EntryPoint = pg.entryPoint
+			continue
+		}
+		type link struct{ from, to string }
+		var links []link
+		for id, node := range pg.nodes {
+			vec := node.Vector
+			if vec == nil && node.Quantized != nil && h.Quantizer != nil {
+				vec, _ = h.Quantizer.Decode(node.Quantized)
+			}
+			if vec == nil || h.Nodes[id] != node {
+				continue
+			}
+			candidates := h.searchLayer(vec, []string{entry}, h.EfConstruction, 0)
+			for _, neighbor := range h.selectNeighborsHeuristic(vec, candidates, h.M, 0) {
+				links = append(links, link{id, neighbor})
+			}
+		}
+		for _, l := range links {
+			h.addConnection(l.from, l.to, 0)
+			h.addConnection(l.to, l.from, 0)
+		}
 	}
 
 	// Update entry point
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 6b37078..0964356 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -119,6 +119,9 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
 	}
 	
+	// A vector that is added again replaces the previous one
+	ivf.remove(id)
+	
 	// Find nearest centroid
 	centroidIdx := ivf.findNearestCentroid(vector)
 	
@@ -396,10 +399,22 @@ func min(a, b int) int {
 
 // Delete removes a vector from the index
 func (ivf *IVFIndex) Delete(id string) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
 	if !ivf.Trained {
 		return errors.New("index not trained")
 	}
 	
+	if !ivf.remove(id) {
+		return errors.New("vector not found")
+	}
+	
+	return nil
+}
+
+// remove drops a vector and reports whether it was present; the caller holds the lock
+func (ivf *IVFIndex) remove(id string) bool {
 	// Find the vector index in IDs
 	vectorIndex := -1
 	for i, storedID := range ivf.IDs {
@@ -410,7 +425,7 @@ func (ivf *IVFIndex) Delete(id string) error {
 	}
 	
 	if vectorIndex == -1 {
-		return errors.New("vector not found")
+		return false
 	}
 	
 	// Remove from IDs
@@ -421,23 +436,27 @@ func (ivf *IVFIndex) Delete(id string) error {
 		ivf.Vectors = append(ivf.Vectors[:vectorIndex], ivf.Vectors[vectorIndex+1:]...)
 	}
 	
-	// Remove from inverted lists
-	for i := range ivf.Invlists {
-		for j, idx := range ivf.Invlists[i] {
-			if idx == vectorIndex {
-				ivf.Invlists[i] = append(ivf.Invlists[i][:j], ivf.Invlists[i][j+1:]...)
-				break
-			} else if idx > vectorIndex {
-				// Update indices after deletion
-				ivf.Invlists[i][j] = idx - 1
+	// Remove from inverted lists and shift the positions behind it
+	for i, list := range ivf.Invlists {
+		kept := list[:0]
+		for _, idx := range list {
+			switch {
+			case idx < vectorIndex:
+				kept = append(kept, idx)
+			case idx > vectorIndex:
+				kept = append(kept, idx-1)
 			}
 		}
+		ivf.Invlists[i] = kept
 	}
 	
-	return nil
+	return true
 }
 
 // Size returns the number of vectors in the index
 func (ivf *IVFIndex) Size() int {
+	ivf.mu.RLock()
+	defer ivf.mu.RUnlock()
+	
 	return len(ivf.Vectors)
-}
\ No newline at end of file
+}
-- 
2.43.0


From f50384a0b72eef519b34795a1609b364025065b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:00 +0000
Subject: [PATCH 06/58] fix: refuse truncated or inconsistent index snapshots
 without side effects

---
 pkg/index/hnsw.go | 45 +++++++++++++++++++++++++++++++++++----------
 pkg/index/ivf.go  | 45 +++++++++++++++++++++++++++++++++++----------
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index d4b2385..75ccdc9 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -131,27 +131,52 @@ func (h *HNSW) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&h.M); err != nil { return err }
-	h.MaxM = h.M * 2
-	h.ML = 1.0 / math.Log(2.0)
-	
-	if err := dec.Decode(&h.EfConstruction); err != nil { return err }
-	if err := dec.Decode(&h.EntryPoint); err != nil { return err }
+	// Decode everything before touching the index, so that a bad snapshot leaves it as it was
+	var m, efConstruction, count int
+	var entryPoint string
+	if err := dec.Decode(&m); err != nil { return err }
+	if err := dec.Decode(&efConstruction); err != nil { return err }
+	if err := dec.Decode(&entryPoint); err != nil { return err }
 
 	// Decode nodes count
-	var count int
 	if err := dec.Decode(&count); err != nil { return err }
 
 	// Decode nodes
-	h.Nodes = make(map[string]*HNSWNode, count)
+	nodes := make(map[string]*HNSWNode)
 	for i := 0; i < count; i++ {
 		var node HNSWNode
 		if err := dec.Decode(&node); err != nil {
 			return err
 		}
-		h.Nodes[node.ID] = &node
+		nodes[node.ID] = &node
+	}
+
+	// Check that the graph is complete
+	if m <= 0 || efConstruction <= 0 || count < 0 || len(nodes) != count {
+		return errors.New("invalid HNSW snapshot: inconsistent parameters")
 	}
+	if _, exists := nodes[entryPoint]; !exists && (entryPoint != "" || count > 0) {
+		return fmt.Errorf("invalid HNSW snapshot: unknown entry point %q", entryPoint)
+	}
+	for id, node := range nodes {
+		if node.Level < 0 || len(node.Neighbors) != node.Level+1 {
+			return fmt.Errorf("invalid HNSW snapshot: node %q has inconsistent levels", id)
+		}
+		for _, neighbors := range node.Neighbors {
+			for _, neighbor := range neighbors {
+				if _, exists := nodes[neighbor]; !exists {
+					return fmt.Errorf("invalid HNSW snapshot: unknown neighbor %q", neighbor)
+				}
+			}
+		}
+	}
+
+	h.M = m
+	h.MaxM = m * 2
+	h.ML = 1.0 / math.Log(2.0)
+	h.EfConstruction = efConstruction
+	h.EntryPoint = entryPoint
+	h.Nodes = nodes
 
 	return nil
 }
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 0964356..f51d92e 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -68,17 +68,42 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&ivf.NCentroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Dimension); err != nil { return err }
-	if err := dec.Decode(&ivf.NProbe); err != nil { return err }
-	if err := dec.Decode(&ivf.Trained); err != nil { return err }
+	// Decode everything before touching the index, so that a bad snapshot leaves it as it was
+	var nCentroids, dimension, nProbe int
+	var trained bool
+	var centroids, vectors [][]float32
+	var invlists [][]int
+	var ids []string
+	if err := dec.Decode(&nCentroids); err != nil { return err }
+	if err := dec.Decode(&dimension); err != nil { return err }
+	if err := dec.Decode(&nProbe); err != nil { return err }
+	if err := dec.Decode(&trained); err != nil { return err }
+	if err := dec.Decode(&centroids); err != nil { return err }
+	if err := dec.Decode(&invlists); err != nil { return err }
+	if err := dec.Decode(&ids); err != nil { return err }
+	if err := dec.Decode(&vectors); err != nil { return err }
 
-	// Decode data
-	if err := dec.Decode(&ivf.Centroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Invlists); err != nil { return err }
-	if err := dec.Decode(&ivf.IDs); err != nil { return err }
-	if err := dec.Decode(&ivf.Vectors); err != nil { return err }
+	// Check that the lists fit together
+	if len(invlists) != nCentroids || len(ids) != len(vectors) || (trained && len(centroids) != nCentroids) {
+		return errors.New("invalid IVF snapshot: inconsistent sizes")
+	}
+	for _, vectorLists := range [][][]float32{centroids, vectors} {
+		for _, vector := range vectorLists {
+			if len(vector) != dimension {
+				return errors.New("invalid IVF snapshot: inconsistent dimension")
+			}
+		}
+	}
+	for _, list := range invlists {
+		for _, idx := range list {
+			if idx < 0 || idx >= len(vectors) {
+				return errors.New("invalid IVF snapshot: unknown vector")
+			}
+		}
+	}
+
+	ivf.NCentroids, ivf.Dimension, ivf.NProbe, ivf.Trained = nCentroids, dimension, nProbe, trained
+	ivf.Centroids, ivf.Invlists, ivf.IDs, ivf.Vectors = centroids, invlists, ids, vectors
 
 	return nil
 }
-- 
2.43.0


From c71ae24b2e1d0f14573f3710213eda1fddaf417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:28 +0000
Subject: [PATCH 07/58] fix: remove every deleted embedding from the vector
 indexes

Deleting by document, clearing and dropping a collection left the vectors in the
indexes, where they crowded live items out of search results; deleting a document
dropped them before the deletion was known to succeed.
---
 pkg/core/collections.go |  4 +-
 pkg/core/document.go    | 36 ++++++++--------
 pkg/core/store_crud.go  | 94 +++++++++++++++++++++++++++++++++--------
 3 files changed, 96 insertions(+), 38 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 623884e..7887440 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -259,7 +259,7 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	}
 
 	// Delete all embeddings in the collection
-	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE collection_id = ?", collectionID)
+	deleted, err := deleteReturningIDs(ctx, tx, "collection_id = ?", collectionID)
 	if err != nil {
 		return wrapError("delete_collection", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
@@ -275,6 +275,8 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(deleted)
+
 	return nil
 }
 
diff --git a/pkg/core/document.go b/pkg/core/document.go
index 990feb0..a13868d 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -102,31 +102,29 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 		return wrapError("delete_document", ErrStoreClosed)
 	}
 
-	// 1. Find all embedding IDs for this document to remove from HNSW index
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("delete_document", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	// 1. Find all embedding IDs for this document to remove from the memory indexes
 	// Note: SQLite FK CASCADE will handle the table rows, but we must manually update memory index
-	if s.hnswIndex != nil || s.ivfIndex != nil {
-		rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE doc_id = ?", id)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var embID string
-				if err := rows.Scan(&embID); err == nil {
-					if s.hnswIndex != nil {
-						_ = s.hnswIndex.Delete(embID)
-					}
-					if s.ivfIndex != nil {
-						_ = s.ivfIndex.Delete(embID)
-					}
-				}
-			}
-		}
+	ids, err := embeddingIDs(ctx, tx, "doc_id = ?", id)
+	if err != nil {
+		return wrapError("delete_document", fmt.Errorf("failed to find embeddings: %w", err))
 	}
 
 	// 2. Delete document (Cascade will delete embeddings from DB)
-	_, err := s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
-	if err != nil {
+	if _, err := tx.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id); err != nil {
 		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
 	}
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_document", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
+	// 3. The rows are gone: forget their vectors
+	s.removeFromIndexes(ids)
 
 	return nil
 }
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a3abad2..cdd1596 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -193,7 +193,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 
 	// Update HNSW index if enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
+		if err := s.hnswIndex.Upsert(emb.ID, emb.Vector); err != nil {
 			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
 		}
 	}
@@ -359,7 +359,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
 		var errorCount int
 		for _, emb := range embs {
-			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
+			if err := s.hnswIndex.Upsert(emb.ID, emb.Vector); err != nil {
 				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
 				errorCount++
 			}
@@ -386,6 +386,73 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 	return nil
 }
 
+// embeddingIDs returns the IDs of the embeddings selected by a WHERE clause
+func embeddingIDs(ctx context.Context, q interface {
+	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
+}, where string, args ...interface{}) ([]string, error) {
+	rows, err := q.QueryContext(ctx, "SELECT id FROM embeddings WHERE "+where, args...)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return nil, err
+		}
+		ids = append(ids, id)
+	}
+	return ids, rows.Err()
+}
+
+// removeFromIndexes drops deleted embeddings from the memory indexes
+func (s *SQLiteStore) removeFromIndexes(ids []string) {
+	for _, id := range ids {
+		if s.hnswIndex != nil {
+			if err := s.hnswIndex.Delete(id); err != nil {
+				s.logger.Warn("failed to delete vector from HNSW index", "id", id, "error", err)
+			}
+		}
+		if s.ivfIndex != nil {
+			if err := s.ivfIndex.Delete(id); err != nil {
+				s.logger.Warn("failed to delete vector from IVF index", "id", id, "error", err)
+			}
+		}
+	}
+}
+
+// deleteReturningIDs deletes the embeddings selected by a WHERE clause and returns their IDs
+func deleteReturningIDs(ctx context.Context, tx *sql.Tx, where string, args ...interface{}) ([]string, error) {
+	ids, err := embeddingIDs(ctx, tx, where, args...)
+	if err != nil {
+		return nil, err
+	}
+	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE "+where, args...)
+	return ids, err
+}
+
+// deleteWhere deletes the embeddings selected by a WHERE clause from the database and the
+// memory indexes; the caller holds the store lock
+func (s *SQLiteStore) deleteWhere(ctx context.Context, where string, args ...interface{}) error {
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return err
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	ids, err := deleteReturningIDs(ctx, tx, where, args...)
+	if err != nil {
+		return err
+	}
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+	s.removeFromIndexes(ids)
+	return nil
+}
+
 // Delete removes an embedding by ID
 func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 	s.mu.RLock()
@@ -443,8 +510,7 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
-	if err != nil {
+	if err := s.deleteWhere(ctx, "doc_id = ?", docID); err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
 
@@ -613,8 +679,7 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings")
-	if err != nil {
+	if err := s.deleteWhere(ctx, "1 = 1"); err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
 	}
 
@@ -647,26 +712,17 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		}
 	}()
 
-	// Prepare statement for deletion
-	stmt, err := tx.PrepareContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?")
-	if err != nil {
-		return wrapError("clear_by_doc_id", fmt.Errorf("failed to prepare statement: %w", err))
-	}
-	defer func() {
-		if closeErr := stmt.Close(); closeErr != nil {
-			s.logger.Warn("failed to close statement during clear by doc ID", "error", closeErr)
-		}
-	}()
-
 	// Execute deletion for each doc ID
+	var deleted []string
 	for _, docID := range docIDs {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
-		_, err = stmt.ExecContext(ctx, docID)
+		ids, err := deleteReturningIDs(ctx, tx, "doc_id = ?", docID)
 		if err != nil {
 			return wrapError("clear_by_doc_id", fmt.Errorf("failed to delete embeddings for doc_id %s: %w", docID, err))
 		}
+		deleted = append(deleted, ids...)
 	}
 
 	// Commit transaction
@@ -674,6 +730,8 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		return wrapError("clear_by_doc_id", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(deleted)
+
 	s.logger.Debug("cleared embeddings by doc IDs", "count", len(docIDs))
 
 	return nil
-- 
2.43.0


From 8f0607161dbe9ae8a6488c048db0b93a840bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:09 +0000
Subject: [PATCH 08/58] fix: rank indexed and filtered searches over everything
 in scope, without re-locking

The HNSW/IVF paths ignored a doc_id filter and returned too few results
when collection or metadata filters rejected index proposals;
SearchWithFilter filtered only the unfiltered top-k. HybridSearch,
SearchWithDiversity, SearchWithReranker, SearchMultiVector and Dump took
the read lock twice, which deadlocks when a writer arrives in between.
---
 pkg/core/advanced_search.go |   4 +-
 pkg/core/io.go              |   2 +-
 pkg/core/multi_vector.go    |   2 +-
 pkg/core/reranker.go        |   4 +-
 pkg/core/store.go           |   5 ++
 pkg/core/store_search.go    | 106 +++++++++++++++++-------------------
 6 files changed, 60 insertions(+), 63 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 10bbc35..75a693d 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -68,7 +68,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	var vectorResults []ScoredEmbedding
 	var err error
 	if len(vectorQuery) > 0 {
-		vectorResults, err = s.Search(ctx, vectorQuery, opts.SearchOptions)
+		vectorResults, err = s.search(ctx, vectorQuery, opts.SearchOptions)
 		if err != nil {
 			return nil, fmt.Errorf("vector search failed: %w", err)
 		}
@@ -351,7 +351,7 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
 	
-	candidates, err := s.Search(ctx, query, searchOpts)
+	candidates, err := s.search(ctx, query, searchOpts)
 	if err != nil {
 		return nil, wrapError("search_diversity", err)
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 1ce0fae..bb2f0c2 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,7 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.Stats(ctx)
+	schemaStats, _ := s.stats(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 825dbca..a3bf0f1 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -150,7 +150,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
-		results, err := s.Search(ctx, queryVector, fieldOpts)
+		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
 			continue
 		}
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index c52f54b..24d26ae 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -55,7 +55,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 
 	if reranker == nil {
 		// No reranker, return normal search results
-		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
+		return s.search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
 	}
 
 	// Perform initial search with more candidates than needed
@@ -65,7 +65,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		initialTopK = 50
 	}
 
-	initialResults, err := s.Search(ctx, queryVec, SearchOptions{TopK: initialTopK})
+	initialResults, err := s.search(ctx, queryVec, SearchOptions{TopK: initialTopK})
 	if err != nil {
 		return nil, wrapError("search_rerank", fmt.Errorf("initial search failed: %w", err))
 	}
diff --git a/pkg/core/store.go b/pkg/core/store.go
index de0f29b..70d0940 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -115,6 +115,11 @@ func (s *SQLiteStore) Stats(ctx context.Context) (StoreStats, error) {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.stats(ctx)
+}
+
+// stats is Stats for callers that already hold the store lock
+func (s *SQLiteStore) stats(ctx context.Context) (StoreStats, error) {
 	if s.closed {
 		return StoreStats{}, wrapError("stats", ErrStoreClosed)
 	}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 1c7d15d..862c743 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -14,29 +14,40 @@ import (
 // Search performs vector similarity search
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
+
+	return s.search(ctx, query, opts)
+}
 
+// prepareQuery adapts the query vector to the store dimension and validates it; the caller holds the store lock
+func (s *SQLiteStore) prepareQuery(query []float32, opts SearchOptions) ([]float32, error) {
 	if s.closed {
-		return nil, wrapError("search", ErrStoreClosed)
+		return nil, ErrStoreClosed
 	}
 
+	storeDim := s.config.VectorDim
 	queryDim := len(query)
 
 	// Auto-adapt query vector if dimensions don't match
 	if storeDim > 0 && queryDim != storeDim {
 		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
 		if err != nil {
-			return nil, wrapError("search", fmt.Errorf("query adaptation failed: %w", err))
+			return nil, fmt.Errorf("query adaptation failed: %w", err)
 		}
 		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
+		return nil, err
+	}
+	return query, nil
+}
+
+// search is Search for callers that already hold the store lock
+func (s *SQLiteStore) search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
 		return nil, wrapError("search", err)
 	}
 
@@ -62,66 +73,31 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 
 // SearchWithFilter performs vector similarity search with advanced metadata filtering
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
-	s.mu.RLock()
-	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
-
-	if s.closed {
-		return nil, wrapError("searchWithFilter", ErrStoreClosed)
-	}
-
-	queryDim := len(query)
-
-	// Auto-adapt query vector if dimensions don't match
-	if storeDim > 0 && queryDim != storeDim {
-		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", fmt.Errorf("query adaptation failed: %w", err))
-		}
-		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
-		query = adaptedQuery
-	}
-
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-	if err := s.validateSearchInput(query, opts); err != nil {
-		return nil, wrapError("searchWithFilter", err)
+	if len(metadataFilters) == 0 {
+		return s.search(ctx, query, opts)
 	}
 
-	// First perform the standard search
-	var candidates []ScoredEmbedding
-	var err error
-
-	// Use HNSW index if available and enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		candidates, err = s.searchWithHNSW(ctx, query, opts)
-	} else if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		// Use IVF index
-		candidates, err = s.searchWithIVF(ctx, query, opts)
-	} else {
-		// Fallback to linear search
-		candidates, err = s.fetchCandidates(ctx, opts)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", err)
-		}
-		candidates = s.scoreCandidates(query, candidates, opts)
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
+		return nil, wrapError("searchWithFilter", err)
 	}
 
+	// Filter before ranking: the best matches may lie beyond the top-k of an unfiltered search
+	candidates, err := s.fetchCandidates(ctx, opts)
 	if err != nil {
 		return nil, wrapError("searchWithFilter", err)
 	}
 
 	// Apply advanced metadata filtering
-	if len(metadataFilters) > 0 {
-		filtered, err := s.filterByMetadata(candidates, metadataFilters)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", err)
-		}
-		candidates = filtered
+	candidates, err = s.filterByMetadata(candidates, metadataFilters)
+	if err != nil {
+		return nil, wrapError("searchWithFilter", err)
 	}
 
-	return candidates, nil
+	return s.scoreCandidates(query, candidates, opts), nil
 }
 
 // searchWithHNSW performs vector search using HNSW index
@@ -148,7 +124,20 @@ func (s *SQLiteStore) searchWithHNSW(ctx context.Context, query []float32, opts
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	return s.rankIndexCandidates(ctx, query, candidateIDs, candidates, opts)
+}
+
+// rankIndexCandidates ranks what the index proposed. When the scope filters (or rows that are gone)
+// leave fewer than k of the proposals, items beyond them may belong in the answer: scan instead.
+func (s *SQLiteStore) rankIndexCandidates(ctx context.Context, query []float32, candidateIDs []string, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
+	results, err := s.processCandidates(query, candidates, opts)
+	if err != nil {
+		return nil, err
+	}
+	if len(results) < opts.TopK && (opts.Collection != "" || len(opts.Filter) > 0 || len(candidates) < len(candidateIDs)) {
+		return s.searchLinear(ctx, query, opts)
+	}
+	return results, nil
 }
 
 // searchWithIVF performs vector search using IVF index
@@ -175,7 +164,7 @@ func (s *SQLiteStore) searchWithIVF(ctx context.Context, query []float32, opts S
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	return s.rankIndexCandidates(ctx, query, candidateIDs, candidates, opts)
 }
 
 // searchLinear performs linear vector search without HNSW index
@@ -418,9 +407,12 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) bool {
 	for key, value := range filter {
 		if key == "doc_id" {
-			continue // Already filtered in SQL
+			if emb.DocID != value {
+				return false
+			}
+			continue
 		}
-		if emb.Metadata == nil || emb.Metadata[key] != value {
+		if actual, ok := emb.Metadata[key]; !ok || actual != value {
 			return false
 		}
 	}
-- 
2.43.0


From 770cfc9a85c75d2a320a9f3ac4af5829af6c7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:03 +0000
Subject: [PATCH 09/58] fix: delete a large batch in one transaction

---
 pkg/core/store_crud.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index cdd1596..5f769f6 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -543,7 +543,13 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 	}
 
 	// 1. Delete from SQLite
-	// Use chunks to avoid SQLite parameter limit (default 999)
+	// Use chunks to avoid SQLite parameter limit (default 999), in one transaction
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
 	totalRowsAffected := int64(0)
 	chunkSize := 500
 	for i := 0; i < len(validIDs); i += chunkSize {
@@ -561,7 +567,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 
 		query := fmt.Sprintf("DELETE FROM embeddings WHERE id IN (%s)", strings.Join(placeholders, ","))
-		result, err := s.db.ExecContext(ctx, query, args...)
+		result, err := tx.ExecContext(ctx, query, args...)
 		if err != nil {
 			return wrapError("delete_batch", fmt.Errorf("failed to delete chunk: %w", err))
 		}
@@ -578,6 +584,10 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		return wrapError("delete_batch", ErrNotFound)
 	}
 
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
 	// 2. Delete from Memory Indexes
 	if s.hnswIndex != nil {
 		for _, id := range validIDs {
-- 
2.43.0


From be9001e7adfb8fa512a3db5c40056a8f340f3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:03 +0000
Subject: [PATCH 10/58] fix: apply SetAutoDimAdapt to the adapter in use

---
 pkg/core/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 70d0940..9a80690 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -84,6 +84,7 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	s.config.AutoDimAdapt = policy
+	s.adapter = NewDimensionAdapter(policy)
 }
 
 // isClosed reports whether the store has been closed
-- 
2.43.0


From 9806442d74698f8ba001c4e7c9e25ba071964b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:03 +0000
Subject: [PATCH 11/58] fix: never serve an index that disagrees with the
 stored vectors

A snapshot left by a killed process, or taken under other settings, was
used as it was; training replaced the index before it succeeded; the
HNSW graph ranked by cosine whatever the configured similarity; auto-save
raced with writers.
---
 pkg/core/io.go          |  32 +++++----
 pkg/core/store_index.go | 155 +++++++++++++++++++++++++++++++---------
 pkg/index/hnsw.go       |  34 +++++++++
 3 files changed, 172 insertions(+), 49 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index bb2f0c2..87fd674 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -445,25 +445,29 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 
 	// Try to load as HNSW first
 	if s.config.HNSW.Enabled {
-		if s.hnswIndex == nil {
-			// Initialize index if not exists
-			// HNSW needs distance function, use cosine similarity as default
-			s.hnswIndex = index.NewHNSW(s.config.HNSW.M, s.config.HNSW.EfConstruction, func(a, b []float32) float32 {
-				// Convert cosine similarity to distance (1 - similarity)
-				return float32(1.0 - CosineSimilarity(a, b))
-			})
-		}
-
-		if err := s.hnswIndex.Load(file); err != nil {
+		imported := s.newHNSWIndex()
+		if err := imported.Load(file); err != nil {
 			// Try IVF format
-			file.Seek(0, 0)
-			if s.ivfIndex == nil {
-				s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
+			if _, err := file.Seek(0, io.SeekStart); err != nil {
+				return wrapError("import_index", fmt.Errorf("failed to rewind index file: %w", err))
 			}
-			if err := s.ivfIndex.Load(file); err != nil {
+			ivf := index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
+			if err := ivf.Load(file); err != nil {
 				return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
 			}
+			s.ivfIndex = ivf
+			return nil
+		}
+
+		// An index that does not hold exactly the stored vectors would hide some of them
+		vectors, err := s.storedVectors(ctx)
+		if err != nil {
+			return wrapError("import_index", err)
+		}
+		if !imported.Matches(vectors) {
+			return wrapError("import_index", fmt.Errorf("index does not match the stored embeddings"))
 		}
+		s.hnswIndex = imported
 		return nil
 	}
 
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index cfcbb15..6c6c82e 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"slices"
 	"sync/atomic"
 	"time"
 
@@ -33,21 +34,7 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 		}
 	}
 
-	// Create HNSW index with appropriate distance function
-	// Since we can't compare functions directly, we'll use cosine distance as default
-	// which works well for most similarity functions
-	distFunc := index.CosineDistance
-
-	s.hnswIndex = index.NewHNSW(
-		s.config.HNSW.M,
-		s.config.HNSW.EfConstruction,
-		distFunc,
-	)
-
-	// Set quantizer to HNSW index if available
-	if s.quantizer != nil {
-		s.hnswIndex.SetQuantizer(s.quantizer)
-	}
+	s.hnswIndex = s.newHNSWIndex()
 
 	// Try to load from snapshot first
 	loaded, err := s.loadIndexSnapshot(ctx, "HNSW")
@@ -56,8 +43,19 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 	}
 
 	if loaded {
-		s.logger.Info("HNSW index loaded from snapshot")
-		return nil
+		// The snapshot may predate later writes (the process was killed) or other
+		// settings; it is only usable if it holds exactly what is stored
+		vectors, err := s.storedVectors(ctx)
+		if err != nil {
+			return err
+		}
+		if s.hnswIndex.Matches(vectors) {
+			s.logger.Info("HNSW index loaded from snapshot")
+			return nil
+		}
+		s.logger.Warn("HNSW snapshot does not match the stored vectors, rebuilding")
+		loaded = false
+		s.hnswIndex = s.newHNSWIndex()
 	}
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
@@ -71,6 +69,74 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 	return s.rebuildHNSWIndex(ctx)
 }
 
+// newHNSWIndex creates an empty HNSW index that ranks like the configured similarity function
+func (s *SQLiteStore) newHNSWIndex() *index.HNSW {
+	hnsw := index.NewHNSW(
+		s.config.HNSW.M,
+		s.config.HNSW.EfConstruction,
+		func(a, b []float32) float32 { return float32(-s.similarityFn(a, b)) },
+	)
+
+	// Set quantizer to HNSW index if available
+	if s.quantizer != nil {
+		hnsw.SetQuantizer(s.quantizer)
+	}
+	return hnsw
+}
+
+// storedVectors reads every stored vector by embedding ID
+func (s *SQLiteStore) storedVectors(ctx context.Context) (map[string][]float32, error) {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, vector FROM embeddings")
+	if err != nil {
+		return nil, fmt.Errorf("failed to query existing vectors: %w", err)
+	}
+	defer func() { _ = rows.Close() }()
+
+	vectors := make(map[string][]float32)
+	for rows.Next() {
+		var id string
+		var vectorBytes []byte
+		if err := rows.Scan(&id, &vectorBytes); err != nil {
+			return nil, fmt.Errorf("failed to scan vector: %w", err)
+		}
+		vec, err := encoding.DecodeVector(vectorBytes)
+		if err != nil {
+			s.logger.Warn("failed to decode stored vector", "id", id, "error", err)
+			continue
+		}
+		vectors[id] = vec
+	}
+	return vectors, rows.Err()
+}
+
+// reconcileIVFIndex brings a loaded IVF index in line with the stored vectors
+func (s *SQLiteStore) reconcileIVFIndex(ctx context.Context) error {
+	vectors, err := s.storedVectors(ctx)
+	if err != nil {
+		return err
+	}
+	for _, id := range append([]string(nil), s.ivfIndex.IDs...) {
+		if _, ok := vectors[id]; !ok {
+			if err := s.ivfIndex.Delete(id); err != nil {
+				s.logger.Warn("failed to drop vector from IVF index", "id", id, "error", err)
+			}
+		}
+	}
+	known := make(map[string][]float32, len(s.ivfIndex.IDs))
+	for i, id := range s.ivfIndex.IDs {
+		known[id] = s.ivfIndex.Vectors[i]
+	}
+	for id, vec := range vectors {
+		if old, ok := known[id]; ok && slices.Equal(old, vec) {
+			continue
+		}
+		if err := s.ivfIndex.Add(id, vec); err != nil {
+			return fmt.Errorf("failed to add vector %s to IVF index: %w", id, err)
+		}
+	}
+	return nil
+}
+
 // rebuildHNSWIndex rebuilds the HNSW index from existing vectors in the database
 func (s *SQLiteStore) rebuildHNSWIndex(ctx context.Context) error {
 	if s.hnswIndex == nil {
@@ -198,7 +264,24 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 		s.logger.Warn("failed to load IVF snapshot", "error", err)
 	}
 
+	if loaded && s.ivfIndex.Dimension != s.config.VectorDim {
+		s.logger.Warn("IVF snapshot has another dimension, ignoring it")
+		s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, nCentroids)
+		loaded = false
+	}
+
+	// The configured probe count applies to a loaded index too
+	if s.config.IVF.NProbe > 0 {
+		s.ivfIndex.SetNProbe(s.config.IVF.NProbe)
+	}
+
 	if loaded {
+		// The snapshot may predate later writes if the process was killed
+		if s.ivfIndex.Trained {
+			if err := s.reconcileIVFIndex(ctx); err != nil {
+				return err
+			}
+		}
 		s.logger.Info("IVF index loaded from snapshot")
 		return nil
 	}
@@ -234,18 +317,14 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		}
 	}
 
-	if s.ivfIndex == nil {
-		if s.config.VectorDim <= 0 {
-			return wrapError("train_index", fmt.Errorf("vector dimension not set"))
-		}
-		s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-	} else {
-		// Re-initialize to change number of centroids if needed, or just retrain
-		if s.ivfIndex.NCentroids != numCentroids {
-			s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-		} else {
-			s.ivfIndex.Clear() // Clear existing data to re-train
-		}
+	if s.config.VectorDim <= 0 {
+		return wrapError("train_index", fmt.Errorf("vector dimension not set"))
+	}
+
+	// Train a new index aside, so that a failure leaves the current one in use
+	trained := index.NewIVFIndex(s.config.VectorDim, numCentroids)
+	if s.config.IVF.NProbe > 0 {
+		trained.SetNProbe(s.config.IVF.NProbe)
 	}
 
 	s.logger.Info("training IVF index", "nCentroids", numCentroids)
@@ -280,12 +359,16 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		vectors = append(vectors, vec)
 	}
 
+	if err := rows.Err(); err != nil {
+		return wrapError("train_index", fmt.Errorf("error iterating rows: %w", err))
+	}
+
 	if len(vectors) == 0 {
 		return wrapError("train_index", fmt.Errorf("no vectors found for training"))
 	}
 
 	// Train the index
-	if err := s.ivfIndex.Train(vectors); err != nil {
+	if err := trained.Train(vectors); err != nil {
 		return wrapError("train_index", err)
 	}
 
@@ -294,7 +377,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	// Add all vectors to the index
 	var errorCount int
 	for i, vec := range vectors {
-		if err := s.ivfIndex.Add(ids[i], vec); err != nil {
+		if err := trained.Add(ids[i], vec); err != nil {
 			s.logger.Warn("failed to add vector to IVF index", "id", ids[i], "error", err)
 			errorCount++
 		}
@@ -304,6 +387,8 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		s.logger.Warn("some vectors failed to add to IVF index", "count", errorCount)
 	}
 
+	s.ivfIndex = trained
+
 	return nil
 }
 
@@ -477,11 +562,10 @@ func (s *SQLiteStore) startAutoSave() {
 
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
+	// Hold off writers so that the snapshot is taken from one state of the store
 	s.mu.RLock()
-	closed := s.closed
-	s.mu.RUnlock()
-
-	if closed {
+	if s.closed {
+		s.mu.RUnlock()
 		return
 	}
 
@@ -493,6 +577,7 @@ func (s *SQLiteStore) autoSaveLoop() {
 		s.logger.Debug("auto-save completed")
 	}
 	cancel()
+	s.mu.RUnlock()
 
 	// Schedule next save
 	s.saveMu.Lock()
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 75ccdc9..1c2c84d 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -2,6 +2,7 @@
 package index
 
 import (
+	"bytes"
 	"container/heap"
 	"encoding/gob"
 	"errors"
@@ -9,6 +10,7 @@ import (
 	"io"
 	"math"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 )
@@ -596,6 +598,38 @@ func (h *HNSW) Size() int {
 	return count
 }
 
+// Matches reports whether the index holds exactly the given vectors
+func (h *HNSW) Matches(vectors map[string][]float32) bool {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+
+	live := 0
+	for id, node := range h.Nodes {
+		if node.Deleted {
+			continue
+		}
+		live++
+		vector, ok := vectors[id]
+		if !ok {
+			return false
+		}
+		if node.Vector != nil {
+			if !slices.Equal(node.Vector, vector) {
+				return false
+			}
+			continue
+		}
+		if h.Quantizer == nil {
+			return false
+		}
+		encoded, err := h.Quantizer.Encode(vector)
+		if err != nil || !bytes.Equal(encoded, node.Quantized) {
+			return false
+		}
+	}
+	return live == len(vectors)
+}
+
 // Stats returns index statistics
 func (h *HNSW) Stats() map[string]interface{} {
 	h.mu.RLock()
-- 
2.43.0


From 604d3f7a25e4c34c412163f6f5edf71817974901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:52 +0000
Subject: [PATCH 12/58] fix: evaluate metadata filters one way everywhere, and
 parse documented filter strings

---
 pkg/core/advanced_filter.go | 316 ++++++++++++++++++++++++++----------
 pkg/core/io.go              |  31 +---
 pkg/core/store_crud.go      |  48 ++----
 3 files changed, 257 insertions(+), 138 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 61b701f..f0035f8 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"reflect"
 	"regexp"
 	"sort"
 	"strconv"
@@ -48,63 +49,124 @@ type AdvancedSearchOptions struct {
 // ParseFilterString parses a string filter expression into FilterExpression
 // Example: "(tag:ai OR tag:ml) AND date>2024 AND price BETWEEN 100 AND 500"
 func ParseFilterString(filterStr string) (*FilterExpression, error) {
-	// Simple parser for demonstration - in production use a proper parser
 	filterStr = strings.TrimSpace(filterStr)
-	
-	// Handle parentheses for grouping
-	if strings.HasPrefix(filterStr, "(") && strings.HasSuffix(filterStr, ")") {
-		inner := filterStr[1 : len(filterStr)-1]
-		return ParseFilterString(inner)
+
+	// Parentheses around the whole expression only group it
+	if strings.HasPrefix(filterStr, "(") && closingParen(filterStr) == len(filterStr)-1 {
+		return ParseFilterString(filterStr[1 : len(filterStr)-1])
 	}
-	
-	// Check for AND/OR at top level
-	if idx := strings.Index(filterStr, " AND "); idx > 0 {
+
+	// OR binds weaker than AND
+	for _, op := range []FilterOperator{FilterOR, FilterAND} {
+		sep := " " + string(op) + " "
+		idx := topLevelIndex(filterStr, sep)
+		if idx <= 0 {
+			continue
+		}
 		left, err := ParseFilterString(filterStr[:idx])
 		if err != nil {
 			return nil, err
 		}
-		right, err := ParseFilterString(filterStr[idx+5:])
+		right, err := ParseFilterString(filterStr[idx+len(sep):])
 		if err != nil {
 			return nil, err
 		}
 		return &FilterExpression{
-			Operator: FilterAND,
+			Operator: op,
 			Children: []*FilterExpression{left, right},
 		}, nil
 	}
-	
-	if idx := strings.Index(filterStr, " OR "); idx > 0 {
-		left, err := ParseFilterString(filterStr[:idx])
-		if err != nil {
-			return nil, err
-		}
-		right, err := ParseFilterString(filterStr[idx+4:])
+
+	if strings.HasPrefix(filterStr, "NOT ") || strings.HasPrefix(filterStr, "NOT(") {
+		child, err := ParseFilterString(filterStr[3:])
 		if err != nil {
 			return nil, err
 		}
-		return &FilterExpression{
-			Operator: FilterOR,
-			Children: []*FilterExpression{left, right},
-		}, nil
+		return &FilterExpression{Operator: FilterNOT, Children: []*FilterExpression{child}}, nil
 	}
-	
+
 	// Parse comparison operators
 	return parseComparison(filterStr)
 }
 
+// scanTopLevel calls visit at every byte that is outside quotes and parentheses until visit returns true
+func scanTopLevel(s string, visit func(i int) bool) {
+	depth := 0
+	quote := byte(0)
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+			continue
+		case depth == 0 && visit(i):
+			return
+		}
+		switch c {
+		case '\'', '"':
+			// An apostrophe inside a bare word (it's) is not a quote
+			if i == 0 || strings.IndexByte(" (,=:<>", s[i-1]) >= 0 {
+				quote = c
+			}
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+	}
+}
+
+// closingParen returns the index of the parenthesis that closes the one s starts with, or -1
+func closingParen(s string) int {
+	end := -1
+	scanTopLevel(s, func(i int) bool {
+		if i > 0 {
+			end = i - 1
+		}
+		return i > 0
+	})
+	if end < 0 && strings.HasSuffix(s, ")") {
+		end = len(s) - 1
+	}
+	return end
+}
+
+// topLevelIndex returns the index of the first sep outside quotes and parentheses, or -1.
+// The AND of "x BETWEEN a AND b" does not count.
+func topLevelIndex(s, sep string) int {
+	found, inRange := -1, false
+	scanTopLevel(s, func(i int) bool {
+		switch {
+		case strings.HasPrefix(s[i:], " BETWEEN "):
+			inRange = true
+			if sep != " BETWEEN " {
+				return false
+			}
+		case inRange && strings.HasPrefix(s[i:], " AND "):
+			inRange = false
+			return false
+		}
+		if strings.HasPrefix(s[i:], sep) {
+			found = i
+			return true
+		}
+		return false
+	})
+	return found
+}
+
 func parseComparison(expr string) (*FilterExpression, error) {
 	// Check for BETWEEN
-	if strings.Contains(expr, " BETWEEN ") {
-		parts := strings.Split(expr, " BETWEEN ")
-		if len(parts) != 2 {
-			return nil, fmt.Errorf("invalid BETWEEN expression: %s", expr)
-		}
-		
-		field := strings.TrimSpace(parts[0])
-		rangeParts := strings.Split(parts[1], " AND ")
-		if len(rangeParts) != 2 {
-			return nil, fmt.Errorf("invalid BETWEEN range: %s", parts[1])
+	if idx := topLevelIndex(expr, " BETWEEN "); idx > 0 {
+		field := strings.TrimSpace(expr[:idx])
+		bounds := expr[idx+len(" BETWEEN "):]
+		sep := topLevelIndex(bounds, " AND ")
+		if sep < 0 || topLevelIndex(bounds[sep+len(" AND "):], " AND ") >= 0 {
+			return nil, fmt.Errorf("invalid BETWEEN range: %s", bounds)
 		}
+		rangeParts := []string{bounds[:sep], bounds[sep+len(" AND "):]}
 		
 		min, err := parseValue(strings.TrimSpace(rangeParts[0]))
 		if err != nil {
@@ -123,14 +185,9 @@ func parseComparison(expr string) (*FilterExpression, error) {
 	}
 	
 	// Check for IN
-	if strings.Contains(expr, " IN ") {
-		parts := strings.Split(expr, " IN ")
-		if len(parts) != 2 {
-			return nil, fmt.Errorf("invalid IN expression: %s", expr)
-		}
-		
-		field := strings.TrimSpace(parts[0])
-		valueStr := strings.TrimSpace(parts[1])
+	if idx := topLevelIndex(expr, " IN "); idx > 0 {
+		field := strings.TrimSpace(expr[:idx])
+		valueStr := strings.TrimSpace(expr[idx+len(" IN "):])
 		
 		// Parse array values
 		if !strings.HasPrefix(valueStr, "(") || !strings.HasSuffix(valueStr, ")") {
@@ -138,7 +195,12 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		}
 		
 		valueStr = valueStr[1 : len(valueStr)-1]
-		valueParts := strings.Split(valueStr, ",")
+		var valueParts []string
+		for idx := topLevelIndex(valueStr, ","); idx >= 0; idx = topLevelIndex(valueStr, ",") {
+			valueParts = append(valueParts, valueStr[:idx])
+			valueStr = strings.TrimSpace(valueStr[idx+1:])
+		}
+		valueParts = append(valueParts, valueStr)
 		values := make([]interface{}, len(valueParts))
 		for i, v := range valueParts {
 			val, err := parseValue(strings.TrimSpace(v))
@@ -163,15 +225,17 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		{">=", FilterGTE},
 		{"<=", FilterLTE},
 		{"!=", FilterNE},
+		{":=", FilterEQ}, // Alternative syntax
 		{">", FilterGT},
 		{"<", FilterLT},
 		{"=", FilterEQ},
-		{":=", FilterEQ}, // Alternative syntax
-		{":", FilterEQ},  // Shorthand
+		{":", FilterEQ}, // Shorthand
 	}
-	
+
+	// The leftmost operator splits the comparison; whatever follows it is the value
+	first := strings.IndexAny(expr, "><!=:")
 	for _, op := range operators {
-		if idx := strings.Index(expr, op.op); idx > 0 {
+		if idx := first; idx > 0 && strings.HasPrefix(expr[idx:], op.op) {
 			field := strings.TrimSpace(expr[:idx])
 			valueStr := strings.TrimSpace(expr[idx+len(op.op):])
 			value, err := parseValue(valueStr)
@@ -194,10 +258,11 @@ func parseValue(str string) (interface{}, error) {
 	str = strings.TrimSpace(str)
 	
 	// String with quotes
-	if strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
+	if len(str) < 2 {
+		// Too short for quotes
+	} else if strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
 		return str[1 : len(str)-1], nil
-	}
-	if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
+	} else if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
 		return str[1 : len(str)-1], nil
 	}
 	
@@ -248,7 +313,18 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 			}
 		}
 		return strings.Join(clauses, " OR "), params
-		
+
+	case FilterNOT:
+		if len(filter.Children) == 0 {
+			return "", nil
+		}
+		clause, childParams := BuildSQLFromFilter(filter.Children[0], paramIndex)
+		if clause == "" {
+			return "", nil
+		}
+		// A condition on a missing field is false, so its negation is true
+		return "NOT COALESCE((" + clause + "), 0)", childParams
+
 	case FilterEQ:
 		*paramIndex++
 		params = append(params, filter.Value)
@@ -280,13 +356,19 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", filter.Field), params
 		
 	case FilterBETWEEN:
-		values := filter.Value.([]interface{})
+		values, ok := valueList(filter.Value)
+		if !ok || len(values) != 2 {
+			return "0", nil
+		}
 		*paramIndex += 2
 		params = append(params, values[0], values[1])
 		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) BETWEEN ? AND ?", filter.Field), params
 		
 	case FilterIN:
-		values := filter.Value.([]interface{})
+		values, ok := valueList(filter.Value)
+		if !ok {
+			return "0", nil
+		}
 		placeholders := make([]string, len(values))
 		for i, v := range values {
 			*paramIndex++
@@ -524,43 +606,36 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	
-	if s.closed {
-		return nil, wrapError("advanced_search", ErrStoreClosed)
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("advanced_search", err)
 	}
-	
-	// Build SQL query with pre-filter
-	var whereClause string
-	var params []interface{}
-	
-	if opts.PreFilter != nil {
-		paramIndex := 0
-		whereClause, params = BuildSQLFromFilter(opts.PreFilter, &paramIndex)
+
+	for _, filter := range []*FilterExpression{opts.PreFilter, opts.PostFilter} {
+		if filter == nil {
+			continue
+		}
+		if err := validateFilter(filter); err != nil {
+			return nil, wrapError("advanced_search", err)
+		}
 	}
-	
-	// Fetch candidates with pre-filter
-	candidates, err := s.fetchCandidatesWithSQL(ctx, whereClause, params, opts.SearchOptions)
+
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
 	if err != nil {
 		return nil, err
 	}
-	
-	// Score candidates
+
+	// Score the candidates both filters admit
 	results := make([]ScoredEmbedding, 0, len(candidates))
 	for _, candidate := range candidates {
-		score := s.similarityFn(query, candidate.Vector)
-		candidate.Score = score
-		
-		// Apply post-filter if specified
-		if opts.PostFilter != nil {
-			// Convert metadata to interface{} map
-			metadataIntf := make(map[string]interface{})
-			for k, v := range candidate.Metadata {
-				metadataIntf[k] = v
-			}
-			if !evaluateFilter(opts.PostFilter, metadataIntf) {
-				continue
-			}
+		if !matchesExpression(opts.PreFilter, candidate.Metadata) || !matchesExpression(opts.PostFilter, candidate.Metadata) {
+			continue
+		}
+
+		candidate.Score = s.similarityFn(query, candidate.Vector)
+		if opts.Threshold > 0 && candidate.Score < opts.Threshold {
+			continue
 		}
-		
 		results = append(results, candidate)
 	}
 	
@@ -673,7 +748,10 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values, ok := valueList(filter.Value)
+		if !ok || len(values) != 2 {
+			return false
+		}
 		return compareValues(val, values[0], FilterGTE) && compareValues(val, values[1], FilterLTE)
 		
 	case FilterIN:
@@ -681,7 +759,7 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values, _ := valueList(filter.Value)
 		for _, v := range values {
 			if compareValues(val, v, FilterEQ) {
 				return true
@@ -696,10 +774,19 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		}
 		pattern := fmt.Sprintf("%v", filter.Value)
 		text := fmt.Sprintf("%v", val)
-		// Convert SQL LIKE pattern to regex
+		// Convert SQL LIKE pattern to regex; like SQL, ignore case
+		pattern = regexp.QuoteMeta(pattern)
 		pattern = strings.ReplaceAll(pattern, "%", ".*")
 		pattern = strings.ReplaceAll(pattern, "_", ".")
-		matched, _ := regexp.MatchString("^"+pattern+"$", text)
+		matched, _ := regexp.MatchString("(?is)^"+pattern+"$", text)
+		return matched
+
+	case FilterREGEX:
+		val, exists := metadata[filter.Field]
+		if !exists {
+			return false
+		}
+		matched, _ := regexp.MatchString(fmt.Sprintf("%v", filter.Value), fmt.Sprintf("%v", val))
 		return matched
 		
 	default:
@@ -707,6 +794,65 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 	}
 }
 
+// validateFilter reports why an expression cannot be evaluated
+func validateFilter(filter *FilterExpression) error {
+	if filter == nil {
+		return fmt.Errorf("missing filter expression")
+	}
+	switch filter.Operator {
+	case FilterAND, FilterOR, FilterNOT:
+		if len(filter.Children) == 0 || (filter.Operator == FilterNOT && len(filter.Children) != 1) {
+			return fmt.Errorf("wrong number of operands for %s filter", filter.Operator)
+		}
+		for _, child := range filter.Children {
+			if err := validateFilter(child); err != nil {
+				return err
+			}
+		}
+	case FilterEQ, FilterNE, FilterGT, FilterGTE, FilterLT, FilterLTE, FilterLIKE:
+	case FilterBETWEEN:
+		if values, ok := valueList(filter.Value); !ok || len(values) != 2 {
+			return fmt.Errorf("BETWEEN filter on %q needs two values", filter.Field)
+		}
+	case FilterIN:
+		if _, ok := valueList(filter.Value); !ok {
+			return fmt.Errorf("IN filter on %q needs a list of values", filter.Field)
+		}
+	case FilterREGEX:
+		if _, err := regexp.Compile(fmt.Sprintf("%v", filter.Value)); err != nil {
+			return fmt.Errorf("invalid REGEX filter on %q: %w", filter.Field, err)
+		}
+	default:
+		return fmt.Errorf("unsupported filter operator %q", filter.Operator)
+	}
+	return nil
+}
+
+// matchesExpression evaluates a filter expression against stored metadata
+func matchesExpression(filter *FilterExpression, metadata map[string]string) bool {
+	values := make(map[string]interface{}, len(metadata))
+	for k, v := range metadata {
+		values[k] = v
+	}
+	return evaluateFilter(filter, values)
+}
+
+// valueList returns the elements of a slice of any type
+func valueList(value interface{}) ([]interface{}, bool) {
+	if list, ok := value.([]interface{}); ok {
+		return list, true
+	}
+	v := reflect.ValueOf(value)
+	if v.Kind() != reflect.Slice {
+		return nil, false
+	}
+	list := make([]interface{}, v.Len())
+	for i := range list {
+		list[i] = v.Index(i).Interface()
+	}
+	return list, true
+}
+
 // compareValues compares two values based on operator
 func compareValues(a, b interface{}, op FilterOperator) bool {
 	// Convert to comparable types
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 87fd674..11149f6 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -9,7 +9,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 	"time"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -199,34 +198,22 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 
 // getAllEmbeddings retrieves all embeddings with optional filtering
 func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([]*Embedding, error) {
-	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
-		FROM embeddings e
-		LEFT JOIN collections c ON e.collection_id = c.id
-	`
-
-	var args []interface{}
+	var filter *FilterExpression
 	if opts.Filter != nil && !opts.Filter.IsEmpty() {
-		whereClause, params := opts.Filter.ToSQL()
-		if whereClause != "" {
-			// Prefix metadata with 'e.' to avoid ambiguity with collections table
-			whereClause = strings.ReplaceAll(whereClause, "json_extract(metadata", "json_extract(e.metadata")
-			query += " WHERE " + whereClause
-			args = params
+		filter = opts.Filter.expression
+		if err := validateFilter(filter); err != nil {
+			return nil, wrapError("get_all_embeddings", err)
 		}
 	}
 
-	rows, err := s.db.QueryContext(ctx, query, args...)
+	candidates, err := s.fetchCandidates(ctx, SearchOptions{})
 	if err != nil {
-		return nil, wrapError("get_all_embeddings", fmt.Errorf("failed to query: %w", err))
+		return nil, wrapError("get_all_embeddings", err)
 	}
-	defer func() { _ = rows.Close() }()
 
 	var embeddings []*Embedding
-	for rows.Next() {
-		scoredEmb, err := s.scanEmbedding(rows)
-		if err != nil {
-			// Log error but continue with other rows
+	for _, scoredEmb := range candidates {
+		if !matchesExpression(filter, scoredEmb.Metadata) {
 			continue
 		}
 
@@ -247,7 +234,7 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 		embeddings = append(embeddings, emb)
 	}
 
-	return embeddings, rows.Err()
+	return embeddings, nil
 }
 
 // Load imports embeddings from a reader
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 5f769f6..6486874 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -623,58 +623,44 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 		return wrapError("delete_by_filter", ErrStoreClosed)
 	}
 
-	// Build WHERE clause from filter
-	whereClause, params := filter.ToSQL()
-	if whereClause == "" {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to build filter"))
+	if err := validateFilter(filter.expression); err != nil {
+		return wrapError("delete_by_filter", err)
 	}
 
-	// First, get the IDs that will be deleted (for index cleanup)
-	idQuery := fmt.Sprintf("SELECT id FROM embeddings WHERE %s", whereClause)
-	rows, err := s.db.QueryContext(ctx, idQuery, params...)
+	// First, get the IDs that will be deleted, by the same evaluation searches use
+	candidates, err := s.fetchCandidates(ctx, SearchOptions{})
 	if err != nil {
 		return wrapError("delete_by_filter", fmt.Errorf("failed to query embeddings: %w", err))
 	}
 
 	var idsToDelete []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			idsToDelete = append(idsToDelete, id)
+	for _, candidate := range candidates {
+		if matchesExpression(filter.expression, candidate.Metadata) {
+			idsToDelete = append(idsToDelete, candidate.ID)
 		}
 	}
-	if closeErr := rows.Close(); closeErr != nil {
-		s.logger.Warn("failed to close rows during delete by filter", "error", closeErr)
-	}
 
 	if len(idsToDelete) == 0 {
 		return nil // Nothing to delete
 	}
 
 	// Now delete the embeddings
-	deleteQuery := fmt.Sprintf("DELETE FROM embeddings WHERE %s", whereClause)
-	_, err = s.db.ExecContext(ctx, deleteQuery, params...)
+	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to delete embeddings: %w", err))
+		return wrapError("delete_by_filter", fmt.Errorf("failed to begin transaction: %w", err))
 	}
-
-	// Update Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during filter delete", "id", id, "error", err)
-			}
+	defer func() { _ = tx.Rollback() }()
+	for _, id := range idsToDelete {
+		if _, err := tx.ExecContext(ctx, "DELETE FROM embeddings WHERE id = ?", id); err != nil {
+			return wrapError("delete_by_filter", fmt.Errorf("failed to delete embeddings: %w", err))
 		}
 	}
-
-	if s.ivfIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during filter delete", "id", id, "error", err)
-			}
-		}
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_by_filter", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(idsToDelete)
+
 	s.logger.Debug("delete by filter completed", "deleted", len(idsToDelete))
 
 	return nil
-- 
2.43.0


From d10bc860de4f9615cb10ef03ea287e4b307c6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 13/58] fix: access-controlled search honours the scope filters
 and inherited access lists

---
 pkg/core/advanced_filter.go |  7 +++++--
 pkg/core/advanced_search.go | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index f0035f8..783a787 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -658,12 +658,13 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
+		LEFT JOIN documents d ON e.doc_id = d.id
 	`
 	
 	conditions := []string{}
 	
 	if whereClause != "" {
-		conditions = append(conditions, whereClause)
+		conditions = append(conditions, "("+whereClause+")")
 	}
 	
 	if opts.Collection != "" {
@@ -687,7 +688,9 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 		if err != nil {
 			continue
 		}
-		candidates = append(candidates, candidate)
+		if s.matchesFilter(candidate.Embedding, opts.Filter) {
+			candidates = append(candidates, candidate)
+		}
 	}
 	
 	return candidates, rows.Err()
diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 75a693d..7c9989c 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -25,14 +25,20 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-	if s.closed {
-		return nil, wrapError("search_acl", ErrStoreClosed)
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
+		return nil, wrapError("search_acl", err)
 	}
 
 	// If ACL is empty, only return public documents (acl IS NULL)
 	// If ACL is provided, return public OR matching acl
-	
-	whereClause := "json_extract(acl, '$') IS NULL" // Public
+	// A chunk without a list of its own inherits its document's
+
+	list := func(column string) string {
+		return fmt.Sprintf("NULLIF(NULLIF(CAST(%s AS TEXT), 'null'), '[]')", column)
+	}
+	effective := fmt.Sprintf("COALESCE(%s, %s)", list("e.acl"), list("d.acl"))
+	whereClause := effective + " IS NULL" // Public
 	params := []interface{}{}
 
 	if len(acl) > 0 {
@@ -42,7 +48,7 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 			params = append(params, id)
 		}
 		// Check if any provided ACL ID exists in the acl JSON array
-		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(acl) WHERE value IN (%s))", strings.Join(placeholders, ","))
+		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(%s) WHERE value IN (%s))", effective, strings.Join(placeholders, ","))
 	}
 
 	// Fetch candidates with ACL filter
@@ -214,6 +220,9 @@ func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding
 	for _, candidate := range candidates {
 		score := s.similarityFn(query, candidate.Vector)
 		candidate.Score = score
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
 		results = append(results, candidate)
 	}
 	
-- 
2.43.0


From fbd5a9efb47b29a63069696b82b89f2ce3b62b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 14/58] fix: aggregate over rows without metadata, typed filter
 values and groups

---
 pkg/core/aggregations.go | 48 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 598ff25..cb5ec57 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -60,6 +60,14 @@ func (s *SQLiteStore) Aggregate(ctx context.Context, req AggregationRequest) (*A
 		return nil, wrapError("aggregate", err)
 	}
 
+	// Any aggregation with group fields is computed per group
+	if len(req.GroupBy) > 0 {
+		switch req.Type {
+		case AggregationCount, AggregationSum, AggregationAvg, AggregationMin, AggregationMax:
+			return s.aggregateGroupBy(ctx, req)
+		}
+	}
+
 	switch req.Type {
 	case AggregationCount:
 		return s.aggregateCount(ctx, req)
@@ -114,10 +122,10 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	// Use JSON extraction for metadata field
 	query := fmt.Sprintf(`
 		SELECT 
-			SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
+		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
 		req.Field, req.Field)
 
 	args := []interface{}{}
@@ -160,10 +168,10 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 
 	query := fmt.Sprintf(`
 		SELECT 
-			AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
+		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
 		req.Field, req.Field)
 
 	args := []interface{}{}
@@ -211,10 +219,10 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(metadata, '$.%s') AS REAL)) as value,
+			%s(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
+		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
 		aggFunc, req.Field, req.Field)
 
 	args := []interface{}{}
@@ -260,9 +268,9 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	groupByClauses := []string{}
 	for _, field := range req.GroupBy {
 		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s') as %s", field, field))
+			fmt.Sprintf("json_extract(NULLIF(metadata, ''), '$.%s') as %s", field, field))
 		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s')", field))
+			fmt.Sprintf("json_extract(NULLIF(metadata, ''), '$.%s')", field))
 	}
 
 	// Add aggregation based on field
@@ -270,13 +278,13 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.Field != "" {
 		switch req.Type {
 		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("SUM(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
 		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("AVG(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
 		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MIN(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
 		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MAX(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
 		default:
 			aggClause = "COUNT(*) as agg_value"
 		}
@@ -410,22 +418,14 @@ func validateAggregationRequest(req AggregationRequest) error {
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
+		query += fmt.Sprintf(" AND json_extract(NULLIF(metadata, ''), '$.%s') = ?", field)
 		
-		// Convert value to appropriate SQL type
+		// Metadata values are stored as strings
 		switch v := value.(type) {
 		case string:
 			args = append(args, v)
-		case int:
-			args = append(args, v)
-		case float64:
-			args = append(args, v)
-		case bool:
-			if v {
-				args = append(args, 1)
-			} else {
-				args = append(args, 0)
-			}
+		case int, float64, bool:
+			args = append(args, fmt.Sprint(v))
 		default:
 			// Try to convert to JSON string
 			if jsonBytes, err := json.Marshal(v); err == nil {
-- 
2.43.0


From f620ae2525666d9074d818efdf22daf1b253004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 15/58] fix: faceted and range search decide over every
 candidate in scope

---
 pkg/core/faceted_search.go | 299 +++++++++++++------------------------
 1 file changed, 100 insertions(+), 199 deletions(-)

diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index cd402e2..b572009 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -78,259 +78,156 @@ func (s *SQLiteStore) SearchWithFacets(ctx context.Context, query []float32, opt
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	
-	if s.closed {
-		return nil, nil, wrapError("search_faceted", ErrStoreClosed)
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, nil, wrapError("search_faceted", err)
 	}
-	
-	// Build faceted query
-	whereClause, args := s.buildFacetedWhereClause(opts.Facets)
-	
-	// Get candidates with facet filtering
-	candidates, err := s.fetchCandidatesWithFacets(ctx, whereClause, args, opts)
+
+	// Everything in the search scope; facet counts cover all of it
+	inScope, err := s.fetchCandidates(ctx, opts.SearchOptions)
 	if err != nil {
 		return nil, nil, wrapError("search_faceted", err)
 	}
-	
-	// Score and sort candidates
-	results := s.scoreCandidates(query, candidates, opts.SearchOptions)
-	
+
 	// Get facet counts if requested
 	var facetResults []FacetResult
 	if opts.ReturnFacets {
-		facetResults, err = s.computeFacetCounts(ctx, opts)
-		if err != nil {
-			// Don't fail search if facet counting fails
-			facetResults = []FacetResult{}
+		facetResults = computeFacetCounts(inScope, opts)
+	}
+
+	// Get candidates with facet filtering
+	var candidates []ScoredEmbedding
+	for _, candidate := range inScope {
+		if matchesFacets(opts.Facets, candidate.Metadata) {
+			candidates = append(candidates, candidate)
 		}
 	}
+
+	// Score and sort candidates
+	results := s.scoreCandidates(query, candidates, opts.SearchOptions)
 	
 	return results, facetResults, nil
 }
 
-// buildFacetedWhereClause builds SQL WHERE clause from facet filters
-func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (string, []interface{}) {
-	if len(facets) == 0 {
-		return "", nil
-	}
-	
-	var conditions []string
-	var args []interface{}
-	
+// matchesFacets reports whether metadata satisfies every facet filter
+func matchesFacets(facets map[string]FacetFilter, metadata map[string]string) bool {
 	for field, filter := range facets {
-		condition, filterArgs := s.buildFilterCondition(field, filter)
-		if condition != "" {
-			conditions = append(conditions, condition)
-			args = append(args, filterArgs...)
+		if !matchesFacet(field, filter, metadata) {
+			return false
 		}
 	}
-	
-	if len(conditions) == 0 {
-		return "", nil
-	}
-	
-	return strings.Join(conditions, " AND "), args
+	return true
 }
 
-// buildFilterCondition builds SQL condition for a single filter
-func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (string, []interface{}) {
+// matchesFacet evaluates a single facet filter; one that states no condition admits everything
+func matchesFacet(field string, filter FacetFilter, metadata map[string]string) bool {
+	value, exists := metadata[field]
+
 	switch filter.Type {
 	case FilterTypeEquals:
-		if len(filter.Values) > 0 {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", field), filter.Values[:1]
-		}
-		
+		return len(filter.Values) == 0 || (exists && compareValues(value, filter.Values[0], FilterEQ))
+
 	case FilterTypeIn:
-		if len(filter.Values) > 0 {
-			placeholders := make([]string, len(filter.Values))
-			for i := range placeholders {
-				placeholders[i] = "?"
+		for _, v := range filter.Values {
+			if exists && compareValues(value, v, FilterEQ) {
+				return true
 			}
-			return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", field, strings.Join(placeholders, ",")), filter.Values
 		}
-		
+		return len(filter.Values) == 0
+
 	case FilterTypeRange:
-		conditions := []string{}
-		args := []interface{}{}
-		
-		if filter.Min != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", field))
-			args = append(args, filter.Min)
-		}
-		if filter.Max != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", field))
-			args = append(args, filter.Max)
+		if filter.Min != nil && !(exists && compareValues(value, filter.Min, FilterGTE)) {
+			return false
 		}
-		
-		if len(conditions) > 0 {
-			return strings.Join(conditions, " AND "), args
-		}
-		
+		return filter.Max == nil || (exists && compareValues(value, filter.Max, FilterLTE))
+
 	case FilterTypeContains:
-		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{"%" + filter.Pattern + "%"}
-		}
-		
+		return filter.Pattern == "" || (exists && strings.Contains(strings.ToLower(value), strings.ToLower(filter.Pattern)))
+
 	case FilterTypePrefix:
-		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{filter.Pattern + "%"}
-		}
-		
+		return filter.Pattern == "" || (exists && strings.HasPrefix(strings.ToLower(value), strings.ToLower(filter.Pattern)))
+
 	case FilterTypeExists:
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IS NOT NULL", field), nil
-		
+		return exists
+
 	case FilterTypeNested:
-		return s.buildNestedCondition(field, filter)
+		return matchesNestedFacet(field, filter, metadata)
 	}
-	
-	return "", nil
+
+	return true
 }
 
-// buildNestedCondition builds SQL for nested filter conditions
-func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (string, []interface{}) {
+// matchesNestedFacet combines nested filters with the filter's operator
+func matchesNestedFacet(field string, filter FacetFilter, metadata map[string]string) bool {
 	if len(filter.Nested) == 0 {
-		return "", nil
+		return true
 	}
-	
-	var conditions []string
-	var args []interface{}
-	
+
+	all, any := true, false
 	for _, nested := range filter.Nested {
-		condition, nestedArgs := s.buildFilterCondition(field, nested)
-		if condition != "" {
-			conditions = append(conditions, "("+condition+")")
-			args = append(args, nestedArgs...)
+		if matchesFacet(field, nested, metadata) {
+			any = true
+		} else {
+			all = false
 		}
 	}
-	
-	if len(conditions) == 0 {
-		return "", nil
-	}
-	
-	var operator string
+
 	switch filter.Operator {
 	case OperatorOR:
-		operator = " OR "
+		return any
 	case OperatorNOT:
-		return "NOT (" + strings.Join(conditions, " AND ") + ")", args
+		return !all
 	default:
-		operator = " AND "
+		return all
 	}
-	
-	return strings.Join(conditions, operator), args
 }
 
-// fetchCandidatesWithFacets fetches candidates with facet filtering
-func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause string, args []interface{}, opts FacetedSearchOptions) ([]ScoredEmbedding, error) {
-	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
-		FROM embeddings e
-		LEFT JOIN collections c ON e.collection_id = c.id
-	`
-	
-	conditions := []string{}
-	
-	// Add facet conditions
-	if whereClause != "" {
-		conditions = append(conditions, whereClause)
-	}
-	
-	// Add collection filter
-	if opts.Collection != "" {
-		conditions = append(conditions, "c.name = ?")
-		args = append(args, opts.Collection)
-	}
-	
-	// Add metadata filter
-	if opts.Filter != nil {
-		for key, value := range opts.Filter {
-			conditions = append(conditions, fmt.Sprintf("json_extract(metadata, '$.%s') = ?", key))
-			args = append(args, value)
-		}
-	}
-	
-	if len(conditions) > 0 {
-		query += " WHERE " + strings.Join(conditions, " AND ")
-	}
-	
-	// Add limit for performance
-	if opts.TopK > 0 {
-		query += fmt.Sprintf(" LIMIT %d", opts.TopK*10) // Get more candidates for scoring
-	}
-	
-	rows, err := s.db.QueryContext(ctx, query, args...)
-	if err != nil {
-		return nil, fmt.Errorf("failed to query with facets: %w", err)
-	}
-	defer func() {
-		if err := rows.Close(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-	
-	var candidates []ScoredEmbedding
-	for rows.Next() {
-		candidate, err := s.scanEmbedding(rows)
-		if err != nil {
-			continue
-		}
-		candidates = append(candidates, candidate)
+// computeFacetCounts counts the values of each facet field, most frequent first
+func computeFacetCounts(candidates []ScoredEmbedding, opts FacetedSearchOptions) []FacetResult {
+	results := []FacetResult{}
+
+	limit := opts.MaxFacetValues
+	if limit <= 0 {
+		limit = 10
 	}
-	
-	return candidates, rows.Err()
-}
 
-// computeFacetCounts computes facet value counts
-func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearchOptions) ([]FacetResult, error) {
-	results := []FacetResult{}
-	
-	// For each facet field, count distinct values
 	for field := range opts.Facets {
-		query := fmt.Sprintf(`
-			SELECT 
-				json_extract(metadata, '$.%s') as value,
-				COUNT(*) as count
-			FROM embeddings
-			WHERE json_extract(metadata, '$.%s') IS NOT NULL
-			GROUP BY value
-			ORDER BY count DESC
-			LIMIT ?
-		`, field, field)
-		
-		limit := opts.MaxFacetValues
-		if limit <= 0 {
-			limit = 10
+		counts := make(map[string]int)
+		values := []string{}
+		for _, candidate := range candidates {
+			if value, exists := candidate.Metadata[field]; exists {
+				if counts[value] == 0 {
+					values = append(values, value)
+				}
+				counts[value]++
+			}
 		}
-		
-		rows, err := s.db.QueryContext(ctx, query, limit)
-		if err != nil {
-			continue
+
+		sort.Slice(values, func(i, j int) bool {
+			if counts[values[i]] != counts[values[j]] {
+				return counts[values[i]] > counts[values[j]]
+			}
+			return values[i] < values[j]
+		})
+		if len(values) > limit {
+			values = values[:limit]
 		}
-		
+
 		facetResult := FacetResult{
 			Field:  field,
 			Values: make(map[string]int),
 		}
-		
-		for rows.Next() {
-			var value string
-			var count int
-			if err := rows.Scan(&value, &count); err == nil {
-				facetResult.Values[value] = count
-				facetResult.Total += count
-			}
-		}
-		if err := rows.Close(); err != nil {
-			// Log error but don't override the main error
-			_ = err
+		for _, value := range values {
+			facetResult.Values[value] = counts[value]
+			facetResult.Total += counts[value]
 		}
-		
+
 		if len(facetResult.Values) > 0 {
 			results = append(results, facetResult)
 		}
 	}
-	
-	return results, nil
+
+	return results
 }
 
 // RangeSearch performs range-based vector search
@@ -338,14 +235,18 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	
-	if s.closed {
-		return nil, wrapError("range_search", ErrStoreClosed)
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
+		return nil, wrapError("range_search", err)
 	}
 	
 	// Validate radius
 	if radius <= 0 {
 		return nil, fmt.Errorf("radius must be positive, got %f", radius)
 	}
+
+	// A metric that is negative or zero for identical vectors is a negated distance
+	negatedDistance := s.similarityFn([]float32{1}, []float32{1}) <= 0
 	
 	// Get all candidates (no topK limit for range search)
 	candidates, err := s.fetchCandidates(ctx, opts)
@@ -366,11 +267,11 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		
 		// For range search, we need to handle different similarity metrics:
 		// - Euclidean: score is negative distance, so actual distance = -score
-		// - Cosine: score is similarity (0 to 1), so distance = 1 - score
+		// - Cosine: score is similarity (-1 to 1), so distance = 1 - score
 		// - DotProduct: not suitable for range search (unbounded)
 		
 		var distance float32
-		if score <= 0 {
+		if negatedDistance {
 			// Euclidean distance (negative score)
 			distance = float32(-score)
 		} else {
-- 
2.43.0


From 9522591936ef89461d5cf189a59b46a4b27d0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:54 +0000
Subject: [PATCH 16/58] fix: keyword leg of hybrid search honours its scope and
 accepts any text

---
 pkg/core/advanced_search.go | 146 ++++++++++++++----------------------
 1 file changed, 58 insertions(+), 88 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 7c9989c..4312baf 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -3,14 +3,11 @@ package core
 
 import (
 	"context"
-	"database/sql"
 	"fmt"
 	"math"
 	"math/rand"
 	"sort"
 	"strings"
-
-	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
 // HybridSearchOptions for combined vector + keyword search
@@ -70,6 +67,10 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 		return nil, wrapError("hybrid_search", ErrStoreClosed)
 	}
 
+	if opts.TopK <= 0 {
+		opts.TopK = 10
+	}
+
 	// 1. Vector Search (HNSW or Linear)
 	var vectorResults []ScoredEmbedding
 	var err error
@@ -81,33 +82,12 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// 2. Keyword Search (FTS5)
-	ftsRanks := make(map[int64]int)
+	var keywordResults []ScoredEmbedding
 	if textQuery != "" {
-		ftsQuery := `
-			SELECT rowid, rank 
-			FROM chunks_fts 
-			WHERE chunks_fts MATCH ? 
-			ORDER BY rank 
-			LIMIT ?
-		`
 		// Fetch more than topK to have a better pool for fusion
-		limit := opts.TopK * 3
-		if limit <= 0 {
-			limit = 30
-		}
-		
-		rows, err := s.db.QueryContext(ctx, ftsQuery, textQuery, limit)
-		if err == nil {
-			defer rows.Close()
-			rank := 1
-			for rows.Next() {
-				var rowid int64
-				var score float64
-				if err := rows.Scan(&rowid, &score); err == nil {
-					ftsRanks[rowid] = rank
-					rank++
-				}
-			}
+		keywordResults, err = s.keywordCandidates(ctx, textQuery, opts.SearchOptions, opts.TopK*3)
+		if err != nil {
+			return nil, fmt.Errorf("keyword search failed: %w", err)
 		}
 	}
 
@@ -130,66 +110,11 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// Process FTS Ranks
-	// First, we need to map FTS rowids back to IDs
-	if len(ftsRanks) > 0 {
-		rowids := make([]int64, 0, len(ftsRanks))
-		for rid := range ftsRanks {
-			rowids = append(rowids, rid)
-		}
-
-		placeholders := make([]string, len(rowids))
-		args := make([]interface{}, len(rowids))
-		for i, rid := range rowids {
-			placeholders[i] = "?"
-			args[i] = rid
-		}
-
-		query := fmt.Sprintf(
-			"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.rowid "+
-				"FROM embeddings e "+
-				"LEFT JOIN collections c ON e.collection_id = c.id "+
-				"WHERE e.rowid IN (%s)",
-			strings.Join(placeholders, ","),
-		)
-
-		rows, err := s.db.QueryContext(ctx, query, args...)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var id, content, metadataJSON string
-				var docID sql.NullString
-				var collectionName sql.NullString
-				var collectionID int
-				var vectorBytes []byte
-				var rowid int64
-
-				if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
-					continue
-				}
-
-				// Calculate FTS score contribution
-				if rank, ok := ftsRanks[rowid]; ok {
-					score := 1.0 / (k + float64(rank))
-					fusedScores[id] += score
-
-					// If not already in map (from vector search), add it
-					if _, exists := embeddingsMap[id]; !exists {
-						vec, _ := encoding.DecodeVector(vectorBytes)
-						meta, _ := encoding.DecodeMetadata(metadataJSON)
-						
-						embeddingsMap[id] = ScoredEmbedding{
-							Embedding: Embedding{
-								ID:         id,
-								Collection: collectionName.String,
-								Vector:     vec,
-								Content:    content,
-								DocID:      docID.String,
-								Metadata:   meta,
-							},
-						}
-					}
-				}
-			}
+	for i, res := range keywordResults {
+		fusedScores[res.ID] += 1.0 / (k + float64(i+1))
+		// If not already in map (from vector search), add it
+		if _, exists := embeddingsMap[res.ID]; !exists {
+			embeddingsMap[res.ID] = res
 		}
 	}
 
@@ -214,6 +139,51 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	return results, nil
 }
 
+// keywordCandidates returns the embeddings in scope whose text matches, best first
+func (s *SQLiteStore) keywordCandidates(ctx context.Context, textQuery string, opts SearchOptions, limit int) ([]ScoredEmbedding, error) {
+	query := `
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		FROM chunks_fts
+		JOIN embeddings e ON e.rowid = chunks_fts.rowid
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE chunks_fts MATCH ? AND (? = '' OR c.name = ?)
+		ORDER BY chunks_fts.rank, e.rowid
+	`
+	rows, err := s.db.QueryContext(ctx, query, textQuery, opts.Collection, opts.Collection)
+	if err != nil {
+		// Text that is not a valid FTS5 expression is searched for word by word
+		if textQuery = QuoteFTSQuery(textQuery); textQuery == "" {
+			return nil, nil
+		}
+		rows, err = s.db.QueryContext(ctx, query, textQuery, opts.Collection, opts.Collection)
+	}
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	var results []ScoredEmbedding
+	for len(results) < limit && rows.Next() {
+		candidate, err := s.scanEmbedding(rows)
+		if err != nil {
+			return nil, err
+		}
+		if s.matchesFilter(candidate.Embedding, opts.Filter) {
+			results = append(results, candidate)
+		}
+	}
+	return results, rows.Err()
+}
+
+// QuoteFTSQuery turns free text into an FTS5 expression that matches texts containing all of its words
+func QuoteFTSQuery(text string) string {
+	words := strings.Fields(text)
+	for i, word := range words {
+		words[i] = `"` + strings.ReplaceAll(word, `"`, `""`) + `"`
+	}
+	return strings.Join(words, " ")
+}
+
 // scoreAndSort helper
 func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
 	results := make([]ScoredEmbedding, 0, len(candidates))
-- 
2.43.0


From 3381030ec84f92fa7d31c4b4b90572854fdedf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:54 +0000
Subject: [PATCH 17/58] fix: chat history keeps message order, accepts any
 keyword text and refuses work once closed

---
 pkg/core/chat.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 6d75d17..5e8917a 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -114,11 +114,15 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session_history", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, session_id, role, content, vector, metadata, created_at
 		FROM messages 
 		WHERE session_id = ? 
-		ORDER BY created_at DESC 
+		ORDER BY created_at DESC, rowid DESC
 		LIMIT ?
 	`
 
@@ -161,6 +165,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_chat_history", ErrStoreClosed)
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -210,7 +218,7 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		}
 	}
 
-	result := make([]*Message, 0, limit)
+	result := make([]*Message, 0, len(scored))
 	for i := 0; i < len(scored) && i < limit; i++ {
 		result = append(result, scored[i].msg)
 	}
@@ -225,6 +233,10 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("keyword_search_messages", ErrStoreClosed)
+	}
+
 	if query == "" || userID == "" {
 		return nil, nil
 	}
@@ -245,6 +257,13 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 		LIMIT ?
 	`
 	rows, err := s.db.QueryContext(ctx, q, query, userID, excludeSessionID, excludeSessionID, limit)
+	if err != nil {
+		// Text that is not a valid FTS5 expression is searched for word by word
+		if query = QuoteFTSQuery(query); query == "" {
+			return nil, nil
+		}
+		rows, err = s.db.QueryContext(ctx, q, query, userID, excludeSessionID, excludeSessionID, limit)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("keyword search messages: %w", err)
 	}
@@ -259,6 +278,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_messages_by_user", ErrStoreClosed)
+	}
+
 	if userID == "" || len(queryVec) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From c58939e020e2bc745b72d445df8805dd72fe71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:53 +0000
Subject: [PATCH 18/58] fix: a dump loads completely into an empty store and
 malformed input is reported

---
 pkg/core/io.go | 81 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 3 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index 11149f6..d281903 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -211,6 +211,11 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 		return nil, wrapError("get_all_embeddings", err)
 	}
 
+	acls, err := s.accessLists(ctx)
+	if err != nil {
+		return nil, wrapError("get_all_embeddings", err)
+	}
+
 	var embeddings []*Embedding
 	for _, scoredEmb := range candidates {
 		if !matchesExpression(filter, scoredEmb.Metadata) {
@@ -225,6 +230,7 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 			Content:      scoredEmb.Content,
 			DocID:        scoredEmb.DocID,
 			Metadata:     scoredEmb.Metadata,
+			ACL:          acls[scoredEmb.ID],
 		}
 
 		if !opts.IncludeVectors {
@@ -237,9 +243,36 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 	return embeddings, nil
 }
 
+// accessLists returns the access list of every embedding that has one
+func (s *SQLiteStore) accessLists(ctx context.Context) (map[string][]string, error) {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, acl FROM embeddings WHERE acl IS NOT NULL")
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	acls := make(map[string][]string)
+	for rows.Next() {
+		var id string
+		var aclJSON []byte
+		if err := rows.Scan(&id, &aclJSON); err != nil {
+			return nil, err
+		}
+		var acl []string
+		if err := json.Unmarshal(aclJSON, &acl); err != nil {
+			return nil, fmt.Errorf("invalid access list of %s: %w", id, err)
+		}
+		acls[id] = acl
+	}
+	return acls, rows.Err()
+}
+
 // Load imports embeddings from a reader
 func (s *SQLiteStore) Load(ctx context.Context, r io.Reader, opts LoadOptions) (*ImportStats, error) {
-	if s.closed {
+	s.mu.RLock()
+	closed := s.closed
+	s.mu.RUnlock()
+	if closed {
 		return nil, wrapError("load", ErrStoreClosed)
 	}
 
@@ -316,7 +349,12 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 				break
 			}
 			stats.FailedCount++
-			continue
+			// A record of the wrong shape can be skipped; after malformed JSON the decoder cannot go on
+			var typeErr *json.UnmarshalTypeError
+			if errors.As(err, &typeErr) {
+				continue
+			}
+			return stats, wrapError("load_jsonl", fmt.Errorf("failed to decode: %w", err))
 		}
 
 		skipped, err := s.processImportEmbedding(ctx, &emb, opts)
@@ -344,6 +382,11 @@ func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding
 		}
 	}
 
+	// The dump names collections and documents the target may not have yet
+	if err := s.ensureImportParents(ctx, emb); err != nil {
+		return false, err
+	}
+
 	// Use upsert or insert
 	if opts.Upsert {
 		return false, s.Upsert(ctx, emb)
@@ -352,6 +395,38 @@ func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding
 	return false, s.Upsert(ctx, emb)
 }
 
+// ensureImportParents creates the collection and document an imported embedding belongs to
+func (s *SQLiteStore) ensureImportParents(ctx context.Context, emb *Embedding) error {
+	// Nothing is created for a vector the store will refuse
+	if err := s.checkIncomingVector(emb.Vector); err != nil {
+		return err
+	}
+	s.mu.RLock()
+	dim := s.config.VectorDim
+	s.mu.RUnlock()
+	if dim > 0 && len(emb.Vector) != dim {
+		if _, err := s.adapter.AdaptVector(emb.Vector, len(emb.Vector), dim); err != nil {
+			return err
+		}
+	}
+
+	if emb.Collection != "" {
+		if _, err := s.GetCollection(ctx, emb.Collection); err != nil {
+			if _, err := s.CreateCollection(ctx, emb.Collection, len(emb.Vector)); err != nil {
+				return err
+			}
+		}
+	}
+	if emb.DocID != "" {
+		if _, err := s.GetDocument(ctx, emb.DocID); errors.Is(err, ErrNotFound) {
+			if err := s.CreateDocument(ctx, &Document{ID: emb.DocID, Title: emb.DocID}); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 // DumpToFile exports data to a file
 func (s *SQLiteStore) DumpToFile(ctx context.Context, filepath string, opts DumpOptions) (*DumpStats, error) {
 	file, err := os.Create(filepath)
@@ -471,7 +546,7 @@ func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	}
 
 	// Use SQLite backup API
-	_, err := s.db.ExecContext(ctx, fmt.Sprintf("VACUUM INTO '%s'", filepath))
+	_, err := s.db.ExecContext(ctx, "VACUUM INTO ?", filepath)
 	if err != nil {
 		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
 	}
-- 
2.43.0


From 69a8638d913e34446b501975863f157add03e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:31 +0000
Subject: [PATCH 19/58] fix: rows and indexes change together as seen by
 concurrent readers

---
 pkg/core/store_crud.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 6486874..61191ce 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -131,9 +131,9 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 		return wrapError("upsert", err)
 	}
 
-	// Re-acquire read lock for database operations
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	// Rows and indexes change together as seen by every reader
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("upsert", ErrStoreClosed)
@@ -240,8 +240,8 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 		}
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("upsert_batch", ErrStoreClosed)
@@ -455,8 +455,8 @@ func (s *SQLiteStore) deleteWhere(ctx context.Context, where string, args ...int
 
 // Delete removes an embedding by ID
 func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("delete", ErrStoreClosed)
@@ -499,8 +499,8 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 
 // DeleteByDocID removes all embeddings for a document
 func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("delete_by_doc_id", ErrStoreClosed)
@@ -668,8 +668,8 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 
 // Clear removes all embeddings from the store
 func (s *SQLiteStore) Clear(ctx context.Context) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("clear", ErrStoreClosed)
@@ -686,8 +686,8 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 
 // ClearByDocID removes all embeddings for specific document IDs
 func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("clear_by_doc_id", ErrStoreClosed)
-- 
2.43.0


From 32f1281817697c1da95ea59cdcdbbfec0c4ca367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:42 +0000
Subject: [PATCH 20/58] fix: find the default collection by name, as it may
 have been recreated

---
 pkg/core/collections.go |  3 +++
 pkg/core/store_crud.go  | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 7887440..20504e7 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -157,6 +157,9 @@ func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collecti
 	return collection, nil
 }
 
+// defaultCollection holds the embeddings that name no collection
+const defaultCollection = "default"
+
 // lookupCollectionID returns the ID of a named collection, read through q (the
 // database or a transaction)
 func lookupCollectionID(ctx context.Context, q interface {
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 61191ce..66f3947 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -143,13 +143,13 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
-		if emb.Collection != "" {
-			collectionID, err = lookupCollectionID(ctx, s.db, emb.Collection)
-			if err != nil {
-				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
-			}
-		} else {
-			collectionID = 1 // Default collection
+		name := emb.Collection
+		if name == "" {
+			name = defaultCollection
+		}
+		collectionID, err = lookupCollectionID(ctx, s.db, name)
+		if err != nil {
+			return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", name, err))
 		}
 	}
 
@@ -305,14 +305,14 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 		collectionID := emb.CollectionID
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
-			if emb.Collection != "" {
-				// Look it up on the transaction's own connection
-				collectionID, err = lookupCollectionID(ctx, tx, emb.Collection)
-				if err != nil {
-					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
-				}
-			} else {
-				collectionID = 1 // Default collection
+			name := emb.Collection
+			if name == "" {
+				name = defaultCollection
+			}
+			// Look it up on the transaction's own connection
+			collectionID, err = lookupCollectionID(ctx, tx, name)
+			if err != nil {
+				return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", name, i, err))
 			}
 		}
 
-- 
2.43.0


From 29377231a44ded25b45342f8b0c02daf384c739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:26 +0000
Subject: [PATCH 21/58] fix: streamed results honour the search options and
 accepted updates are not lost

---
 pkg/core/streaming.go | 172 ++++++++++++++++++++++--------------------
 1 file changed, 92 insertions(+), 80 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index c55c19e..d3e07c8 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -30,10 +30,17 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	
-	if s.closed {
-		return nil, wrapError("stream_search", ErrStoreClosed)
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
 	}
-	
+
+	// Get all candidates while the store cannot be closed underneath
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
 	// Set defaults
 	if opts.BatchSize <= 0 {
 		opts.BatchSize = 100
@@ -49,12 +56,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	go func() {
 		defer close(resultChan)
 		
-		// Get all candidates
-		candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
-		if err != nil {
-			return
-		}
-		
 		// Process in batches
 		batchID := 0
 		totalCandidates := len(candidates)
@@ -78,7 +79,10 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 			for _, candidate := range batch {
 				score := s.similarityFn(query, candidate.Vector)
 				candidate.Score = score
-				
+				if opts.Threshold > 0 && score < opts.Threshold {
+					continue
+				}
+
 				result := StreamingResult{
 					ScoredEmbedding: candidate,
 					Timestamp:       time.Now(),
@@ -177,6 +181,10 @@ func MergeStreamResults(ctx context.Context, channels ...<-chan StreamingResult)
 
 // CollectTopKFromStream collects top-k results from a streaming channel
 func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k int) ([]ScoredEmbedding, error) {
+	if k < 0 {
+		k = 0
+	}
+
 	// Use a heap to maintain top-k
 	topK := make([]ScoredEmbedding, 0, k)
 	seen := make(map[string]bool)
@@ -201,23 +209,13 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 				sort.Slice(topK, func(i, j int) bool {
 					return topK[i].Score > topK[j].Score
 				})
-			} else if result.Score > topK[k-1].Score {
+			} else if k > 0 && result.Score > topK[k-1].Score {
 				topK[k-1] = result.ScoredEmbedding
 				sort.Slice(topK, func(i, j int) bool {
 					return topK[i].Score > topK[j].Score
 				})
 			}
-			
-			// Check if we have k results with good scores
-			if len(topK) == k && topK[k-1].Score > 0.9 {
-				// Drain remaining results
-				go func() {
-					for range stream {
-					}
-				}()
-				return topK, nil
-			}
-			
+
 		case <-ctx.Done():
 			return topK, ctx.Err()
 		}
@@ -229,6 +227,8 @@ type IncrementalIndex struct {
 	mu        sync.RWMutex
 	store     *SQLiteStore
 	updates   chan *Embedding
+	pending   []*Embedding // accepted and not stored yet, oldest first
+	done      chan struct{}
 	closed    bool
 	closeOnce sync.Once
 }
@@ -238,6 +238,7 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	idx := &IncrementalIndex{
 		store:   store,
 		updates: make(chan *Embedding, 100),
+		done:    make(chan struct{}),
 	}
 	
 	// Start background update processor
@@ -248,8 +249,8 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 
 // AddAsync adds a vector asynchronously
 func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
-	idx.mu.RLock()
-	defer idx.mu.RUnlock()
+	idx.mu.Lock()
+	defer idx.mu.Unlock()
 	
 	if idx.closed {
 		return fmt.Errorf("index is closed")
@@ -257,6 +258,7 @@ func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
 	
 	select {
 	case idx.updates <- emb:
+		idx.pending = append(idx.pending, emb)
 		return nil
 	default:
 		return fmt.Errorf("update queue is full")
@@ -265,61 +267,57 @@ func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
 
 // SearchWithUpdates performs search while considering ongoing updates
 func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
-	// Get current results
-	results, err := idx.store.Search(ctx, query, opts)
+	// The latest pending version of each embedding takes the place of its stored one
+	idx.mu.RLock()
+	pending := make(map[string]*Embedding, len(idx.pending))
+	for _, emb := range idx.pending {
+		pending[emb.ID] = emb
+	}
+	idx.mu.RUnlock()
+
+	topK := opts.TopK
+	if topK <= 0 {
+		topK = 10
+	}
+	opts.TopK = topK + len(pending)
+
+	stored, err := idx.store.Search(ctx, query, opts)
 	if err != nil {
 		return nil, err
 	}
-	
-	// Check pending updates
-	idx.mu.RLock()
-	pendingCount := len(idx.updates)
-	idx.mu.RUnlock()
-	
-	if pendingCount > 0 {
-		// Process some pending updates quickly
-		processedCount := 0
-		timeout := time.After(10 * time.Millisecond)
-		
-	ProcessLoop:
-		for processedCount < pendingCount && processedCount < 10 {
-			select {
-			case emb := <-idx.updates:
-				if emb != nil {
-					score := idx.store.similarityFn(query, emb.Vector)
-					if opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score {
-						// This update might affect results
-						results = append(results, ScoredEmbedding{
-							Embedding: *emb,
-							Score:     score,
-						})
-						
-						// Re-sort
-						sort.Slice(results, func(i, j int) bool {
-							return results[i].Score > results[j].Score
-						})
-						
-						// Trim to TopK
-						if opts.TopK > 0 && len(results) > opts.TopK {
-							results = results[:opts.TopK]
-						}
-					}
-					
-					// Re-queue for background processing
-					idx.updates <- emb
-				}
-				processedCount++
-				
-			case <-timeout:
-				break ProcessLoop
-			}
+
+	results := make([]ScoredEmbedding, 0, len(stored)+len(pending))
+	for _, result := range stored {
+		if _, replaced := pending[result.ID]; !replaced {
+			results = append(results, result)
 		}
 	}
-	
+	for _, emb := range pending {
+		collection := emb.Collection
+		if collection == "" {
+			collection = defaultCollection
+		}
+		if len(emb.Vector) != len(query) || (opts.Collection != "" && opts.Collection != collection) || !idx.store.matchesFilter(*emb, opts.Filter) {
+			continue
+		}
+		score := idx.store.similarityFn(query, emb.Vector)
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
+		results = append(results, ScoredEmbedding{Embedding: *emb, Score: score})
+	}
+
+	sort.Slice(results, func(i, j int) bool {
+		return results[i].Score > results[j].Score
+	})
+	if len(results) > topK {
+		results = results[:topK]
+	}
+
 	return results, nil
 }
 
-// Close shuts down the incremental index
+// Close shuts down the incremental index once everything it accepted is stored
 func (idx *IncrementalIndex) Close() {
 	idx.closeOnce.Do(func() {
 		idx.mu.Lock()
@@ -327,6 +325,23 @@ func (idx *IncrementalIndex) Close() {
 		close(idx.updates)
 		idx.mu.Unlock()
 	})
+	<-idx.done
+}
+
+// flush stores a batch of accepted embeddings
+func (idx *IncrementalIndex) flush(batch []*Embedding) {
+	if len(batch) == 0 {
+		return
+	}
+	if err := idx.store.UpsertBatch(context.Background(), batch); err != nil {
+		// One that cannot be stored does not take the others with it
+		for _, emb := range batch {
+			_ = idx.store.Upsert(context.Background(), emb)
+		}
+	}
+	idx.mu.Lock()
+	idx.pending = idx.pending[len(batch):]
+	idx.mu.Unlock()
 }
 
 // processUpdates handles background update processing
@@ -334,15 +349,14 @@ func (idx *IncrementalIndex) processUpdates() {
 	batch := make([]*Embedding, 0, 100)
 	ticker := time.NewTicker(100 * time.Millisecond)
 	defer ticker.Stop()
-	
+	defer close(idx.done)
+
 	for {
 		select {
 		case emb, ok := <-idx.updates:
 			if !ok {
 				// Channel closed, flush remaining batch
-				if len(batch) > 0 {
-					_ = idx.store.UpsertBatch(context.Background(), batch)
-				}
+				idx.flush(batch)
 				return
 			}
 			
@@ -350,16 +364,14 @@ func (idx *IncrementalIndex) processUpdates() {
 			
 			// Flush batch if full
 			if len(batch) >= 100 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
+				idx.flush(batch)
 				batch = batch[:0]
 			}
 			
 		case <-ticker.C:
 			// Periodic flush
-			if len(batch) > 0 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
-				batch = batch[:0]
-			}
+			idx.flush(batch)
+			batch = batch[:0]
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 7216b58b1cbd74f161a1c51c7e42f80e96abb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:16 +0000
Subject: [PATCH 22/58] fix: store multi-vector entities as a whole and rank
 them over all their fields

---
 internal/encoding/utils.go |  18 +++-
 pkg/core/multi_vector.go   | 180 +++++++++++++++++++++----------------
 2 files changed, 118 insertions(+), 80 deletions(-)

diff --git a/internal/encoding/utils.go b/internal/encoding/utils.go
index 9dc51d4..912e034 100644
--- a/internal/encoding/utils.go
+++ b/internal/encoding/utils.go
@@ -103,10 +103,24 @@ func DecodeMetadata(jsonStr string) (map[string]string, error) {
 	}
 	
 	var metadata map[string]string
-	if err := json.Unmarshal([]byte(jsonStr), &metadata); err != nil {
+	if err := json.Unmarshal([]byte(jsonStr), &metadata); err == nil {
+		return metadata, nil
+	}
+
+	// Values that are not strings are returned as their JSON text
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal([]byte(jsonStr), &raw); err != nil {
 		return nil, fmt.Errorf("failed to decode metadata: %w", err)
 	}
-	
+	metadata = make(map[string]string, len(raw))
+	for key, value := range raw {
+		var text string
+		if err := json.Unmarshal(value, &text); err != nil {
+			text = string(value)
+		}
+		metadata[key] = text
+	}
+
 	return metadata, nil
 }
 
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index a3bf0f1..16402cb 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -5,6 +5,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"sort"
+
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
@@ -49,70 +51,119 @@ const (
 	AggregateWeighted AggregationMethod = "weighted"
 )
 
+// entityClause selects the rows of a multi-vector entity
+const entityClause = "json_extract(NULLIF(metadata, ''), '$._entity_id') = ?"
+
 // UpsertMultiVector inserts or updates a multi-vector entity
-func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVectorEntity) error {
+func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVectorEntity) (err error) {
+	if s.isClosed() {
+		return wrapError("upsert_multi_vector", ErrStoreClosed)
+	}
+
+	// The vectors obey the same dimension policy as single embeddings
+	fields := make([]string, 0, len(entity.Vectors))
+	for fieldName, vector := range entity.Vectors {
+		if err := s.checkIncomingVector(vector); err != nil {
+			return wrapError("upsert_multi_vector", err)
+		}
+		fields = append(fields, fieldName)
+	}
+	if len(fields) == 0 {
+		return wrapError("upsert_multi_vector", fmt.Errorf("entity has no vectors"))
+	}
+	sort.Strings(fields)
+
+	currentDim, detected := s.ensureDimension(len(entity.Vectors[fields[0]]))
+	if detected {
+		defer func() {
+			if err != nil {
+				s.forgetDimension()
+			}
+		}()
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	
+
 	if s.closed {
 		return wrapError("upsert_multi_vector", ErrStoreClosed)
 	}
-	
+
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
 		return wrapError("upsert_multi_vector", err)
 	}
-	defer func() {
-		if err := tx.Rollback(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-	
+	defer func() { _ = tx.Rollback() }()
+
+	collectionID, err := lookupCollectionID(ctx, tx, defaultCollection)
+	if err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+
+	// Fields the entity no longer has go away
+	replaced, err := deleteReturningIDs(ctx, tx, entityClause, entity.ID)
+	if err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+
 	// Insert each vector with a composite ID
-	for fieldName, vector := range entity.Vectors {
-		compositeID := fmt.Sprintf("%s___%s", entity.ID, fieldName)
-		
+	written := make([]Embedding, 0, len(fields))
+	for _, fieldName := range fields {
+		emb := Embedding{ID: fmt.Sprintf("%s___%s", entity.ID, fieldName), Vector: entity.Vectors[fieldName]}
+		if err := s.adaptEmbedding(&emb, currentDim); err != nil {
+			return wrapError("upsert_multi_vector", err)
+		}
+
 		// Prepare metadata with field info
 		metadata := make(map[string]interface{})
-		if entity.Metadata != nil {
-			for k, v := range entity.Metadata {
-				metadata[k] = v
-			}
+		for k, v := range entity.Metadata {
+			metadata[k] = v
 		}
 		metadata["_entity_id"] = entity.ID
 		metadata["_vector_field"] = fieldName
-		
+
 		metadataJSON, err := json.Marshal(metadata)
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		vectorBytes, err := encoding.EncodeVector(vector)
+
+		vectorBytes, err := encoding.EncodeVector(emb.Vector)
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
+
+		// The entity belongs to the document of the same ID, if there is one
 		_, err = tx.ExecContext(ctx, `
 			INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
-			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
-		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
-		
+			VALUES (?, ?, ?, ?, (SELECT id FROM documents WHERE id = ?), ?, CURRENT_TIMESTAMP)
+		`, emb.ID, collectionID, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		// Update HNSW index if enabled
+		written = append(written, emb)
+	}
+
+	if err := tx.Commit(); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+
+	// Update the memory indexes
+	s.removeFromIndexes(replaced)
+	for _, emb := range written {
 		if s.config.HNSW.Enabled && s.hnswIndex != nil {
-			if err := s.hnswIndex.Insert(compositeID, vector); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
+			if err := s.hnswIndex.Upsert(emb.ID, emb.Vector); err != nil {
+				s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
+			}
+		}
+		if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
+			if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
+				s.logger.Warn("failed to add vector to IVF index", "id", emb.ID, "error", err)
 			}
 		}
 	}
-	
-	return tx.Commit()
+
+	return nil
 }
 
 // SearchMultiVector performs multi-vector search
@@ -145,14 +196,20 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		// Search with field-specific filter
 		fieldOpts := opts.SearchOptions
-		if fieldOpts.Filter == nil {
-			fieldOpts.Filter = make(map[string]string)
+		fieldOpts.Filter = map[string]string{"_vector_field": fieldName}
+		for key, value := range opts.Filter {
+			fieldOpts.Filter[key] = value
 		}
-		fieldOpts.Filter["_vector_field"] = fieldName
-		
-		results, err := s.search(ctx, queryVector, fieldOpts)
+
+		queryVector, err := s.prepareQuery(queryVector, fieldOpts)
 		if err != nil {
-			continue
+			return nil, wrapError("search_multi_vector", err)
+		}
+
+		// Every field of an entity counts, however far down its own ranking
+		results, err := s.fetchCandidates(ctx, fieldOpts)
+		if err != nil {
+			return nil, wrapError("search_multi_vector", err)
 		}
 		
 		// Group by entity ID
@@ -169,7 +226,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 			}
 			
 			// Apply field weight if specified
-			score := float32(result.Score)
+			score := float32(s.similarityFn(queryVector, result.Vector))
 			if weight, exists := opts.FieldWeights[fieldName]; exists {
 				score *= weight
 			}
@@ -184,6 +241,9 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		embedding := entityEmbeddings[entityID]
 		embedding.Score = float64(s.aggregateScores(scores, opts.Aggregation))
 		embedding.ID = entityID // Use entity ID instead of composite ID
+		if opts.Threshold > 0 && embedding.Score < opts.Threshold {
+			continue
+		}
 		finalResults = append(finalResults, embedding)
 	}
 	
@@ -266,7 +326,7 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 	rows, err := s.db.QueryContext(ctx, `
 		SELECT id, vector, content, metadata
 		FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
+		WHERE json_extract(NULLIF(metadata, ''), '$._entity_id') = ?
 	`, entityID)
 	if err != nil {
 		return nil, wrapError("get_multi_vector", err)
@@ -340,45 +400,9 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", ErrStoreClosed)
 	}
 	
-	// Get all composite IDs first
-	rows, err := s.db.QueryContext(ctx, `
-		SELECT id FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
-	`, entityID)
-	if err != nil {
+	if err := s.deleteWhere(ctx, entityClause, entityID); err != nil {
 		return wrapError("delete_multi_vector", err)
 	}
-	
-	var compositeIDs []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			compositeIDs = append(compositeIDs, id)
-		}
-	}
-	if err := rows.Close(); err != nil {
-		// Log error but don't override the main error
-		_ = err
-	}
-	
-	// Delete from database
-	_, err = s.db.ExecContext(ctx, `
-		DELETE FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
-	`, entityID)
-	if err != nil {
-		return wrapError("delete_multi_vector", err)
-	}
-	
-	// Update HNSW index
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		for _, id := range compositeIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
-	}
-	
+
 	return nil
-}
\ No newline at end of file
+}
-- 
2.43.0


From 11d57bb6dc3da1c6276e905957c3c065301fb583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:44 +0000
Subject: [PATCH 23/58] fix: refuse document and session reads once closed

---
 pkg/core/chat.go     | 4 ++++
 pkg/core/document.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 5e8917a..b71f178 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -54,6 +54,10 @@ func (s *SQLiteStore) GetSession(ctx context.Context, id string) (*Session, erro
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session", ErrStoreClosed)
+	}
+
 	var sess Session
 	var metadataJSON []byte
 
diff --git a/pkg/core/document.go b/pkg/core/document.go
index a13868d..710edf4 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -176,6 +176,10 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("list_documents", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, title, source_url, content, version, author, metadata, acl, created_at, updated_at
 		FROM documents WHERE 1=1
-- 
2.43.0


From 0308d520da6971be451269120249cdbcabe044f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:44 +0000
Subject: [PATCH 24/58] fix: diversified search applies the default TopK and
 ranks with any similarity

---
 pkg/core/advanced_search.go | 4 ++++
 pkg/core/reranker.go        | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 4312baf..6482f50 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -326,6 +326,10 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 		return nil, wrapError("search_diversity", ErrStoreClosed)
 	}
 	
+	if opts.TopK <= 0 {
+		opts.TopK = 10
+	}
+
 	// Get initial candidates (more than needed for diversity)
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index 24d26ae..92d1b6b 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 )
@@ -347,7 +348,7 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 	for len(remaining) > 0 {
 		// Find the item with maximum MMR score
 		bestIdx := 0
-		bestScore := -1.0
+		bestScore := math.Inf(-1)
 
 		for i, item := range remaining {
 			// Relevance to query
-- 
2.43.0


From c3d128ee77febe0df70482a86b51bdb850918ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:23 +0000
Subject: [PATCH 25/58] fix: refuse non-finite queries before adapting their
 dimension

---
 pkg/core/store_search.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 862c743..4095560 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -25,6 +25,13 @@ func (s *SQLiteStore) prepareQuery(query []float32, opts SearchOptions) ([]float
 		return nil, ErrStoreClosed
 	}
 
+	// A query that is not finite stays invalid whatever adaptation would make of it
+	if len(query) > 0 {
+		if err := encoding.ValidateVector(query); err != nil {
+			return nil, err
+		}
+	}
+
 	storeDim := s.config.VectorDim
 	queryDim := len(query)
 
-- 
2.43.0


From 42afb13f651e30035198d3b43380ec1287a286ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:47 +0000
Subject: [PATCH 26/58] fix: keep the graph's vector index in step with batch
 writes

---
 pkg/graph/graph.go       |  9 +--------
 pkg/graph/graph_batch.go | 43 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index e6da873..5b6511f 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -177,14 +177,7 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		return err
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(node.ID)
-		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
-			return fmt.Errorf("failed to update hnsw index: %w", err)
-		}
-	}
-
-	return nil
+	return g.updateIndex([]*GraphNode{node}, nil)
 }
 
 // GetNode retrieves a node by ID
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 427f389..9a2c70a 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -60,6 +60,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	defer func() { _ = stmt.Close() }()
 	
 	// Process each node
+	stored := make([]*GraphNode, 0, len(nodes))
 	for _, node := range nodes {
 		if node == nil || node.ID == "" {
 			result.Errors = append(result.Errors, fmt.Errorf("invalid node: missing ID"))
@@ -105,6 +106,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 			result.Errors = append(result.Errors, fmt.Errorf("failed to insert node %s: %w", node.ID, err))
 			result.FailedCount++
 		} else {
+			stored = append(stored, node)
 			result.SuccessCount++
 		}
 	}
@@ -114,6 +116,10 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	if err := g.updateIndex(stored, nil); err != nil {
+		return nil, err
+	}
+	
 	return result, nil
 }
 
@@ -162,6 +168,10 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	if err := g.updateIndex(nil, nodeIDs); err != nil {
+		return nil, err
+	}
+	
 	return result, nil
 }
 
@@ -474,11 +484,13 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	defer func() { _ = tx.Rollback() }()
 	
 	// Process node upserts
+	var stored []*GraphNode
 	if len(ops.NodeUpserts) > 0 {
-		nodeResult, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		nodeResult, nodes, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 		}
+		stored = nodes
 		result.SuccessCount += nodeResult.SuccessCount
 		result.FailedCount += nodeResult.FailedCount
 		result.Errors = append(result.Errors, nodeResult.Errors...)
@@ -520,13 +532,35 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	if err := g.updateIndex(stored, ops.NodeDeletes); err != nil {
+		return nil, err
+	}
+	
 	return result, nil
 }
 
+// updateIndex applies committed node writes and deletes, in that order, to the HNSW index
+func (g *GraphStore) updateIndex(nodes []*GraphNode, deleted []string) error {
+	if g.hnswIndex == nil {
+		return nil
+	}
+	for _, node := range nodes {
+		g.hnswIndex.index.Remove(node.ID)
+		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
+			return fmt.Errorf("failed to update hnsw index: %w", err)
+		}
+	}
+	for _, id := range deleted {
+		g.hnswIndex.index.Remove(id)
+	}
+	return nil
+}
+
 // Helper functions for transaction-based operations
 
-func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, error) {
+func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, []*GraphNode, error) {
 	result := &BatchResult{Errors: make([]error, 0)}
+	stored := make([]*GraphNode, 0, len(nodes))
 	
 	stmt, err := tx.PrepareContext(ctx, `
 		INSERT INTO graph_nodes (id, vector, content, node_type, properties, updated_at)
@@ -539,7 +573,7 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			updated_at = CURRENT_TIMESTAMP
 	`)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	defer func() { _ = stmt.Close() }()
 	
@@ -560,11 +594,12 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			result.FailedCount++
 			result.Errors = append(result.Errors, err)
 		} else {
+			stored = append(stored, node)
 			result.SuccessCount++
 		}
 	}
 	
-	return result, nil
+	return result, stored, nil
 }
 
 func (g *GraphStore) deleteNodesBatchTx(ctx context.Context, tx *sql.Tx, nodeIDs []string) (*BatchResult, error) {
-- 
2.43.0


From 05fb68391f8208c49fcc73cd77521576ca29681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:25 +0000
Subject: [PATCH 27/58] fix: graph index search reaches every node and honours
 node types

---
 pkg/graph/graph_hnsw.go | 56 +++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 37a0435..f77ff45 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -56,7 +56,7 @@ func (h *SimpleHNSW) Add(id string, vector []float32) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	h.vectors[id] = vector
+	h.vectors[id] = append([]float32(nil), vector...)
 	level := h.randomLevel()
 
 	// Initialize graph levels if needed
@@ -222,7 +222,7 @@ func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	h.mutex.RLock()
 	defer h.mutex.RUnlock()
 
-	if h.entryPoint == "" {
+	if h.entryPoint == "" || k <= 0 {
 		return nil
 	}
 
@@ -250,6 +250,18 @@ func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	
 	results := h.searchLevel(query, entryPoint, ef, 0)
 	
+	// Removals can disconnect the level-0 graph: when the walk runs out of
+	// nodes early, rank every stored vector instead
+	if len(results) < ef && len(results) < len(h.vectors) {
+		results = make([]searchCandidate, 0, len(h.vectors))
+		for id, vec := range h.vectors {
+			results = append(results, searchCandidate{nodeID: id, score: h.similarity(query, vec)})
+		}
+		sort.Slice(results, func(i, j int) bool {
+			return results[i].score > results[j].score
+		})
+	}
+	
 	// Return top k results
 	if len(results) > k {
 		results = results[:k]
@@ -258,6 +270,13 @@ func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	return results
 }
 
+// Len returns the number of indexed vectors
+func (h *SimpleHNSW) Len() int {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return len(h.vectors)
+}
+
 // Remove removes a node from the index
 func (h *SimpleHNSW) Remove(nodeID string) {
 	h.mutex.Lock()
@@ -335,6 +354,10 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		return nil, fmt.Errorf("HNSW index not enabled")
 	}
 
+	if k < 0 {
+		k = 0
+	}
+
 	candidates := g.hnswIndex.index.Search(query, k*2)
 	results := make([]*HybridResult, 0, k)
 
@@ -365,9 +388,24 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 		return g.HybridSearch(ctx, query)
 	}
 
-	// Get HNSW candidates
-	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
-	results := make([]*HybridResult, 0, query.TopK)
+	if query == nil {
+		return nil, fmt.Errorf("query cannot be nil")
+	}
+
+	topK := query.TopK
+	if topK < 0 {
+		topK = 0
+	}
+
+	// Get HNSW candidates; a node type filter may exclude any of them, so rank all nodes then
+	limit := topK * 3
+	var nodeTypes []string
+	if query.GraphFilter != nil && len(query.GraphFilter.NodeTypes) > 0 {
+		nodeTypes = query.GraphFilter.NodeTypes
+		limit = g.hnswIndex.index.Len()
+	}
+	candidates := g.hnswIndex.index.Search(query.Vector, limit)
+	results := make([]*HybridResult, 0, topK)
 
 	// Combine with graph scoring
 	for _, candidate := range candidates {
@@ -377,6 +415,10 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 				continue
 			}
 
+			if len(nodeTypes) > 0 && !contains(nodeTypes, node.NodeType) {
+				continue
+			}
+
 			// Calculate graph score if center nodes provided
 			graphScore := 0.0
 			if len(query.CenterNodes) > 0 {
@@ -410,8 +452,8 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 		return results[i].TotalScore > results[j].TotalScore
 	})
 
-	if len(results) > query.TopK {
-		results = results[:query.TopK]
+	if len(results) > topK {
+		results = results[:topK]
 	}
 
 	return results, nil
-- 
2.43.0


From a9ed48bf6f143289c009f28e6f2f74fe59ef63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 28/58] fix: graph traversal limits and type filters apply to
 what is returned

---
 pkg/graph/graph_hybrid.go    |  2 +-
 pkg/graph/graph_traversal.go | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index fbc81a9..16276bd 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -156,7 +156,7 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 
 	// Add the start node itself
 	startNode, err := g.GetNode(ctx, startNodeID)
-	if err == nil {
+	if err == nil && (len(opts.NodeTypes) == 0 || contains(opts.NodeTypes, startNode.NodeType)) {
 		neighbors = append([]*GraphNode{startNode}, neighbors...)
 	}
 
diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 15c3371..3adc26c 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -88,15 +88,26 @@ func (g *GraphStore) Neighbors(ctx context.Context, nodeID string, opts Traversa
 					depth  int
 				}{neighborID, current.depth + 1})
 			}
+		}
 
-			// Check limit
-			if opts.Limit > 0 && len(neighborIDs) >= opts.Limit {
-				return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
-			}
+		// Without a type filter every node found counts towards the limit
+		if opts.Limit > 0 && len(opts.NodeTypes) == 0 && len(neighborIDs) >= opts.Limit {
+			break
 		}
 	}
 
-	return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	neighbors, err := g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	if err != nil {
+		return nil, err
+	}
+
+	// The limit counts the nodes that match; the search is breadth first, so
+	// the nearest ones come first
+	if opts.Limit > 0 && len(neighbors) > opts.Limit {
+		neighbors = neighbors[:opts.Limit]
+	}
+
+	return neighbors, nil
 }
 
 // ShortestPath finds the shortest path between two nodes using BFS
@@ -205,9 +216,14 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 // Subgraph extracts a subgraph containing specified nodes and their connections
 func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResult, error) {
 	nodeSet := make(map[string]bool)
+	unique := make([]string, 0, len(nodeIDs))
 	for _, id := range nodeIDs {
-		nodeSet[id] = true
+		if !nodeSet[id] {
+			nodeSet[id] = true
+			unique = append(unique, id)
+		}
 	}
+	nodeIDs = unique
 
 	nodes := make([]*GraphNode, 0, len(nodeIDs))
 	edges := make([]*GraphEdge, 0)
-- 
2.43.0


From 9dafbb566fdcff11655ae5b39af3bd3c5fd2c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:28 +0000
Subject: [PATCH 29/58] fix: graph export and import carry edge properties,
 vectors and weights and report rejects

---
 pkg/graph/graph_export.go | 98 +++++++++++++++++++++++++++++++--------
 1 file changed, 78 insertions(+), 20 deletions(-)

diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 0eec310..2aed5ab 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -69,7 +70,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -85,6 +86,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			{ID: "d4", For: "edge", AttrName: "type", AttrType: "string"},
 			{ID: "d5", For: "edge", AttrName: "weight", AttrType: "double"},
 			{ID: "d6", For: "edge", AttrName: "properties", AttrType: "string"},
+			{ID: "d7", For: "edge", AttrName: "vector", AttrType: "string"},
 		},
 		Graph: GraphMLGraph{
 			ID:          "G",
@@ -133,7 +135,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			Target: edge.ToNodeID,
 			Data: []GraphMLData{
 				{Key: "d4", Value: edge.EdgeType},
-				{Key: "d5", Value: fmt.Sprintf("%f", edge.Weight)},
+				{Key: "d5", Value: strconv.FormatFloat(edge.Weight, 'g', -1, 64)},
 			},
 		}
 		
@@ -143,6 +145,12 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d6", Value: string(propsJSON)})
 		}
 		
+		// Encode vector as JSON
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d7", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges = append(doc.Graph.Edges, gmlEdge)
 	}
 	
@@ -211,7 +219,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := importResult(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -238,6 +246,8 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 				}
 			case "properties":
 				_ = json.Unmarshal([]byte(data.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(data.Value), &edge.Vector)
 			}
 		}
 		
@@ -245,7 +255,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := importResult(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -273,7 +283,7 @@ type GEXFMeta struct {
 type GEXFGraph struct {
 	Mode       string       `xml:"mode,attr"`
 	DefaultEdgeType string  `xml:"defaultedgetype,attr"`
-	Attributes GEXFAttrs    `xml:"attributes"`
+	Attributes []GEXFAttrs  `xml:"attributes"`
 	Nodes      GEXFNodes    `xml:"nodes"`
 	Edges      GEXFEdges    `xml:"edges"`
 }
@@ -315,6 +325,7 @@ type GEXFEdge struct {
 	Target string  `xml:"target,attr"`
 	Weight float64 `xml:"weight,attr,omitempty"`
 	Type   string  `xml:"type,attr,omitempty"`
+	AttValues []GEXFAttValue `xml:"attvalues>attvalue,omitempty"`
 }
 
 // GEXFAttValue represents a GEXF attribute value
@@ -336,7 +347,7 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -352,13 +363,22 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 		Graph: GEXFGraph{
 			Mode:            "static",
 			DefaultEdgeType: "directed",
-			Attributes: GEXFAttrs{
-				Class: "node",
-				Attrs: []GEXFAttr{
-					{ID: "0", Title: "content", Type: "string"},
-					{ID: "1", Title: "type", Type: "string"},
-					{ID: "2", Title: "vector", Type: "string"},
-					{ID: "3", Title: "properties", Type: "string"},
+			Attributes: []GEXFAttrs{
+				{
+					Class: "node",
+					Attrs: []GEXFAttr{
+						{ID: "0", Title: "content", Type: "string"},
+						{ID: "1", Title: "type", Type: "string"},
+						{ID: "2", Title: "vector", Type: "string"},
+						{ID: "3", Title: "properties", Type: "string"},
+					},
+				},
+				{
+					Class: "edge",
+					Attrs: []GEXFAttr{
+						{ID: "4", Title: "properties", Type: "string"},
+						{ID: "5", Title: "vector", Type: "string"},
+					},
 				},
 			},
 			Nodes: GEXFNodes{
@@ -412,6 +432,18 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 			Type:   edge.EdgeType,
 		}
 		
+		// Encode properties as JSON
+		if edge.Properties != nil {
+			propsJSON, _ := json.Marshal(edge.Properties)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "4", Value: string(propsJSON)})
+		}
+		
+		// Encode vector as JSON
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "5", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges.Edges = append(doc.Graph.Edges.Edges, gexfEdge)
 	}
 	
@@ -441,8 +473,15 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	
 	// Create attribute mapping
 	attrMap := make(map[string]string)
-	for _, attr := range doc.Graph.Attributes.Attrs {
-		attrMap[attr.ID] = attr.Title
+	edgeAttrMap := make(map[string]string)
+	for _, attrs := range doc.Graph.Attributes {
+		for _, attr := range attrs.Attrs {
+			if attrs.Class == "edge" {
+				edgeAttrMap[attr.ID] = attr.Title
+			} else {
+				attrMap[attr.ID] = attr.Title
+			}
+		}
 	}
 	
 	// Import nodes
@@ -480,7 +519,7 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := importResult(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -500,11 +539,21 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 			edge.Weight = 1.0
 		}
 		
+		// Parse attribute values
+		for _, attValue := range gexfEdge.AttValues {
+			switch edgeAttrMap[attValue.For] {
+			case "properties":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Vector)
+			}
+		}
+		
 		edges = append(edges, edge)
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := importResult(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -526,7 +575,7 @@ func (g *GraphStore) ExportJSON(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		for _, edge := range edges {
 			if !edgeSet[edge.ID] {
@@ -572,14 +621,14 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	
 	// Batch import nodes
 	if len(graphData.Nodes) > 0 {
-		if _, err := g.UpsertNodesBatch(ctx, graphData.Nodes); err != nil {
+		if err := importResult(g.UpsertNodesBatch(ctx, graphData.Nodes)); err != nil {
 			return fmt.Errorf("failed to import nodes: %w", err)
 		}
 	}
 	
 	// Batch import edges
 	if len(graphData.Edges) > 0 {
-		if _, err := g.UpsertEdgesBatch(ctx, graphData.Edges); err != nil {
+		if err := importResult(g.UpsertEdgesBatch(ctx, graphData.Edges)); err != nil {
 			return fmt.Errorf("failed to import edges: %w", err)
 		}
 	}
@@ -587,6 +636,15 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	return nil
 }
 
+// importResult reports the elements of a batch that were not imported
+func importResult(result *BatchResult, err error) error {
+	if err != nil || result.FailedCount == 0 {
+		return err
+	}
+	return fmt.Errorf("%d of %d elements rejected: %w", result.FailedCount,
+		result.FailedCount+result.SuccessCount, errors.Join(result.Errors...))
+}
+
 // ExportFormat represents supported export formats
 type ExportFormat string
 
-- 
2.43.0


From ed3d2309c96d481e70d0a61d23356795b79e9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:12 +0000
Subject: [PATCH 30/58] fix: a refused upsert or message no longer wedges its
 connection

---
 pkg/core/chat.go       |  2 +-
 pkg/core/store_crud.go | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index b71f178..912762c 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -103,7 +103,7 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, ?)
 	`
-	_, err = s.db.ExecContext(ctx, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
+	err = s.execInTx(ctx, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
 
 	// If vector is present, we should also index it in the main embeddings table or HNSW
 	// However, for simplicity, we treat message vectors separately or rely on user to also call Upsert()
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 66f3947..29db084 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -186,7 +186,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 	VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 	`
 
-	_, err = s.db.ExecContext(ctx, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
+	err = s.execInTx(ctx, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
 	if err != nil {
 		return wrapError("upsert", fmt.Errorf("failed to insert embedding: %w", err))
 	}
@@ -208,6 +208,22 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 	return nil
 }
 
+// execInTx runs one write statement in a transaction of its own. A statement
+// that fails (on a foreign key, say) after its triggers wrote to a full-text
+// index would otherwise leave its connection holding a read snapshot, and every
+// later write on that connection would fail with "database is locked".
+func (s *SQLiteStore) execInTx(ctx context.Context, query string, args ...interface{}) error {
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return err
+	}
+	defer func() { _ = tx.Rollback() }()
+	if _, err := tx.ExecContext(ctx, query, args...); err != nil {
+		return err
+	}
+	return tx.Commit()
+}
+
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err error) {
 	if s.isClosed() {
-- 
2.43.0


From 111cd9d44d883da9d1144b4c0e6e1153c99286c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:12 +0000
Subject: [PATCH 31/58] fix: flat index accepts k<=0 and refuses a bad batch
 whole

---
 pkg/index/flat.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/index/flat.go b/pkg/index/flat.go
index 53974b0..bd0af04 100644
--- a/pkg/index/flat.go
+++ b/pkg/index/flat.go
@@ -70,7 +70,7 @@ func (f *FlatIndex) Search(query []float32, k int) ([]string, []float32) {
 	f.mu.RLock()
 	defer f.mu.RUnlock()
 
-	if len(f.vectors) == 0 {
+	if len(f.vectors) == 0 || k <= 0 {
 		return []string{}, []float32{}
 	}
 
@@ -187,14 +187,17 @@ func (f *FlatIndex) BatchInsert(ids []string, vectors [][]float32) error {
 		return fmt.Errorf("ids and vectors length mismatch: %d != %d", len(ids), len(vectors))
 	}
 
-	f.mu.Lock()
-	defer f.mu.Unlock()
-
-	for i, id := range ids {
+	// Check the whole batch before inserting any of it
+	for i := range vectors {
 		if len(vectors[i]) != f.dimension {
 			return fmt.Errorf("dimension mismatch at index %d: expected %d, got %d", i, f.dimension, len(vectors[i]))
 		}
+	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
+	for i, id := range ids {
 		v := make([]float32, f.dimension)
 		copy(v, vectors[i])
 		
-- 
2.43.0


From 483c0e71802c692b59659915bf50e7bbdcdd1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:12 +0000
Subject: [PATCH 32/58] fix: LSH re-insertion replaces, vectors are copied,
 negative k

---
 pkg/index/lsh.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/index/lsh.go b/pkg/index/lsh.go
index c8b298e..9e27485 100644
--- a/pkg/index/lsh.go
+++ b/pkg/index/lsh.go
@@ -101,7 +101,11 @@ func (lsh *LSHIndex) Insert(id string, vector []float32) error {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
-	// Store the vector
+	// A vector that is inserted again replaces the previous one
+	lsh.remove(id)
+	
+	// Store a copy to avoid external modifications
+	vector = append([]float32(nil), vector...)
 	lsh.vectors[id] = vector
 	
 	// Add to all hash tables
@@ -151,6 +155,9 @@ func (lsh *LSHIndex) Search(query []float32, k int) ([]LSHSearchResult, error) {
 	})
 	
 	// Return top k
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -207,6 +214,9 @@ func (lsh *LSHIndex) SearchWithMultiProbe(query []float32, k int, numProbes int)
 		return results[i].Distance < results[j].Distance
 	})
 	
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -219,6 +229,11 @@ func (lsh *LSHIndex) Delete(id string) bool {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
+	return lsh.remove(id)
+}
+
+// remove drops a vector and reports whether it was present; the caller holds the lock
+func (lsh *LSHIndex) remove(id string) bool {
 	vector, exists := lsh.vectors[id]
 	if !exists {
 		return false
-- 
2.43.0


From c2dee797db95049ce6b10bf54029eb7fdd046447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:12 +0000
Subject: [PATCH 33/58] fix: IVF retraining keeps the vectors, validates,
 locks; vectors are copied

---
 pkg/index/ivf.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index f51d92e..a8c233e 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -110,9 +110,20 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 // Train learns cluster centroids from training data
 func (ivf *IVFIndex) Train(vectors [][]float32) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
+	if ivf.NCentroids <= 0 {
+		return fmt.Errorf("need at least one centroid, got %d", ivf.NCentroids)
+	}
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
+	for _, vector := range vectors {
+		if len(vector) != ivf.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
+		}
+	}
 	
 	// Run k-means to find centroids
 	centroids, err := kMeansIVF(vectors, ivf.NCentroids, 20)
@@ -123,10 +134,14 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 	ivf.Centroids = centroids
 	ivf.Trained = true
 	
-	// Initialize inverted lists
+	// Initialize inverted lists and sort what the index already holds into them
 	for i := range ivf.Invlists {
 		ivf.Invlists[i] = []int{}
 	}
+	for vectorIdx, vector := range ivf.Vectors {
+		centroidIdx := ivf.findNearestCentroid(vector)
+		ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], vectorIdx)
+	}
 	
 	return nil
 }
@@ -154,8 +169,8 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 	vectorIdx := len(ivf.Vectors)
 	ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], vectorIdx)
 	
-	// Store vector and ID
-	ivf.Vectors = append(ivf.Vectors, vector)
+	// Store a copy of the vector (to avoid external modifications) and the ID
+	ivf.Vectors = append(ivf.Vectors, append([]float32(nil), vector...))
 	ivf.IDs = append(ivf.IDs, id)
 	
 	return nil
@@ -217,7 +232,7 @@ func (ivf *IVFIndex) Search(query []float32, k int) ([]string, []float32, error)
 	})
 	
 	// Return top-k results
-	topK := min(k, len(candidates))
+	topK := max(min(k, len(candidates)), 0)
 	ids := make([]string, topK)
 	distances := make([]float32, topK)
 	
-- 
2.43.0


From 355cec548d63d73d4b80603919ca3bd005aa99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:12 +0000
Subject: [PATCH 34/58] fix: HNSW copies vectors, batch inserts revive deleted
 ids, Load checks dimensions

---
 pkg/index/hnsw.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 1c2c84d..14961d2 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -160,7 +160,14 @@ func (h *HNSW) Load(r io.Reader) error {
 	if _, exists := nodes[entryPoint]; !exists && (entryPoint != "" || count > 0) {
 		return fmt.Errorf("invalid HNSW snapshot: unknown entry point %q", entryPoint)
 	}
+	dimension := -1
 	for id, node := range nodes {
+		if node.Vector != nil {
+			if dimension >= 0 && len(node.Vector) != dimension {
+				return fmt.Errorf("invalid HNSW snapshot: node %q has inconsistent dimension", id)
+			}
+			dimension = len(node.Vector)
+		}
 		if node.Level < 0 || len(node.Neighbors) != node.Level+1 {
 			return fmt.Errorf("invalid HNSW snapshot: node %q has inconsistent levels", id)
 		}
@@ -212,7 +219,7 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	
 	// Prepare node data
 	var quantized []byte
-	var storedVector []float32 = vector
+	var storedVector []float32 = slices.Clone(vector)
 	
 	if h.Quantizer != nil {
 		var err error
@@ -272,7 +279,7 @@ func (h *HNSW) Upsert(id string, vector []float32) error {
 // links, so nothing that is reachable through it is lost, and gains links to the
 // neighborhood of the new vector.
 func (h *HNSW) replaceNode(node *HNSWNode, vector []float32) {
-	node.Vector, node.Quantized = vector, nil
+	node.Vector, node.Quantized = slices.Clone(vector), nil
 	if h.Quantizer != nil {
 		if quantized, err := h.Quantizer.Encode(vector); err == nil {
 			node.Vector, node.Quantized = nil, quantized
@@ -748,13 +755,16 @@ func (h *HNSW) InsertBatch(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, v := range vectors {
-		if _, exists := h.Nodes[v.ID]; exists {
+		if existing, exists := h.Nodes[v.ID]; exists {
+			if existing.Deleted {
+				h.replaceNode(existing, v.Vector)
+			}
 			continue // Skip duplicates
 		}
 
 		// Prepare node data
 		var quantized []byte
-		var storedVector []float32 = v.Vector
+		var storedVector []float32 = slices.Clone(v.Vector)
 
 		if h.Quantizer != nil {
 			var err error
@@ -920,7 +930,7 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 
 				// Prepare node data
 				var quantized []byte
-				var storedVector []float32 = v.Vector
+				var storedVector []float32 = slices.Clone(v.Vector)
 
 				if tempHNSW.Quantizer != nil {
 					var err error
@@ -1056,5 +1066,12 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 		}
 	}
 
+	// Ids that had been deleted come back with their new vector
+	for _, v := range vectors {
+		if node := h.Nodes[v.ID]; node.Deleted {
+			h.replaceNode(node, v.Vector)
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 0b9cdc8727d0cae7bac556399bbe282e447f6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:12 +0000
Subject: [PATCH 35/58] fix: hybrid and multi index keep their members in step
 and rank correctly

---
 pkg/index/multi_index.go | 61 ++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 29d1f17..5a83d67 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -2,6 +2,8 @@
 package index
 
 import (
+	"errors"
+	"fmt"
 	"sort"
 	"sync"
 )
@@ -125,6 +127,10 @@ func (m *MultiIndex) Search(query []float32, k int) ([]string, []float32) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
+	if k <= 0 {
+		return []string{}, []float32{}
+	}
+	
 	switch m.config.CombineStrategy {
 	case StrategyPrimaryOnly:
 		return m.searchPrimaryOnly(query, k)
@@ -203,9 +209,9 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	// Get candidates from primary index
 	candidateK := k * 2
 	if m.config.RerankTopK > 0 {
-		candidateK = m.config.RerankTopK
+		candidateK = max(m.config.RerankTopK, k)
 	}
-	candidateIDs, _ := primary.Search(query, candidateK)
+	candidateIDs, candidateDists := primary.Search(query, candidateK)
 	
 	if len(candidateIDs) == 0 {
 		return []string{}, []float32{}
@@ -236,6 +242,13 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 		}
 	}
 	
+	// Candidates no secondary index returned keep their primary distance
+	for i, id := range candidateIDs {
+		if r := resultMap[id]; r.voteCount == 0 {
+			r.score = candidateDists[i]
+		}
+	}
+	
 	// Average scores and sort
 	results := make([]result, 0, len(resultMap))
 	for _, r := range resultMap {
@@ -336,12 +349,14 @@ func (m *MultiIndex) Delete(id string) error {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
+	// An index that fails must not keep the vector in the others
+	var firstErr error
 	for _, index := range m.indices {
-		if err := index.Delete(id); err != nil {
-			return err
+		if err := index.Delete(id); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 // Size returns the size of the primary index
@@ -393,6 +408,9 @@ func NewHybridIndex(dimension int, hnswM int, ivfCentroids int) *HybridIndex {
 
 // Train trains the IVF component
 func (h *HybridIndex) Train(vectors [][]float32) error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	
 	return h.ivf.Train(vectors)
 }
 
@@ -401,6 +419,13 @@ func (h *HybridIndex) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
+	// Both components have to accept the vector
+	if !h.ivf.Trained {
+		return errors.New("index not trained")
+	}
+	if len(vector) != h.ivf.Dimension {
+		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), h.ivf.Dimension)
+	}
 	if err := h.hnsw.Insert(id, vector); err != nil {
 		return err
 	}
@@ -412,6 +437,10 @@ func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
+	if k <= 0 || len(query) != h.ivf.Dimension {
+		return []string{}, []float32{}
+	}
+	
 	// Get candidates from HNSW (fast)
 	hnswIDs, _ := h.hnsw.Search(query, k*2, 50)
 	
@@ -436,7 +465,7 @@ func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
 	
 	// Add HNSW results not in IVF
 	for _, id := range hnswIDs {
-		if !seen[id] && len(results) < k {
+		if !seen[id] {
 			// Compute actual distance for HNSW results
 			if node, exists := h.hnsw.Nodes[id]; exists {
 				dist := h.hnsw.DistFunc(query, node.Vector)
@@ -478,7 +507,9 @@ func (h *HybridIndex) Delete(id string) error {
 		// Log but don't fail - some indices may not support deletion
 		_ = err
 	}
-	// IVF doesn't support delete, would need rebuild
+	if err := h.ivf.Delete(id); err != nil {
+		_ = err
+	}
 	return nil
 }
 
@@ -499,19 +530,33 @@ func (h *HybridIndex) SetAlpha(alpha float32) {
 // HNSWAdapter wraps HNSW to implement VectorIndex interface
 type HNSWAdapter struct {
 	*HNSW
+	dimension int
 	defaultEf int
 }
 
 // NewHNSWAdapter creates a new HNSW adapter
 func NewHNSWAdapter(dimension, M int, distFunc func([]float32, []float32) float32) *HNSWAdapter {
 	return &HNSWAdapter{
-		HNSW:      NewHNSW(dimension, M, distFunc),
+		HNSW:      NewHNSW(M, 200, distFunc),
+		dimension: dimension,
 		defaultEf: 50,
 	}
 }
 
+// Insert implements VectorIndex interface; like the other indices it replaces the vector of
+// an existing id
+func (h *HNSWAdapter) Insert(id string, vector []float32) error {
+	if len(vector) != h.dimension {
+		return fmt.Errorf("dimension mismatch: expected %d, got %d", h.dimension, len(vector))
+	}
+	return h.Upsert(id, vector)
+}
+
 // Search implements VectorIndex interface
 func (h *HNSWAdapter) Search(query []float32, k int) ([]string, []float32) {
+	if len(query) != h.dimension {
+		return nil, nil
+	}
 	ef := h.defaultEf
 	if ef < k {
 		ef = k * 2
-- 
2.43.0


From e3dd7a2ff4dd7f81dbc2494eb5265de975492a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:47 +0000
Subject: [PATCH 36/58] fix: keep the graph HNSW index in step with concurrent
 node writes

Two overlapping writers of one node could leave the index holding the older
vector, and a search could pair a score with a node it was not computed from.
---
 pkg/graph/graph.go        | 8 ++++++++
 pkg/graph/graph_batch.go  | 9 +++++++++
 pkg/graph/graph_hnsw.go   | 9 +++++++++
 pkg/graph/graph_hybrid.go | 3 +++
 4 files changed, 29 insertions(+)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index 5b6511f..49cc8c3 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -8,6 +8,7 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -79,6 +80,7 @@ type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
 	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
+	indexMu   sync.RWMutex    // keeps the HNSW index in step with the stored nodes
 }
 
 // NewGraphStore creates a new graph store from a SQLite store
@@ -165,6 +167,9 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		updated_at = CURRENT_TIMESTAMP
 	`
 
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	_, err = g.db.ExecContext(ctx, query,
 		node.ID,
 		vectorBytes,
@@ -228,6 +233,9 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 
 // DeleteNode removes a node and all its edges
 func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	// Edges are automatically deleted due to CASCADE
 	query := `DELETE FROM graph_nodes WHERE id = ?`
 	result, err := g.db.ExecContext(ctx, query, nodeID)
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 9a2c70a..d88adb9 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -36,6 +36,9 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -133,6 +136,9 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -476,6 +482,9 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index f77ff45..73d20d8 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -316,6 +316,9 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	g.hnswIndex = &HNSWGraphIndex{
 		index: NewSimpleHNSW(dimensions, 16),
 	}
@@ -350,6 +353,9 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 
 // HNSWSearch performs HNSW-accelerated vector search
 func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, threshold float64) ([]*HybridResult, error) {
+	g.indexMu.RLock()
+	defer g.indexMu.RUnlock()
+
 	if g.hnswIndex == nil {
 		return nil, fmt.Errorf("HNSW index not enabled")
 	}
@@ -383,10 +389,13 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
+	g.indexMu.RLock()
 	if g.hnswIndex == nil {
 		// Fall back to regular hybrid search
+		g.indexMu.RUnlock()
 		return g.HybridSearch(ctx, query)
 	}
+	defer g.indexMu.RUnlock()
 
 	if query == nil {
 		return nil, fmt.Errorf("query cannot be nil")
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 16276bd..85f71d7 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -302,6 +302,9 @@ type graphDistance struct {
 }
 
 func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) ([]*GraphNode, error) {
+	g.indexMu.RLock()
+	defer g.indexMu.RUnlock()
+
 	if g.hnswIndex != nil && query.TopK > 0 {
 		candidateLimit := query.TopK * 5
 		if candidateLimit < 50 {
-- 
2.43.0


From 1b66e22c1af8f9e7a1789fb463edbb48cbf0148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:26 +0000
Subject: [PATCH 37/58] fix: a parameter description with pattern characters no
 longer panics the extractor

---
 pkg/semantic-router/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index af4f19d..cfb16d6 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -247,7 +247,7 @@ func (r *RegexExtractor) extractValue(text, textLower, paramName string, schema
 	for _, keyword := range keywords {
 		if strings.Contains(textLower, keyword) {
 			// Try to extract value after the keyword
-			pattern := keyword + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
+			pattern := regexp.QuoteMeta(keyword) + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
 			re := regexp.MustCompile(pattern)
 			matches := re.FindStringSubmatch(textLower)
 			if len(matches) > 1 {
-- 
2.43.0


From 7acd26f69abcf90c5377746604f28f1269b5d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:26 +0000
Subject: [PATCH 38/58] fix: routers persist, reload and reject routes as a
 whole

Utterances were stored with empty IDs, so persistence failed or collided;
failed adds and removals left memory and store disagreeing; duplicates inside
a batch were accepted; negative scores (euclidean) never won; one failed
embedding disabled a route for good.
---
 pkg/semantic-router/hybrid.go |  32 ++++++++-
 pkg/semantic-router/router.go | 128 ++++++++++++++++++++--------------
 pkg/semantic-router/types.go  |   3 +-
 3 files changed, 108 insertions(+), 55 deletions(-)

diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 45b9ea7..88ff86a 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -132,6 +132,19 @@ func (r *SparseRouter) Add(route *SparseRoute) error {
 	return nil
 }
 
+// remove drops a route by name.
+func (r *SparseRouter) remove(name string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	for i, route := range r.routes {
+		if route.Name == name {
+			r.routes = append(r.routes[:i], r.routes[i+1:]...)
+			return
+		}
+	}
+}
+
 // Route performs sparse routing.
 func (r *SparseRouter) Route(ctx context.Context, query string) (*RouteResult, error) {
 	if query == "" {
@@ -322,6 +335,9 @@ func (h *HybridRouter) Add(route *Route, sparseRoute *SparseRoute) error {
 
 	if sparseRoute != nil {
 		if err := h.sparse.Add(sparseRoute); err != nil {
+			if route != nil {
+				_ = h.dense.Remove(route.Name)
+			}
 			return fmt.Errorf("failed to add sparse route: %w", err)
 		}
 	}
@@ -343,8 +359,14 @@ func (h *HybridRouter) AddBatch(denseRoutes []*Route, sparseRoutes []*SparseRout
 	}
 
 	if len(sparseRoutes) > 0 {
-		for _, route := range sparseRoutes {
+		for i, route := range sparseRoutes {
 			if err := h.sparse.Add(route); err != nil {
+				for _, added := range sparseRoutes[:i] {
+					h.sparse.remove(added.Name)
+				}
+				for _, added := range denseRoutes {
+					_ = h.dense.Remove(added.Name)
+				}
 				return fmt.Errorf("failed to add sparse route: %w", err)
 			}
 		}
@@ -402,9 +424,17 @@ func (h *HybridRouter) Route(ctx context.Context, query string) (*HybridRouteRes
 		} else if sparseResult.RouteName != "" {
 			result.RouteResult.RouteName = sparseResult.RouteName
 			result.RouteResult.Handler = sparseResult.Handler
+		} else {
+			result.RouteResult.RouteName = denseResult.RouteName
+			result.RouteResult.Handler = denseResult.Handler
 		}
 	}
 
+	// Without a route there is nothing to match
+	if result.RouteResult.RouteName == "" {
+		result.Matched = false
+	}
+
 	return result, nil
 }
 
diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 42fbaa3..456d43e 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -8,6 +8,14 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 )
 
+const (
+	// routesCollection is the collection that holds persisted utterances.
+	routesCollection = "semantic_routes"
+
+	// maxStoredUtterances bounds the utterances read back from the store.
+	maxStoredUtterances = 100000
+)
+
 // Router performs semantic routing using vector similarity.
 type Router struct {
 	routes    []*Route
@@ -118,16 +126,16 @@ func (r *Router) Add(route *Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, route)
-
 	// If store is available, persist the route
 	if r.store != nil {
 		ctx := context.Background()
-		if err := r.persistRoute(ctx, route); err != nil {
+		if err := r.persistRoutes(ctx, []*Route{route}); err != nil {
 			return fmt.Errorf("failed to persist route: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, route)
+
 	return nil
 }
 
@@ -138,7 +146,11 @@ func (r *Router) AddBatch(routes []*Route) error {
 
 	ctx := context.Background()
 
+	names := make(map[string]bool, len(routes))
 	for _, route := range routes {
+		if route == nil {
+			return fmt.Errorf("route cannot be nil")
+		}
 		if route.Name == "" {
 			return fmt.Errorf("route name cannot be empty")
 		}
@@ -147,6 +159,10 @@ func (r *Router) AddBatch(routes []*Route) error {
 		}
 
 		// Check for duplicates
+		if names[route.Name] {
+			return fmt.Errorf("route %q already exists", route.Name)
+		}
+		names[route.Name] = true
 		for _, existing := range r.routes {
 			if existing.Name == route.Name {
 				return fmt.Errorf("route %q already exists", route.Name)
@@ -154,17 +170,15 @@ func (r *Router) AddBatch(routes []*Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, routes...)
-
 	// Persist routes if store is available
 	if r.store != nil {
-		for _, route := range routes {
-			if err := r.persistRoute(ctx, route); err != nil {
-				return fmt.Errorf("failed to persist route %q: %w", route.Name, err)
-			}
+		if err := r.persistRoutes(ctx, routes); err != nil {
+			return fmt.Errorf("failed to persist routes: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, routes...)
+
 	return nil
 }
 
@@ -175,27 +189,32 @@ func (r *Router) Remove(name string) error {
 
 	for i, route := range r.routes {
 		if route.Name == name {
-			// Remove from slice
-			r.routes = append(r.routes[:i], r.routes[i+1:]...)
-
 			// Remove from store if available
 			if r.store != nil {
 				ctx := context.Background()
 				opts := core.SearchOptions{
 					Filter:     map[string]string{"route_name": name},
-					TopK:       1000,
-					Collection: "semantic_routes",
+					TopK:       maxStoredUtterances,
+					Collection: routesCollection,
 				}
 				results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-				if err == nil {
+				if err != nil {
+					return fmt.Errorf("failed to find stored route %q: %w", name, err)
+				}
+				if len(results) > 0 {
 					ids := make([]string, len(results))
-					for i, r := range results {
-						ids[i] = r.ID
+					for i, result := range results {
+						ids[i] = result.ID
+					}
+					if err := r.store.DeleteBatch(ctx, ids); err != nil {
+						return fmt.Errorf("failed to delete stored route %q: %w", name, err)
 					}
-					r.store.DeleteBatch(ctx, ids)
 				}
 			}
 
+			// Remove from slice
+			r.routes = append(r.routes[:i], r.routes[i+1:]...)
+
 			return nil
 		}
 	}
@@ -230,7 +249,7 @@ func (r *Router) Route(ctx context.Context, query string) (*RouteResult, error)
 
 		for _, vec := range vectors {
 			score := r.config.SimilarityFunc(queryVec, vec)
-			if score > maxScore {
+			if bestRoute == nil || score > maxScore {
 				maxScore = score
 				bestRoute = route
 			}
@@ -296,8 +315,8 @@ func (r *Router) getRouteVectors(ctx context.Context, route *Route) ([][]float32
 	if r.store != nil {
 		opts := core.SearchOptions{
 			Filter:     map[string]string{"route_name": route.Name},
-			TopK:       1000,
-			Collection: "semantic_routes",
+			TopK:       maxStoredUtterances,
+			Collection: routesCollection,
 		}
 		results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
 		if err == nil && len(results) > 0 {
@@ -314,12 +333,18 @@ func (r *Router) getRouteVectors(ctx context.Context, route *Route) ([][]float32
 		return r.embedVectors(ctx, route.Utterances)
 	}
 
-	var err error
-	route.cachedOnce.Do(func() {
-		route.cachedVectors, err = r.embedVectors(ctx, route.Utterances)
-	})
+	route.cachedMu.Lock()
+	defer route.cachedMu.Unlock()
 
-	return route.cachedVectors, err
+	if route.cachedVectors == nil {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return nil, err
+		}
+		route.cachedVectors = vectors
+	}
+
+	return route.cachedVectors, nil
 }
 
 // embedVectors converts text utterances to embeddings.
@@ -347,28 +372,31 @@ func (r *Router) embedVectors(ctx context.Context, utterances []string) ([][]flo
 	return vectors, nil
 }
 
-// persistRoute stores a route's utterances in the vector store.
-func (r *Router) persistRoute(ctx context.Context, route *Route) error {
+// persistRoutes stores the utterances of routes in the vector store, all or none of them.
+func (r *Router) persistRoutes(ctx context.Context, routes []*Route) error {
 	// Create collection for routes if it doesn't exist
-	_, err := r.store.CreateCollection(ctx, "semantic_routes", r.embedder.Dimensions())
+	_, err := r.store.CreateCollection(ctx, routesCollection, r.embedder.Dimensions())
 	if err != nil {
 		// Collection might already exist, ignore error
 	}
 
-	vectors, err := r.embedVectors(ctx, route.Utterances)
-	if err != nil {
-		return err
-	}
+	var embeddings []*core.Embedding
+	for _, route := range routes {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return err
+		}
 
-	embeddings := make([]*core.Embedding, len(vectors))
-	for i, vec := range vectors {
-		embeddings[i] = &core.Embedding{
-			Vector:     vec,
-			Content:    route.Utterances[i],
-			Collection: "semantic_routes",
-			Metadata: map[string]string{
-				"route_name": route.Name,
-			},
+		for i, vec := range vectors {
+			embeddings = append(embeddings, &core.Embedding{
+				ID:         fmt.Sprintf("%s:%d:%s", routesCollection, i, route.Name),
+				Vector:     vec,
+				Content:    route.Utterances[i],
+				Collection: routesCollection,
+				Metadata: map[string]string{
+					"route_name": route.Name,
+				},
+			})
 		}
 	}
 
@@ -380,12 +408,12 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 	// Get all routes from the semantic_routes collection
 	collections, err := r.store.ListCollections(ctx)
 	if err != nil {
-		return nil // Store might not be initialized yet
+		return err
 	}
 
 	found := false
 	for _, col := range collections {
-		if col.Name == "semantic_routes" {
+		if col.Name == routesCollection {
 			found = true
 			break
 		}
@@ -397,13 +425,13 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 
 	// Search for all route embeddings
 	opts := core.SearchOptions{
-		TopK:       10000,
-		Collection: "semantic_routes",
+		TopK:       maxStoredUtterances,
+		Collection: routesCollection,
 	}
 	dim := r.embedder.Dimensions()
 	results, err := r.store.Search(ctx, make([]float32, dim), opts)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// Group results by route name
@@ -419,17 +447,13 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 				Name:       routeName,
 				Utterances: []string{},
 			}
+			r.routes = append(r.routes, routeMap[routeName])
 		}
 
 		routeMap[routeName].Utterances = append(routeMap[routeName].Utterances, result.Content)
 		routeMap[routeName].cachedVectors = append(routeMap[routeName].cachedVectors, result.Vector)
 	}
 
-	// Add to routes
-	for _, route := range routeMap {
-		r.routes = append(r.routes, route)
-	}
-
 	return nil
 }
 
diff --git a/pkg/semantic-router/types.go b/pkg/semantic-router/types.go
index 9fed0f0..3c4e499 100644
--- a/pkg/semantic-router/types.go
+++ b/pkg/semantic-router/types.go
@@ -26,8 +26,7 @@ type Route struct {
 
 	// cachedVectors stores pre-computed embeddings for utterances
 	cachedVectors [][]float32
-	cachedOnce    sync.Once
-	cachedErr     error
+	cachedMu      sync.Mutex
 }
 
 // RouteHandler is a function that handles a matched route.
-- 
2.43.0


From 06fadcd8e2448698c8a15220a6a6ea8aa4b6e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:48 +0000
Subject: [PATCH 39/58] fix: geo radius search near poles, date line and at
 high latitudes; moved points leave their old cell

---
 pkg/geo/geospatial.go | 74 +++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 60e773b..826bdb2 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -83,6 +83,9 @@ func (g *GeoIndex) Insert(point GeoPoint) error {
 	defer g.mu.Unlock()
 
 	// Store point
+	if previous, exists := g.points[point.ID]; exists {
+		g.removeFromGrid(previous)
+	}
 	g.points[point.ID] = &point
 
 	// Add to grid index
@@ -104,25 +107,25 @@ func (g *GeoIndex) Delete(id string) bool {
 
 	// Remove from main index
 	delete(g.points, id)
+	g.removeFromGrid(point)
 
-	// Remove from grid index
+	return true
+}
+
+// removeFromGrid takes a point out of its grid cell
+func (g *GeoIndex) removeFromGrid(point *GeoPoint) {
 	gridKey := g.getGridKey(point.Coordinate)
-	if cells, ok := g.grid[gridKey]; ok {
-		for i, p := range cells {
-			if p.ID == id {
-				// Remove element by swapping with last and truncating
-				g.grid[gridKey][i] = cells[len(cells)-1]
-				g.grid[gridKey] = cells[:len(cells)-1]
-				break
-			}
-		}
-		// Clean up empty cells
-		if len(g.grid[gridKey]) == 0 {
-			delete(g.grid, gridKey)
+	cells := g.grid[gridKey]
+	for i, p := range cells {
+		if p == point {
+			cells[i] = cells[len(cells)-1]
+			g.grid[gridKey] = cells[:len(cells)-1]
+			break
 		}
 	}
-
-	return true
+	if len(g.grid[gridKey]) == 0 {
+		delete(g.grid, gridKey)
+	}
 }
 
 // SearchRadius finds all points within a given radius from a center point
@@ -306,24 +309,34 @@ func (g *GeoIndex) getGridKey(coord Coordinate) int64 {
 
 // getCandidateCells returns points from grid cells that might contain results
 func (g *GeoIndex) getCandidateCells(center Coordinate, radiusKM float64) []*GeoPoint {
-	// Calculate how many grid cells we need to check
-	// At equator, 1 degree ≈ 111km
-	degreesRadius := radiusKM / 111.0
-	cellsRadius := int64(math.Ceil(degreesRadius / g.gridSize))
-	
-	centerGridX := int64(center.Lng / g.gridSize)
-	centerGridY := int64(center.Lat / g.gridSize)
-	
-	var candidates []*GeoPoint
-	for dx := -cellsRadius; dx <= cellsRadius; dx++ {
-		for dy := -cellsRadius; dy <= cellsRadius; dy++ {
-			gridKey := ((centerGridX + dx) << 32) | ((centerGridY + dy) & 0xFFFFFFFF)
-			if cells, ok := g.grid[gridKey]; ok {
-				candidates = append(candidates, cells...)
+	angle := radiusKM / EarthRadiusKM
+	latDelta := angle * 180 / math.Pi
+
+	// A circle around a pole or across the date line is not one range of
+	// longitudes, and meridians converge away from the equator
+	if center.Lat-latDelta > -90 && center.Lat+latDelta < 90 {
+		lngDelta := math.Asin(math.Min(1, math.Sin(angle)/math.Cos(center.Lat*math.Pi/180))) * 180 / math.Pi
+		minGridX := int64((center.Lng-lngDelta)/g.gridSize) - 1
+		maxGridX := int64((center.Lng+lngDelta)/g.gridSize) + 1
+		minGridY := int64((center.Lat-latDelta)/g.gridSize) - 1
+		maxGridY := int64((center.Lat+latDelta)/g.gridSize) + 1
+
+		withinDateLine := center.Lng-lngDelta > -180 && center.Lng+lngDelta < 180
+		if withinDateLine && (maxGridX-minGridX+1)*(maxGridY-minGridY+1) <= int64(len(g.points)) {
+			var candidates []*GeoPoint
+			for x := minGridX; x <= maxGridX; x++ {
+				for y := minGridY; y <= maxGridY; y++ {
+					candidates = append(candidates, g.grid[(x<<32)|(y&0xFFFFFFFF)]...)
+				}
 			}
+			return candidates
 		}
 	}
-	
+
+	candidates := make([]*GeoPoint, 0, len(g.points))
+	for _, point := range g.points {
+		candidates = append(candidates, point)
+	}
 	return candidates
 }
 
@@ -337,6 +350,7 @@ func haversineDistance(p1, p2 Coordinate) float64 {
 	a := math.Sin(deltaLat/2)*math.Sin(deltaLat/2) +
 		math.Cos(lat1Rad)*math.Cos(lat2Rad)*
 			math.Sin(deltaLng/2)*math.Sin(deltaLng/2)
+	a = math.Min(1, a) // rounding can exceed 1 for antipodal points
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	return EarthRadiusKM * c
-- 
2.43.0


From 6ff3ebffc275cef1a3a6e5c58f2e58810dd5031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:09 +0000
Subject: [PATCH 40/58] fix: quantizers refuse malformed input whole, and
 product distances match the decoded vectors

---
 pkg/quantization/product_quantization.go | 82 ++++++++++++++++--------
 pkg/quantization/scalar_quantization.go  | 64 +++++++++++++-----
 2 files changed, 104 insertions(+), 42 deletions(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 4020a72..2db368f 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -23,6 +23,10 @@ type ProductQuantizer struct {
 
 // NewProductQuantizer creates a new PQ instance
 func NewProductQuantizer(dimension, numSubspaces, numCentroids int) (*ProductQuantizer, error) {
+	if dimension <= 0 || numSubspaces <= 0 || numCentroids <= 0 {
+		return nil, fmt.Errorf("dimension %d, numSubspaces %d and numCentroids %d must be positive", dimension, numSubspaces, numCentroids)
+	}
+	
 	if dimension%numSubspaces != 0 {
 		return nil, fmt.Errorf("dimension %d must be divisible by numSubspaces %d", dimension, numSubspaces)
 	}
@@ -46,6 +50,12 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 		return fmt.Errorf("need at least %d vectors for training, got %d", pq.K*pq.M, len(vectors))
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != pq.D {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), pq.D)
+		}
+	}
+	
 	pq.TrainSize = len(vectors)
 	
 	// Train each subspace independently
@@ -143,16 +153,34 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 		return 0, errors.New("quantizer not trained")
 	}
 	
+	if len(query) != pq.D {
+		return 0, fmt.Errorf("query dimension %d doesn't match quantizer dimension %d", len(query), pq.D)
+	}
+	
 	// Precompute distance table
 	distTable := pq.computeDistanceTable(query)
 	
-	// Sum distances from each subspace
-	totalDist := float32(0)
+	return pq.tableDistance(distTable, codes)
+}
+
+// tableDistance returns the Euclidean distance between the query of a distance
+// table and the vector the codes stand for
+func (pq *ProductQuantizer) tableDistance(distTable [][]float32, codes []byte) (float32, error) {
+	if len(codes) != pq.M {
+		return 0, fmt.Errorf("codes length %d doesn't match number of subspaces %d", len(codes), pq.M)
+	}
+	
+	// Sum squared distances from each subspace
+	total := float32(0)
 	for m := 0; m < pq.M; m++ {
-		totalDist += distTable[m][codes[m]]
+		if int(codes[m]) >= pq.K {
+			return 0, fmt.Errorf("invalid code %d for subspace %d", codes[m], m)
+		}
+		dist := distTable[m][codes[m]]
+		total += dist * dist
 	}
 	
-	return totalDist, nil
+	return float32(math.Sqrt(float64(total))), nil
 }
 
 // computeDistanceTable precomputes distances between query and all centroids
@@ -175,7 +203,7 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 
 // SearchPQ performs approximate nearest neighbor search on PQ-compressed vectors
 func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int) ([]int, []float32) {
-	if !pq.Trained || len(codes) == 0 {
+	if !pq.Trained || len(codes) == 0 || len(query) != pq.D {
 		return nil, nil
 	}
 	
@@ -188,13 +216,14 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 		dist float32
 	}
 	
-	results := make([]result, len(codes))
+	results := make([]result, 0, len(codes))
 	for i, code := range codes {
-		dist := float32(0)
-		for m := 0; m < pq.M; m++ {
-			dist += distTable[m][code[m]]
+		// Codes this quantizer cannot decode stand for no vector
+		dist, err := pq.tableDistance(distTable, code)
+		if err != nil {
+			continue
 		}
-		results[i] = result{idx: i, dist: dist}
+		results = append(results, result{idx: i, dist: dist})
 	}
 	
 	// Sort by distance
@@ -203,7 +232,7 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 	})
 	
 	// Return top-K
-	k := topK
+	k := max(topK, 0)
 	if k > len(results) {
 		k = len(results)
 	}
@@ -267,17 +296,18 @@ func (pq *ProductQuantizer) DeserializeCodebooks(data []byte) error {
 		return errors.New("invalid codebook data")
 	}
 	
-	offset := 0
-	
 	// Read header
-	pq.M = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.K = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.D = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.SubDim = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
+	m := int(binary.LittleEndian.Uint32(data))
+	k := int(binary.LittleEndian.Uint32(data[4:]))
+	d := int(binary.LittleEndian.Uint32(data[8:]))
+	subDim := int(binary.LittleEndian.Uint32(data[12:]))
+	offset := 16
+	
+	// Refuse anything that is not a complete set of codebooks before changing the quantizer
+	if m <= 0 || k <= 0 || k > 256 || subDim <= 0 || d/m != subDim || d%m != 0 || (len(data)-offset)/4/d != k || len(data)-offset != 4*k*d {
+		return errors.New("invalid codebook data")
+	}
+	pq.M, pq.K, pq.D, pq.SubDim = m, k, d, subDim
 	
 	// Initialize codebooks
 	pq.Codebooks = make([][][]float32, pq.M)
@@ -343,22 +373,24 @@ func kMeans(vectors [][]float32, k int, maxIters int) ([][]float32, error) {
 		
 		// Update centroids
 		counts := make([]int, k)
-		for i := range centroids {
-			centroids[i] = make([]float32, dim)
+		sums := make([][]float32, k)
+		for i := range sums {
+			sums[i] = make([]float32, dim)
 		}
 		
 		for i, vec := range vectors {
 			cluster := assignments[i]
 			counts[cluster]++
 			for j := 0; j < dim; j++ {
-				centroids[cluster][j] += vec[j]
+				sums[cluster][j] += vec[j]
 			}
 		}
 		
 		for i := range centroids {
+			// A cluster nothing was assigned to keeps its centroid
 			if counts[i] > 0 {
 				for j := 0; j < dim; j++ {
-					centroids[i][j] /= float32(counts[i])
+					centroids[i][j] = sums[i][j] / float32(counts[i])
 				}
 			}
 		}
diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index a6bef6c..7415955 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -24,6 +24,9 @@ func NewScalarQuantizer(dimension int, nbits int) (*ScalarQuantizer, error) {
 	if nbits < 1 || nbits > 8 {
 		return nil, fmt.Errorf("nbits must be between 1 and 8, got %d", nbits)
 	}
+	if dimension < 0 {
+		return nil, fmt.Errorf("dimension must not be negative, got %d", dimension)
+	}
 	
 	return &ScalarQuantizer{
 		Dimension: dimension,
@@ -41,8 +44,17 @@ func (sq *ScalarQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (sq *ScalarQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(sq)
+	// Decode into a fresh value: gob leaves out zero fields, and a failed load
+	// must leave the quantizer as it was.
+	var loaded ScalarQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if loaded.NBits < 1 || loaded.NBits > 8 || len(loaded.Min) != loaded.Dimension || len(loaded.Max) != loaded.Dimension {
+		return errors.New("invalid scalar quantizer data")
+	}
+	*sq = loaded
+	return nil
 }
 
 // Train learns the value ranges from training data
@@ -51,6 +63,12 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != sq.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
+		}
+	}
+	
 	// Initialize min/max
 	for d := 0; d < sq.Dimension; d++ {
 		sq.Min[d] = vectors[0][d]
@@ -59,10 +77,6 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 	
 	// Find min/max for each dimension
 	for _, vec := range vectors {
-		if len(vec) != sq.Dimension {
-			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
-		}
-		
 		for d := 0; d < sq.Dimension; d++ {
 			if vec[d] < sq.Min[d] {
 				sq.Min[d] = vec[d]
@@ -196,8 +210,15 @@ func (bq *BinaryQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (bq *BinaryQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(bq)
+	var loaded BinaryQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if len(loaded.Threshold) != loaded.Dimension {
+		return errors.New("invalid binary quantizer data")
+	}
+	*bq = loaded
+	return nil
 }
 
 // Train learns thresholds from training data
@@ -206,13 +227,16 @@ func (bq *BinaryQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != bq.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), bq.Dimension)
+		}
+	}
+	
 	// Calculate mean for each dimension as threshold
 	for d := 0; d < bq.Dimension; d++ {
 		sum := float32(0)
 		for _, vec := range vectors {
-			if len(vec) != bq.Dimension {
-				return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), bq.Dimension)
-			}
 			sum += vec[d]
 		}
 		bq.Threshold[d] = sum / float32(len(vectors))
@@ -302,12 +326,16 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 		dist int
 	}
 	
-	results := make([]result, len(database))
+	results := make([]result, 0, len(database))
 	for i, vec := range database {
-		results[i] = result{
+		// A code of another length has no distance to the query
+		if len(vec) != len(query) {
+			continue
+		}
+		results = append(results, result{
 			idx:  i,
 			dist: bq.HammingDistance(query, vec),
-		}
+		})
 	}
 	
 	// Sort by Hamming distance
@@ -320,7 +348,7 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 	}
 	
 	// Return top-K
-	k := topK
+	k := max(topK, 0)
 	if k > len(results) {
 		k = len(results)
 	}
@@ -376,8 +404,10 @@ func (obq *OptimizedBinaryQuantizer) Project(vector []float32) []float32 {
 	
 	for i := 0; i < obq.Dimension; i++ {
 		sum := float32(0)
-		for j, val := range vector {
-			sum += val * obq.Projections[i][j]
+		for j, weight := range obq.Projections[i] {
+			if j < len(vector) {
+				sum += vector[j] * weight
+			}
 		}
 		projected[i] = sum
 	}
-- 
2.43.0


From 500cf27e256cbb0801738de43f5db1bdc44dc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:15 +0000
Subject: [PATCH 41/58] fix: memories never share a bucket, and expired ones
 never displace live ones

Bucket IDs were ambiguous when the owner or the namespace contained ':'.
Semantic searches cut to TopK before dropping expired memories, the keyword
search did so as well, preferred the worse match and refused free text that
is no FTS5 expression, lifetimes were cut to whole seconds.
---
 pkg/cortexdb/memory_api.go | 108 ++++++++++++++++++++++++-------------
 1 file changed, 71 insertions(+), 37 deletions(-)

diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 25bef9a..f159884 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -153,11 +153,19 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 	if db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical {
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
-			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, req.TopK)
+			// Expired memories are only recognised here, so the cut to TopK has to come after them.
+			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, math.MaxInt)
 			if err == nil && len(messages) > 0 {
-				hits := make([]MemorySearchHit, 0, len(messages))
+				userID := ""
+				if session, err := db.store.GetSession(ctx, bucketID); err == nil {
+					userID = session.UserID
+				}
+				hits := make([]MemorySearchHit, 0, min(len(messages), req.TopK))
 				for i, message := range messages {
-					record := memoryRecordFromMessage(bucketID, "", message)
+					if len(hits) == req.TopK {
+						break
+					}
+					record := memoryRecordFromMessage(bucketID, userID, message)
 					if memoryExpired(record) {
 						continue
 					}
@@ -317,16 +325,15 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 	var firstErr error
 
 	for idx, searchQuery := range queries {
-		rows, err := db.store.GetDB().QueryContext(ctx, `
-			SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.metadata, m.created_at, bm25(messages_fts)
-			FROM messages_fts
-			JOIN messages m ON m.rowid = messages_fts.rowid
-			JOIN sessions s ON s.id = m.session_id
-			WHERE messages_fts MATCH ?
-			  AND m.session_id = ?
-			ORDER BY bm25(messages_fts)
-			LIMIT ?
-		`, searchQuery, bucketID, topK*4)
+		matches, err := db.matchMemories(ctx, bucketID, searchQuery)
+		if err != nil {
+			// Free text need not be a valid FTS5 expression: look for its words instead.
+			if quoted := core.QuoteFTSQuery(searchQuery); quoted != "" {
+				matches, err = db.matchMemories(ctx, bucketID, quoted)
+			} else {
+				matches, err = nil, nil
+			}
+		}
 		if err != nil {
 			if firstErr == nil {
 				firstErr = fmt.Errorf("search memory lexical: %w", err)
@@ -334,23 +341,8 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			continue
 		}
 
-		for rows.Next() {
-			var record MemoryRecord
-			var metadataJSON []byte
-			var createdAt time.Time
-			var rawRank float64
-			if err := rows.Scan(&record.ID, &record.SessionID, &record.UserID, &record.Role, &record.Content, &metadataJSON, &createdAt, &rawRank); err != nil {
-				_ = rows.Close()
-				return nil, fmt.Errorf("scan lexical memory: %w", err)
-			}
-			record.CreatedAt = createdAt
-			if len(metadataJSON) > 0 {
-				if err := json.Unmarshal(metadataJSON, &record.Metadata); err != nil {
-					_ = rows.Close()
-					return nil, fmt.Errorf("decode lexical memory metadata: %w", err)
-				}
-			}
-			applyMemoryMetadata(&record)
+		for _, match := range matches {
+			record, rawRank := match.record, match.rank
 			if memoryExpired(record) {
 				continue
 			}
@@ -359,14 +351,11 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			if scoreWeight < 0.8 {
 				scoreWeight = 0.8
 			}
-			score := (1 / (1 + math.Abs(rawRank))) * scoreWeight
+			score := (math.Abs(rawRank) / (1 + math.Abs(rawRank))) * scoreWeight
 			if existing, ok := merged[record.ID]; !ok || score > existing.score {
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
 		}
-		if err := rows.Close(); err != nil {
-			return nil, fmt.Errorf("close lexical memory rows: %w", err)
-		}
 	}
 	if len(merged) == 0 && firstErr != nil {
 		return nil, firstErr
@@ -393,6 +382,51 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 	return results, nil
 }
 
+type memoryMatch struct {
+	record MemoryRecord
+	rank   float64
+}
+
+// matchMemories returns every memory of the bucket that matches an FTS5 expression, best match first.
+func (db *DB) matchMemories(ctx context.Context, bucketID, expression string) ([]memoryMatch, error) {
+	rows, err := db.store.GetDB().QueryContext(ctx, `
+		SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.metadata, m.created_at, bm25(messages_fts)
+		FROM messages_fts
+		JOIN messages m ON m.rowid = messages_fts.rowid
+		JOIN sessions s ON s.id = m.session_id
+		WHERE messages_fts MATCH ?
+		  AND m.session_id = ?
+		ORDER BY bm25(messages_fts)
+	`, expression, bucketID)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+
+	var matches []memoryMatch
+	for rows.Next() {
+		var match memoryMatch
+		var userID sql.NullString
+		var metadataJSON []byte
+		if err := rows.Scan(&match.record.ID, &match.record.SessionID, &userID, &match.record.Role, &match.record.Content, &metadataJSON, &match.record.CreatedAt, &match.rank); err != nil {
+			return nil, fmt.Errorf("scan lexical memory: %w", err)
+		}
+		match.record.UserID = userID.String
+		if len(metadataJSON) > 0 {
+			if err := json.Unmarshal(metadataJSON, &match.record.Metadata); err != nil {
+				return nil, fmt.Errorf("decode lexical memory metadata: %w", err)
+			}
+		}
+		applyMemoryMetadata(&match.record)
+		matches = append(matches, match)
+	}
+	return matches, rows.Err()
+}
+
+// memoryBucketNamespace keeps the separator out of the last part of a bucket ID, so that no two
+// combinations of owner and namespace share a bucket.
+var memoryBucketNamespace = strings.NewReplacer("%", "%25", ":", "%3A")
+
 func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, string, error) {
 	namespace = normalizeMemoryNamespace(namespace)
 	scope = strings.ToLower(strings.TrimSpace(scope))
@@ -417,12 +451,12 @@ func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, st
 		if strings.TrimSpace(userID) == "" {
 			return "", "", fmt.Errorf("user_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, memoryBucketNamespace.Replace(namespace)), nil
 	case MemoryScopeSession:
 		if strings.TrimSpace(sessionID) == "" {
 			return "", "", fmt.Errorf("session_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, memoryBucketNamespace.Replace(namespace)), nil
 	default:
 		return "", "", fmt.Errorf("unsupported memory scope: %s", scope)
 	}
@@ -444,7 +478,7 @@ func buildMemoryMetadata(scope, namespace string, metadata map[string]any, impor
 	out["importance"] = importance
 	out["ttl_seconds"] = ttlSeconds
 	if ttlSeconds > 0 {
-		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339)
+		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339Nano)
 	} else {
 		delete(out, "expires_at")
 	}
-- 
2.43.0


From 464aa1cedc442474d1521b4e334a27914015b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:23 +0000
Subject: [PATCH 42/58] fix: a replaced, updated or deleted document leaves
 nothing behind and a failed or abandoned write leaves the previous version;
 relations and mentions are reported as written

---
 pkg/core/store_query.go        |   2 +-
 pkg/cortexdb/graphrag.go       | 169 ++++++++++++++++++++++++++-------
 pkg/cortexdb/graphrag_tools.go |  96 +++++++++++++------
 pkg/cortexdb/knowledge_api.go  |  27 +++---
 4 files changed, 214 insertions(+), 80 deletions(-)

diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 64d2269..47e8217 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -61,7 +61,7 @@ func (s *SQLiteStore) GetByDocID(ctx context.Context, docID string) ([]*Embeddin
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at"
+	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at, rowid"
 	rows, err := s.db.QueryContext(ctx, query, docID)
 	if err != nil {
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("failed to query embeddings: %w", err))
diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 53e4d3e..c33a405 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -2,6 +2,7 @@ package cortexdb
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"regexp"
@@ -119,13 +120,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	}
 
 	applyGraphRAGIngestDefaults(&opts)
-	if err := db.graph.InitGraphSchema(ctx); err != nil {
-		return nil, fmt.Errorf("init graph schema: %w", err)
-	}
-	if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
-		return nil, err
-	}
-
 	chunks := splitGraphRAGText(doc.Content, opts.ChunkSize, opts.ChunkOverlap)
 	if len(chunks) == 0 {
 		return nil, ErrEmptyText
@@ -139,16 +133,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	documentNodeID := graphDocumentNodeID(doc.ID)
 	documentVector := averageVectors(chunkVectors, db.embedder.Dim())
 
-	documentRecord := &core.Document{
-		ID:      doc.ID,
-		Title:   doc.Title,
-		Content: doc.Content,
-		Version: 1,
-	}
-	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
-		return nil, err
-	}
-
 	documentNode := &graph.GraphNode{
 		ID:       documentNodeID,
 		Vector:   documentVector,
@@ -159,9 +143,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			"title":       doc.Title,
 		},
 	}
-	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
-		return nil, fmt.Errorf("upsert document node: %w", err)
-	}
 
 	embeddings := make([]*core.Embedding, 0, len(chunks))
 	chunkNodes := make([]*graph.GraphNode, 0, len(chunks))
@@ -278,13 +259,7 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
-		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
-	}
-	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
-		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
-	}
-
+	var entityNodes []*graph.GraphNode
 	entityNodeIDs := make([]string, 0, len(entityTexts))
 	if len(entityTexts) > 0 {
 		entityNames := make([]string, 0, len(entityTexts))
@@ -299,7 +274,7 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			return nil, fmt.Errorf("embed entities: %w", err)
 		}
 
-		entityNodes := make([]*graph.GraphNode, 0, len(entityNames))
+		entityNodes = make([]*graph.GraphNode, 0, len(entityNames))
 		for i, entityID := range idOrder {
 			entity := entityTexts[entityID]
 			entityNodeIDs = append(entityNodeIDs, entityID)
@@ -314,9 +289,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 				},
 			})
 		}
-		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
-			return nil, fmt.Errorf("upsert entity nodes: %w", err)
-		}
 
 		for chunkID, mentioned := range entityMentions {
 			for entityID := range mentioned {
@@ -344,10 +316,22 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if len(edges) > 0 {
-		if _, err := db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
-			return nil, fmt.Errorf("upsert graph edges: %w", err)
-		}
+	// Everything that can refuse the document has been asked: store it.
+	if err := db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
+	if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
+		return nil, err
+	}
+	documentRecord := &core.Document{
+		ID:      doc.ID,
+		Title:   doc.Title,
+		Content: doc.Content,
+		Version: 1,
+	}
+	nodes := append(append([]*graph.GraphNode{documentNode}, chunkNodes...), entityNodes...)
+	if err := db.replaceGraphDocument(ctx, documentRecord, embeddings, nodes, edges); err != nil {
+		return nil, err
 	}
 
 	return &GraphRAGIngestResult{
@@ -422,6 +406,9 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 				if _, isSeed := seedIDs[neighbor.ID]; isSeed {
 					continue
 				}
+				if !db.chunkInCollection(ctx, neighbor.ID, opts.Collection) {
+					continue
+				}
 				related := chunkResults[neighbor.ID]
 				if related == nil {
 					related = &GraphRAGChunkResult{
@@ -517,6 +504,12 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 	return result, nil
 }
 
+// chunkInCollection tells whether a chunk reached through the graph belongs to the collection being searched.
+func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) bool {
+	chunk, err := db.store.GetByID(ctx, chunkID)
+	return err == nil && chunk.Collection == collection
+}
+
 type defaultGraphRAGExtractor struct{}
 
 func (defaultGraphRAGExtractor) Extract(_ context.Context, text string) (*GraphExtraction, error) {
@@ -603,6 +596,112 @@ func (db *DB) upsertGraphRAGDocumentRecord(ctx context.Context, doc *core.Docume
 	return nil
 }
 
+// replaceGraphDocument stores a document's chunks and graph artifacts in place of those of its previous
+// version. The chunks come first, in one transaction: if they are refused, nothing has changed. From then
+// on the replacement is completed even if the caller gives up.
+func (db *DB) replaceGraphDocument(ctx context.Context, doc *core.Document, chunks []*core.Embedding, nodes []*graph.GraphNode, edges []*graph.GraphEdge) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	ctx = context.WithoutCancel(ctx)
+
+	_, err := db.store.GetDocument(ctx, doc.ID)
+	isNew := errors.Is(err, core.ErrNotFound)
+	if err != nil && !isNew {
+		return fmt.Errorf("get document record: %w", err)
+	}
+	old, err := db.store.GetByDocID(ctx, doc.ID)
+	if err != nil {
+		return fmt.Errorf("get previous chunks: %w", err)
+	}
+	if isNew {
+		if err := db.store.CreateDocument(ctx, doc); err != nil {
+			return fmt.Errorf("create document record: %w", err)
+		}
+	}
+	if err := db.store.UpsertBatch(ctx, chunks); err != nil {
+		if isNew {
+			_ = db.store.DeleteDocument(ctx, doc.ID)
+		}
+		return fmt.Errorf("upsert document chunks: %w", err)
+	}
+	if !isNew {
+		if err := db.upsertGraphRAGDocumentRecord(ctx, doc); err != nil {
+			return err
+		}
+	}
+
+	kept := make(map[string]struct{}, len(chunks))
+	for _, chunk := range chunks {
+		kept[chunk.ID] = struct{}{}
+	}
+	stale := make([]string, 0, len(old))
+	for _, chunk := range old {
+		if _, ok := kept[chunk.ID]; !ok {
+			stale = append(stale, chunk.ID)
+		}
+	}
+	if len(stale) > 0 {
+		if err := db.store.DeleteBatch(ctx, stale); err != nil {
+			return fmt.Errorf("delete previous chunks: %w", err)
+		}
+	}
+	if err := db.deleteGraphDocumentArtifacts(ctx, doc.ID, old); err != nil {
+		return err
+	}
+
+	if _, err := db.graph.UpsertNodesBatch(ctx, nodes); err != nil {
+		return fmt.Errorf("upsert document graph nodes: %w", err)
+	}
+	if _, err := db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		return fmt.Errorf("upsert document graph edges: %w", err)
+	}
+	return nil
+}
+
+// deleteGraphDocumentArtifacts removes what the graph holds about a document: its node, the nodes of its
+// chunks with their mentions, and the relations taken from it.
+func (db *DB) deleteGraphDocumentArtifacts(ctx context.Context, documentID string, chunks []*core.Embedding) error {
+	edgeIDs, err := db.documentRelationIDs(ctx, documentID)
+	if err != nil {
+		return fmt.Errorf("get document relations: %w", err)
+	}
+	if _, err := db.graph.DeleteEdgesBatch(ctx, edgeIDs); err != nil {
+		return fmt.Errorf("delete document relations: %w", err)
+	}
+
+	nodeIDs := make([]string, 0, len(chunks)+1)
+	nodeIDs = append(nodeIDs, graphDocumentNodeID(documentID))
+	for _, chunk := range chunks {
+		nodeIDs = append(nodeIDs, chunk.ID)
+	}
+	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
+		return fmt.Errorf("delete graph nodes: %w", err)
+	}
+	return nil
+}
+
+func (db *DB) documentRelationIDs(ctx context.Context, documentID string) ([]string, error) {
+	rows, err := db.store.GetDB().QueryContext(ctx, `
+		SELECT id FROM graph_edges
+		WHERE json_valid(properties) AND json_extract(properties, '$.document_id') = ?
+	`, documentID)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return nil, err
+		}
+		ids = append(ids, id)
+	}
+	return ids, rows.Err()
+}
+
 func splitGraphRAGText(text string, chunkSize, chunkOverlap int) []string {
 	paragraphs := strings.FieldsFunc(text, func(r rune) bool {
 		return r == '\n' || r == '\r'
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index bfb2df7..1d48fed 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -543,16 +543,6 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 		return nil, ErrEmptyText
 	}
 
-	docRecord := &core.Document{
-		ID:      req.DocumentID,
-		Title:   req.Title,
-		Content: req.Content,
-		Version: 1,
-	}
-	if err := t.db.upsertGraphRAGDocumentRecord(ctx, docRecord); err != nil {
-		return nil, err
-	}
-
 	docNodeID := graphDocumentNodeID(req.DocumentID)
 	docNode := &graph.GraphNode{
 		ID:       docNodeID,
@@ -564,9 +554,6 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 			"title":       req.Title,
 		},
 	}
-	if err := t.db.graph.UpsertNode(ctx, docNode); err != nil {
-		return nil, fmt.Errorf("upsert document node: %w", err)
-	}
 
 	embeddings := make([]*core.Embedding, 0, len(chunks))
 	chunkNodes := make([]*graph.GraphNode, 0, len(chunks))
@@ -625,14 +612,14 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 		}
 	}
 
-	if err := t.db.store.UpsertBatch(ctx, embeddings); err != nil {
-		return nil, fmt.Errorf("upsert lexical chunks: %w", err)
-	}
-	if _, err := t.db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
-		return nil, fmt.Errorf("upsert chunk nodes: %w", err)
+	docRecord := &core.Document{
+		ID:      req.DocumentID,
+		Title:   req.Title,
+		Content: req.Content,
+		Version: 1,
 	}
-	if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
-		return nil, fmt.Errorf("upsert chunk edges: %w", err)
+	if err := t.db.replaceGraphDocument(ctx, docRecord, embeddings, append([]*graph.GraphNode{docNode}, chunkNodes...), edges); err != nil {
+		return nil, err
 	}
 
 	return &ToolIngestDocumentResponse{
@@ -705,15 +692,19 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 			return nil, fmt.Errorf("upsert entity nodes: %w", err)
 		}
 	}
+	mentionCount := 0
 	if len(edges) > 0 {
-		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		// mentions in chunks that do not exist are not written
+		written, err := t.db.graph.UpsertEdgesBatch(ctx, edges)
+		if err != nil {
 			return nil, fmt.Errorf("upsert mention edges: %w", err)
 		}
+		mentionCount = written.SuccessCount
 	}
 
 	return &ToolUpsertEntitiesResponse{
 		EntityNodeIDs:    entityIDs,
-		MentionEdgeCount: len(edges),
+		MentionEdgeCount: mentionCount,
 	}, nil
 }
 
@@ -728,26 +719,34 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 
 	edges := make([]*graph.GraphEdge, 0, len(req.Relations))
 	edgeIDs := make([]string, 0, len(req.Relations))
+	known, err := t.knownRelationEnds(ctx, req.Relations)
+	if err != nil {
+		return nil, err
+	}
 	for i, rel := range req.Relations {
 		fromID := resolveEntityNodeID("", rel.From)
 		toID := resolveEntityNodeID("", rel.To)
-		if fromID == "" || toID == "" {
+		if !known[fromID] || !known[toID] {
 			continue
 		}
 		edgeType := firstNonEmpty(rel.Type, "related_to")
 		edgeID := fmt.Sprintf("edge:relation:%s:%s:%s:%d", fromID, toID, edgeType, i)
+		if req.DocumentID != "" {
+			// documents that state the same relation each keep their own edge
+			edgeID = fmt.Sprintf("%s:%s", edgeID, req.DocumentID)
+		}
 		edgeIDs = append(edgeIDs, edgeID)
 
 		properties := map[string]interface{}{}
+		for k, v := range rel.Metadata {
+			properties[k] = v
+		}
 		if req.DocumentID != "" {
 			properties["document_id"] = req.DocumentID
 		}
 		if len(rel.ChunkIDs) > 0 {
 			properties["chunk_ids"] = rel.ChunkIDs
 		}
-		for k, v := range rel.Metadata {
-			properties[k] = v
-		}
 
 		weight := rel.Weight
 		if weight == 0 {
@@ -772,6 +771,27 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 	return &ToolUpsertRelationsResponse{EdgeIDs: edgeIDs}, nil
 }
 
+// knownRelationEnds tells which of the entities named by relations exist.
+func (t *GraphRAGToolbox) knownRelationEnds(ctx context.Context, relations []ToolRelationInput) (map[string]bool, error) {
+	known := make(map[string]bool)
+	ids := make([]string, 0, len(relations)*2)
+	for _, rel := range relations {
+		for _, name := range []string{rel.From, rel.To} {
+			if id := resolveEntityNodeID("", name); id != "" {
+				ids = append(ids, id)
+			}
+		}
+	}
+	nodes, err := t.db.graph.GetNodesBatch(ctx, uniqueSortedStrings(ids))
+	if err != nil {
+		return nil, fmt.Errorf("get related entities: %w", err)
+	}
+	for _, node := range nodes {
+		known[node.ID] = true
+	}
+	return known, nil
+}
+
 // SearchText runs lexical retrieval over chunk content.
 func (t *GraphRAGToolbox) SearchText(ctx context.Context, req ToolSearchTextRequest) (*ToolSearchTextResponse, error) {
 	results, err := t.searchTextCandidates(ctx, req)
@@ -786,6 +806,9 @@ func (t *GraphRAGToolbox) SearchText(ctx context.Context, req ToolSearchTextRequ
 }
 
 func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSearchTextRequest) ([]core.ScoredEmbedding, error) {
+	if req.TopK <= 0 {
+		req.TopK = 10
+	}
 	searchOpts := TextSearchOptions{
 		Collection: req.Collection,
 		TopK:       req.TopK,
@@ -851,6 +874,11 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 
 // SearchChunksByEntities finds chunks that are linked to the requested entities.
 func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest) (*ToolSearchChunksByEntitiesResponse, error) {
+	return t.searchChunksByEntities(ctx, req, "")
+}
+
+// searchChunksByEntities does so within one collection if one is given.
+func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest, collection string) (*ToolSearchChunksByEntitiesResponse, error) {
 	if len(req.EntityNames) == 0 {
 		return &ToolSearchChunksByEntitiesResponse{}, nil
 	}
@@ -861,6 +889,10 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 		req.MaxHops = 1
 	}
 
+	limit := req.TopK * 8
+	if collection != "" {
+		limit = 0 // chunks of other collections must not use it up
+	}
 	scoreMap := make(map[string]float64)
 	for _, entityName := range req.EntityNames {
 		entityID := resolveEntityNodeID("", entityName)
@@ -868,12 +900,15 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 			MaxDepth:  req.MaxHops,
 			Direction: "both",
 			NodeTypes: []string{"chunk"},
-			Limit:     req.TopK * 8,
+			Limit:     limit,
 		})
 		if err != nil {
 			continue
 		}
 		for _, node := range neighbors {
+			if collection != "" && !t.db.chunkInCollection(ctx, node.ID, collection) {
+				continue
+			}
 			scoreMap[node.ID] += 1.0
 		}
 	}
@@ -1054,11 +1089,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 	}
 
 	if useGraph && len(entityNames) > 0 {
-		entityResp, err := t.SearchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
+		entityResp, err := t.searchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
 			EntityNames: entityNames,
 			TopK:        opts.TopK,
 			MaxHops:     opts.MaxHops,
-		})
+		}, opts.Collection)
 		if err != nil {
 			return nil, err
 		}
@@ -1105,6 +1140,9 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			case "entity":
 				entitySet[node.Content] = struct{}{}
 			case "chunk":
+				if !t.db.chunkInCollection(ctx, node.ID, opts.Collection) {
+					continue
+				}
 				chunk := ToolChunk{
 					ID:      node.ID,
 					Content: node.Content,
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 55c2de9..a7b0d84 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -30,17 +30,14 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
 	}
-	if existing != nil {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
-	}
 
 	metadata := cloneStringMap(req.Metadata)
 	ingest, err := db.ingestKnowledgeContent(ctx, req.KnowledgeID, req.Title, req.Content, req.Collection, req.ChunkSize, req.ChunkOverlap, metadata, req.Entities, req.Relations)
 	if err != nil {
 		return nil, err
 	}
+	// The new version is in place: finish it even if the caller gives up.
+	ctx = context.WithoutCancel(ctx)
 
 	version := 1
 	if existing != nil {
@@ -126,14 +123,16 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 	replaceArtifacts := req.Content != nil || req.Title != nil || req.Collection != nil || req.Metadata != nil
 	ingest := &knowledgeIngestResult{}
 	if replaceArtifacts {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
 		ingest, err = db.ingestKnowledgeContent(ctx, req.KnowledgeID, title, content, collection, chunkSize, chunkOverlap, metadata, req.Entities, req.Relations)
 		if err != nil {
 			return nil, err
 		}
 	} else if len(req.Entities) > 0 || len(req.Relations) > 0 {
+		if err := ctx.Err(); err != nil {
+			return nil, err
+		}
+		// From here on the update is completed even if the caller gives up.
+		ctx = context.WithoutCancel(ctx)
 		toolbox := db.GraphRAGTools()
 		if len(req.Entities) > 0 {
 			entityResp, err := toolbox.UpsertEntities(ctx, ToolUpsertEntitiesRequest{
@@ -161,6 +160,7 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 		}
 	}
 
+	ctx = context.WithoutCancel(ctx)
 	if err := db.upsertKnowledgeDocumentRecord(ctx, &core.Document{
 		ID:        req.KnowledgeID,
 		Title:     title,
@@ -347,6 +347,7 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 		result.collection = ingestOpts.Collection
 	}
 
+	ctx = context.WithoutCancel(ctx)
 	if len(entities) > 0 {
 		entityResp, err := toolbox.UpsertEntities(ctx, ToolUpsertEntitiesRequest{
 			DocumentID: knowledgeID,
@@ -385,13 +386,9 @@ func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string)
 		return fmt.Errorf("get knowledge chunks: %w", err)
 	}
 
-	nodeIDs := make([]string, 0, len(chunks)+1)
-	nodeIDs = append(nodeIDs, graphDocumentNodeID(knowledgeID))
-	for _, chunk := range chunks {
-		nodeIDs = append(nodeIDs, chunk.ID)
-	}
-	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
-		return fmt.Errorf("delete graph nodes: %w", err)
+	ctx = context.WithoutCancel(ctx)
+	if err := db.deleteGraphDocumentArtifacts(ctx, knowledgeID, chunks); err != nil {
+		return err
 	}
 	if err := db.store.DeleteDocument(ctx, knowledgeID); err != nil {
 		return fmt.Errorf("delete knowledge document: %w", err)
-- 
2.43.0


From 6d9bc90aeae62a0ad8c8eea8d978e27fc1e7adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:23 +0000
Subject: [PATCH 43/58] fix: snippets are not cut inside a character

---
 pkg/cortexdb/knowledge_memory_helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cortexdb/knowledge_memory_helpers.go b/pkg/cortexdb/knowledge_memory_helpers.go
index 2c551af..8d1e29c 100644
--- a/pkg/cortexdb/knowledge_memory_helpers.go
+++ b/pkg/cortexdb/knowledge_memory_helpers.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 func compactSnippet(content string) string {
@@ -11,7 +12,11 @@ func compactSnippet(content string) string {
 	if len(content) <= 180 {
 		return content
 	}
-	return content[:177] + "..."
+	end := 177
+	for !utf8.RuneStart(content[end]) {
+		end--
+	}
+	return content[:end] + "..."
 }
 
 func cloneStringMap(values map[string]string) map[string]string {
-- 
2.43.0


From 6ab22f021edd798e476df503661194301fe6d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:15 +0000
Subject: [PATCH 44/58] fix: graph tools work on a database whose graph is
 still empty

---
 pkg/cortexdb/graphrag_tools.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 1d48fed..944b397 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -929,6 +929,9 @@ func (t *GraphRAGToolbox) ExpandGraph(ctx context.Context, req ToolExpandGraphRe
 	if len(req.NodeIDs) == 0 {
 		return &ToolExpandGraphResponse{}, nil
 	}
+	if err := t.db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
 	if req.MaxHops <= 0 {
 		req.MaxHops = 1
 	}
@@ -964,6 +967,9 @@ func (t *GraphRAGToolbox) ExpandGraph(ctx context.Context, req ToolExpandGraphRe
 
 // GetNodes fetches graph nodes by ID.
 func (t *GraphRAGToolbox) GetNodes(ctx context.Context, req ToolGetNodesRequest) (*ToolGetNodesResponse, error) {
+	if err := t.db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
 	nodes, err := t.db.graph.GetNodesBatch(ctx, req.NodeIDs)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3f27cafee96aaa1e654e140b378c8fc1cb8146c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:48 +0000
Subject: [PATCH 45/58] fix: memory banks keep their settings and survive
 reopening and entity names

---
 pkg/hindsight/hindsight.go | 69 +++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 34de8f0..cf067b5 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -148,6 +148,10 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 
 	// Extract entities from content for graph storage (optional, failures ignored)
 	for _, entity := range mem.Entities {
+		// Leave an existing node of that name alone: it may be a bank or belong to the caller
+		if _, err := s.graph.GetNode(ctx, entity); err == nil {
+			continue
+		}
 		// Add entity node to graph (using a simple hash-based vector)
 		node := &graph.GraphNode{
 			ID:       entity,
@@ -750,6 +754,9 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		return fmt.Errorf("bank %s already exists", bank.ID)
 	}
 
+	if bank.Disposition == nil {
+		bank.Disposition = DefaultDisposition()
+	}
 	bank.CreatedAt = time.Now().Unix()
 
 	// Persist bank to graph_nodes for cross-session persistence
@@ -780,8 +787,7 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		NodeType:   "bank",
 		Properties: properties,
 	}); err != nil {
-		// Log but don't fail - bank is still in memory
-		fmt.Printf("[Warning] Failed to persist bank to graph: %v\n", err)
+		return fmt.Errorf("persist bank: %w", err)
 	}
 
 	s.banks[bank.ID] = bank
@@ -800,20 +806,14 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 	}
 
 	// Try to load from database graph
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	ctx := context.Background()
 	node, err := s.graph.GetNode(ctx, bankID)
 	if err == nil && node.NodeType == "bank" {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
-
-		s.mu.Lock()
+		bank := s.nodeToBank(node)
 		s.banks[bankID] = bank
-		s.mu.Unlock()
-
 		return bank, true
 	}
 
@@ -841,12 +841,15 @@ func (s *System) DeleteBank(bankID string) error {
 		return fmt.Errorf("bank %s not found", bankID)
 	}
 
-	delete(s.banks, bankID)
-
 	// Also delete from graph database for persistence
 	ctx := context.Background()
-	_ = s.graph.DeleteNode(ctx, bankID)
+	if node, err := s.graph.GetNode(ctx, bankID); err == nil && node.NodeType == "bank" {
+		if err := s.graph.DeleteNode(ctx, bankID); err != nil {
+			return fmt.Errorf("delete bank: %w", err)
+		}
+	}
 
+	delete(s.banks, bankID)
 	return nil
 }
 
@@ -1225,14 +1228,9 @@ func (s *System) loadPersistedBanks(ctx context.Context) error {
 	}
 
 	for _, node := range nodes {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
+		if bank := s.nodeToBank(node); bank != nil {
+			s.banks[bank.ID] = bank
 		}
-
-		s.banks[bank.ID] = bank
 	}
 
 	return nil
@@ -1244,10 +1242,33 @@ func (s *System) nodeToBank(node *graph.GraphNode) *Bank {
 		return nil
 	}
 
+	text := func(key string) string {
+		value, _ := node.Properties[key].(string)
+		return value
+	}
+	number := func(key string, fallback int64) int64 {
+		switch value := node.Properties[key].(type) {
+		case float64:
+			return int64(value)
+		case int:
+			return int64(value)
+		case int64:
+			return value
+		}
+		return fallback
+	}
+
+	disposition := DefaultDisposition()
+	disposition.Skepticism = int(number("skepticism", int64(disposition.Skepticism)))
+	disposition.Literalism = int(number("literalism", int64(disposition.Literalism)))
+	disposition.Empathy = int(number("empathy", int64(disposition.Empathy)))
+
 	return &Bank{
 		ID:          node.ID,
 		Name:        node.Content,
-		Description: node.Content,
-		CreatedAt:   node.CreatedAt.Unix(),
+		Disposition: disposition,
+		Description: text("description"),
+		Background:  text("background"),
+		CreatedAt:   number("created_at", node.CreatedAt.Unix()),
 	}
 }
-- 
2.43.0


From 5ddf600075bc08ac944230ed1bc2f4b2bf39743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 46/58] fix: reflection honours the requested observation types
 and does not cut characters

---
 pkg/hindsight/hindsight.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index cf067b5..8173ca9 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -672,7 +673,11 @@ func (s *System) Reflect(ctx context.Context, req *ContextRequest) (*ContextResp
 	tokenCount := len(context) / 4
 	if req.TokenBudget > 0 && tokenCount > req.TokenBudget {
 		// Truncate context to fit budget
-		context = context[:req.TokenBudget*4]
+		cut := req.TokenBudget * 4
+		for cut > 0 && !utf8.RuneStart(context[cut]) {
+			cut--
+		}
+		context = context[:cut]
 		tokenCount = req.TokenBudget
 	}
 
@@ -916,6 +921,16 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 		return observations
 	}
 
+	// No types requested means all of them
+	wanted := func(t ObservationType) bool {
+		for _, requested := range req.ObservationTypes {
+			if requested == t {
+				return true
+			}
+		}
+		return len(req.ObservationTypes) == 0
+	}
+
 	// Group memories by entities to find patterns
 	byEntity := make(map[string][]*Memory)
 	for _, m := range memories {
@@ -928,7 +943,7 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 	for entity, entityMemories := range byEntity {
 		if len(entityMemories) >= 2 {
 			// Check for pattern: repeated interactions or behaviors
-			if s.isPreferencePattern(entityMemories) {
+			if wanted(PreferenceObservation) && s.isPreferencePattern(entityMemories) {
 				obs := &Observation{
 					ID:              uuid.New().String(),
 					BankID:          req.BankID,
@@ -943,7 +958,7 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 			}
 
 			// Check for causal patterns
-			if s.isCausalPattern(entityMemories) {
+			if wanted(CausalObservation) && s.isCausalPattern(entityMemories) {
 				obs := &Observation{
 					ID:              uuid.New().String(),
 					BankID:          req.BankID,
@@ -960,7 +975,7 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 	}
 
 	// Detect generalization patterns across all memories
-	if len(memories) >= 3 {
+	if wanted(GeneralizationObservation) && len(memories) >= 3 {
 		generalization := s.generalizeFromMemories(memories, bank, req)
 		if generalization != nil {
 			observations = append(observations, generalization)
-- 
2.43.0


From 76a284fac05aab8a4991d98abb36da6713088412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:01 +0000
Subject: [PATCH 47/58] fix: recall filters before it cuts, and memories keep
 their bank, id and metadata

---
 pkg/hindsight/hindsight.go | 276 ++++++++++++++++++++++++-------------
 1 file changed, 179 insertions(+), 97 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 8173ca9..5c4024c 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -7,7 +7,10 @@ package hindsight
 
 import (
 	"context"
+	"encoding/json"
+	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -26,8 +29,12 @@ type System struct {
 	store      core.Store
 	graph      *graph.GraphStore
 	collection *core.Collection
+	// collectionName is where memories are kept (Config.Collection)
+	collectionName string
 	mu         sync.RWMutex
 	banks      map[string]*Bank
+	// retainMu keeps choosing a storage ID and writing under it one step
+	retainMu sync.Mutex
 	// optional hooks (registered via SetFactExtractor / SetReranker)
 	factExtractor FactExtractorFn
 	reranker      RerankerFn
@@ -105,6 +112,7 @@ func New(cfg *Config) (*System, error) {
 	}
 
 	// Store collection reference and load persisted banks
+	sys.collectionName = cfg.Collection
 	collection, _ := sys.store.GetCollection(ctx, cfg.Collection)
 	sys.collection = collection
 	_ = sys.loadPersistedBanks(ctx)
@@ -165,16 +173,26 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 	}
 
 	// Store the memory vector and content
+	s.retainMu.Lock()
+	defer s.retainMu.Unlock()
+
+	id, err := s.storageID(ctx, mem)
+	if err != nil {
+		return fmt.Errorf("store memory: %w", err)
+	}
+	if id != mem.ID {
+		metadata[metaMemoryID] = mem.ID
+	}
+
 	embedding := &core.Embedding{
-		ID:         mem.ID,
+		ID:         id,
 		Collection: s.getCollection(),
 		Vector:     mem.Vector,
 		Content:    mem.Content,
 		Metadata:   metadata,
 	}
 
-	err := s.store.Upsert(ctx, embedding)
-	if err != nil {
+	if err := s.store.Upsert(ctx, embedding); err != nil {
 		return fmt.Errorf("store memory: %w", err)
 	}
 
@@ -183,7 +201,58 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 
 // getCollection returns the collection name for memories.
 func (s *System) getCollection() string {
-	return "memories"
+	return s.collectionName
+}
+
+// storageID returns the ID the memory is stored under. Memory IDs are scoped to their bank while
+// embedding IDs are shared by the whole database: a memory whose ID is already taken by anything
+// other than itself is stored under an ID that includes the bank.
+func (s *System) storageID(ctx context.Context, mem *Memory) (string, error) {
+	getter, ok := s.store.(interface {
+		GetByID(ctx context.Context, id string) (*core.Embedding, error)
+	})
+	if !ok {
+		return mem.ID, nil
+	}
+
+	scoped := mem.BankID + "\x1f" + mem.ID
+	if _, err := getter.GetByID(ctx, scoped); err == nil {
+		return scoped, nil
+	} else if !errors.Is(err, core.ErrNotFound) {
+		return "", err
+	}
+
+	existing, err := getter.GetByID(ctx, mem.ID)
+	if errors.Is(err, core.ErrNotFound) {
+		return mem.ID, nil
+	}
+	if err != nil {
+		return "", err
+	}
+	if existing.Collection == s.getCollection() && existing.Metadata[metaBankID] == mem.BankID {
+		return mem.ID, nil
+	}
+	return scoped, nil
+}
+
+// Metadata keys the system itself stores; metadata supplied by the caller never replaces them
+const (
+	metaBankID      = "bank_id"
+	metaMemoryType  = "memory_type"
+	metaCreatedAt   = "created_at"
+	metaCreatedNsec = "created_at_nsec"
+	metaConfidence  = "confidence"
+	metaEntities    = "entities"
+	metaMemoryID    = "memory_id"
+)
+
+// isReservedMetadata reports whether key is one the system stores itself
+func isReservedMetadata(key string) bool {
+	switch key {
+	case metaBankID, metaMemoryType, metaCreatedAt, metaCreatedNsec, metaConfidence, metaEntities, metaMemoryID:
+		return true
+	}
+	return false
 }
 
 // buildMetadata converts a Memory to cortexdb metadata map.
@@ -191,28 +260,52 @@ func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata := make(map[string]string)
 
 	// Core metadata
-	metadata["bank_id"] = mem.BankID
-	metadata["memory_type"] = string(mem.Type)
-	metadata["created_at"] = fmt.Sprintf("%d", mem.CreatedAt.Unix())
+	metadata[metaBankID] = mem.BankID
+	metadata[metaMemoryType] = string(mem.Type)
+	metadata[metaCreatedAt] = strconv.FormatInt(mem.CreatedAt.Unix(), 10)
+	metadata[metaCreatedNsec] = strconv.Itoa(mem.CreatedAt.Nanosecond())
 
 	// Type-specific metadata
 	if mem.Type == OpinionMemory || mem.Type == ObservationMemory {
-		metadata["confidence"] = fmt.Sprintf("%.4f", mem.Confidence)
+		metadata[metaConfidence] = fmt.Sprintf("%.4f", mem.Confidence)
 	}
 
-	// Store entities as comma-separated string for filtering
+	// Store entities for filtering
 	if len(mem.Entities) > 0 {
-		metadata["entities"] = strings.Join(mem.Entities, ",")
+		metadata[metaEntities] = encodeList(mem.Entities)
 	}
 
 	// Copy additional metadata (convert to string)
 	for k, v := range mem.Metadata {
-		metadata[k] = fmt.Sprintf("%v", v)
+		if !isReservedMetadata(k) {
+			metadata[k] = fmt.Sprintf("%v", v)
+		}
 	}
 
 	return metadata
 }
 
+// encodeList stores a list of strings in one metadata value
+func encodeList(items []string) string {
+	data, err := json.Marshal(items)
+	if err != nil {
+		return strings.Join(items, ",")
+	}
+	return string(data)
+}
+
+// decodeList is the inverse of encodeList; it also reads the comma-separated lists of older databases
+func decodeList(value string) []string {
+	if value == "" {
+		return nil
+	}
+	var items []string
+	if err := json.Unmarshal([]byte(value), &items); err == nil {
+		return items
+	}
+	return strings.Split(value, ",")
+}
+
 // Recall retrieves memories using the specified TEMPR strategies.
 func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	if req.Strategy == nil {
@@ -384,25 +477,8 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 		RRFK: 60, // RRF constant
 	}
 
-	var results []core.ScoredEmbedding
-	var err error
-
-	if req.QueryVector != nil {
-		results, err = s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
-	} else {
-		// No vector provided - just do semantic search with text similarity
-		searchOpts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-			QueryText:  req.Query,
-			TextWeight: 1.0, // Text-only
-		}
-		// Need at least a minimal vector for search
-		dummyVec := make([]float32, 1)
-		results, err = s.store.Search(ctx, dummyVec, searchOpts)
-	}
-
+	// Without a query vector this is a keyword search alone
+	results, err := s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
 	if err != nil {
 		return nil
 	}
@@ -436,18 +512,12 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 		topK = 10
 	}
 
-	// For temporal search, we first get all bank memories then filter
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       topK * 5, // Get more to filter
-		Filter:     map[string]string{"bank_id": req.BankID},
-	}
-
 	if req.QueryVector == nil {
 		return nil // Need vector for search
 	}
 
-	results, err := s.store.Search(ctx, req.QueryVector, opts)
+	// For temporal search, we first get all bank memories then filter
+	results, err := s.searchAll(ctx, req.QueryVector, map[string]string{metaBankID: req.BankID})
 	if err != nil {
 		return nil
 	}
@@ -475,6 +545,9 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 				Score:    r.Score,
 				Strategy: "temporal",
 			})
+			if len(out) == topK {
+				break
+			}
 		}
 	}
 
@@ -495,53 +568,60 @@ func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*Recall
 		topK = 10
 	}
 
-	// Find memories that contain the specified entities
-	// We use metadata filtering for this
-	var allResults []*RecallResult
-	seen := make(map[string]bool)
-
-	for _, entity := range req.Strategy.Entity {
-		opts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-		}
+	if req.QueryVector == nil {
+		return nil // No vector - can't search effectively
+	}
 
-		var results []core.ScoredEmbedding
-		var err error
+	// Find memories that contain any of the specified entities, in order of similarity
+	results, err := s.searchAll(ctx, req.QueryVector, map[string]string{metaBankID: req.BankID})
+	if err != nil {
+		return nil
+	}
 
-		if req.QueryVector != nil {
-			results, err = s.store.Search(ctx, req.QueryVector, opts)
-		} else {
-			// No vector - can't search effectively
-			continue
-		}
+	wanted := make(map[string]bool, len(req.Strategy.Entity))
+	for _, entity := range req.Strategy.Entity {
+		wanted[entity] = true
+	}
 
-		if err != nil {
+	var out []*RecallResult
+	for _, r := range results {
+		mem := s.scoredEmbeddingToMemory(&r)
+		if mem == nil {
 			continue
 		}
-
-		for _, r := range results {
-			if !seen[r.ID] {
-				// Check if this memory contains the entity
-				if entities, ok := r.Metadata["entities"]; ok {
-					if strings.Contains(entities, entity) {
-						seen[r.ID] = true
-						mem := s.scoredEmbeddingToMemory(&r)
-						if mem != nil {
-							allResults = append(allResults, &RecallResult{
-								Memory:   mem,
-								Score:    r.Score,
-								Strategy: "entity",
-							})
-						}
-					}
-				}
+		for _, entity := range mem.Entities {
+			if wanted[entity] {
+				out = append(out, &RecallResult{
+					Memory:   mem,
+					Score:    r.Score,
+					Strategy: "entity",
+				})
+				break
 			}
 		}
+		if len(out) == topK {
+			break
+		}
 	}
 
-	return allResults
+	return out
+}
+
+// searchAll ranks everything that matches the metadata filter by similarity
+func (s *System) searchAll(ctx context.Context, queryVector []float32, filter map[string]string) ([]core.ScoredEmbedding, error) {
+	stats, err := s.store.GetCollectionStats(ctx, s.getCollection())
+	if err != nil {
+		return nil, err
+	}
+	if stats.Count == 0 {
+		return nil, nil
+	}
+
+	return s.store.Search(ctx, queryVector, core.SearchOptions{
+		Collection: s.getCollection(),
+		TopK:       int(stats.Count),
+		Filter:     filter,
+	})
 }
 
 // rrfFuse combines results from multiple strategies using Reciprocal Rank Fusion.
@@ -621,24 +701,32 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 	}
 
 	// Extract metadata
-	if bankID, ok := r.Metadata["bank_id"]; ok {
+	if id, ok := r.Metadata[metaMemoryID]; ok {
+		mem.ID = id
+	}
+	if bankID, ok := r.Metadata[metaBankID]; ok {
 		mem.BankID = bankID
 	}
-	if memType, ok := r.Metadata["memory_type"]; ok {
+	if memType, ok := r.Metadata[metaMemoryType]; ok {
 		mem.Type = MemoryType(memType)
 	}
-	if createdStr, ok := r.Metadata["created_at"]; ok {
-		var created int64
-		fmt.Sscanf(createdStr, "%d", &created)
-		mem.CreatedAt = time.Unix(created, 0)
+	if createdStr, ok := r.Metadata[metaCreatedAt]; ok {
+		created, _ := strconv.ParseInt(createdStr, 10, 64)
+		nsec, _ := strconv.ParseInt(r.Metadata[metaCreatedNsec], 10, 64)
+		mem.CreatedAt = time.Unix(created, nsec)
 	}
-	if confStr, ok := r.Metadata["confidence"]; ok {
+	if confStr, ok := r.Metadata[metaConfidence]; ok {
 		var conf float64
 		fmt.Sscanf(confStr, "%f", &conf)
 		mem.Confidence = conf
 	}
-	if entities, ok := r.Metadata["entities"]; ok && entities != "" {
-		mem.Entities = strings.Split(entities, ",")
+	if entities, ok := r.Metadata[metaEntities]; ok {
+		mem.Entities = decodeList(entities)
+	}
+	for k, v := range r.Metadata {
+		if !isReservedMetadata(k) {
+			mem.Metadata[k] = v
+		}
 	}
 
 	return mem
@@ -1106,7 +1194,7 @@ func (s *System) RetainObservation(ctx context.Context, obs *Observation) error
 
 	// Store source memory IDs in metadata
 	metadata := make(map[string]any)
-	metadata["source_memory_ids"] = strings.Join(obs.SourceMemoryIDs, ",")
+	metadata["source_memory_ids"] = encodeList(obs.SourceMemoryIDs)
 	metadata["observation_type"] = string(obs.ObservationType)
 	metadata["reasoning"] = obs.Reasoning
 
@@ -1184,18 +1272,12 @@ func (s *System) AddObservation(ctx context.Context, obs *Observation) error {
 
 // GetObservations retrieves observations for a bank.
 func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observation, error) {
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       100,
-		Filter: map[string]string{
-			"bank_id":     bankID,
-			"memory_type": string(ObservationMemory),
-		},
-	}
-
 	// Use a dummy vector for search
 	dummyVec := make([]float32, 1)
-	results, err := s.store.Search(ctx, dummyVec, opts)
+	results, err := s.searchAll(ctx, dummyVec, map[string]string{
+		metaBankID:     bankID,
+		metaMemoryType: string(ObservationMemory),
+	})
 	if err != nil {
 		return nil, fmt.Errorf("search observations: %w", err)
 	}
@@ -1215,7 +1297,7 @@ func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observa
 
 			// Extract metadata
 			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok {
-				obs.SourceMemoryIDs = strings.Split(sourceIDs, ",")
+				obs.SourceMemoryIDs = decodeList(sourceIDs)
 			}
 			if obsType, ok := mem.Metadata["observation_type"].(string); ok {
 				obs.ObservationType = ObservationType(obsType)
-- 
2.43.0


From d6704c7bd071b23a4909bd44d8407ceaf91d0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:08 +0000
Subject: [PATCH 48/58] fix: auto-retain passes messages oldest first,
 extracted facts default to world

---
 pkg/hindsight/chat.go  | 11 +----------
 pkg/hindsight/hooks.go |  6 +++++-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/hindsight/chat.go b/pkg/hindsight/chat.go
index 31224dd..bc82d85 100644
--- a/pkg/hindsight/chat.go
+++ b/pkg/hindsight/chat.go
@@ -84,7 +84,7 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		defer s.wg.Done()
 		bgCtx := context.Background()
 		// Retrieve the sliding window of recent messages.
-		// GetSessionHistory returns messages in descending order (newest first).
+		// GetSessionHistory returns the latest messages in chronological order.
 		recent, err := s.store.GetSessionHistory(bgCtx, sessionID, windowSize)
 		if err != nil {
 			slog.Error("hindsight/auto-retain: fetch session history",
@@ -94,8 +94,6 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		if len(recent) == 0 {
 			return
 		}
-		// Reverse to chronological order before passing to extractor.
-		reverseMessages(recent)
 
 		result, err := s.RetainFromText(bgCtx, bankID, recent)
 		if err != nil {
@@ -130,10 +128,3 @@ func roleMatches(role string, filter []string) bool {
 	}
 	return false
 }
-
-// reverseMessages reverses a slice of messages in-place.
-func reverseMessages(msgs []*core.Message) {
-	for i, j := 0, len(msgs)-1; i < j; i, j = i+1, j-1 {
-		msgs[i], msgs[j] = msgs[j], msgs[i]
-	}
-}
diff --git a/pkg/hindsight/hooks.go b/pkg/hindsight/hooks.go
index 129b9b0..ab8251c 100644
--- a/pkg/hindsight/hooks.go
+++ b/pkg/hindsight/hooks.go
@@ -277,10 +277,14 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 			result.Errors = append(result.Errors, fmt.Errorf("fact[%d] %q: empty Vector, skipped", i, f.ID))
 			continue
 		}
+		memType := f.Type
+		if memType == "" {
+			memType = WorldMemory
+		}
 		if err := s.Retain(ctx, &Memory{
 			ID:         f.ID,
 			BankID:     bankID,
-			Type:       f.Type,
+			Type:       memType,
 			Content:    f.Content,
 			Vector:     f.Vector,
 			Entities:   f.Entities,
-- 
2.43.0


From 9c1d213e659d379f8268179370903f4c65365a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:05 +0000
Subject: [PATCH 49/58] fix: a multi-index applies concurrent writes in one
 order to all its indices

---
 pkg/index/multi_index.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 5a83d67..847768f 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -85,8 +85,8 @@ func (m *MultiIndex) AddIndex(indexType IndexType, index VectorIndex) {
 
 // Insert inserts a vector into all indices
 func (m *MultiIndex) Insert(id string, vector []float32) error {
-	m.mu.RLock()
-	defer m.mu.RUnlock()
+	m.mu.Lock() // the indices must not see two writers in different orders
+	defer m.mu.Unlock()
 	
 	if m.config.Parallel {
 		var wg sync.WaitGroup
@@ -346,8 +346,8 @@ func (m *MultiIndex) searchWithVoting(query []float32, k int) ([]string, []float
 
 // Delete removes a vector from all indices
 func (m *MultiIndex) Delete(id string) error {
-	m.mu.RLock()
-	defer m.mu.RUnlock()
+	m.mu.Lock() // the indices must not see two writers in different orders
+	defer m.mu.Unlock()
 	
 	// An index that fails must not keep the vector in the others
 	var firstErr error
-- 
2.43.0


From 40269807e4fb4f5ece5ae074e13fa1d04a4f3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 50/58] fix: concurrent memory saves, updates, deletes and
 searches are atomic

---
 pkg/cortexdb/cortexdb.go   | 12 ++++---
 pkg/cortexdb/memory_api.go | 65 +++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 1c4d761..cd4283d 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -15,7 +16,8 @@ import (
 type DB struct {
 	store    *core.SQLiteStore
 	graph    *graph.GraphStore
-	embedder Embedder // Optional embedder for text operations
+	embedder Embedder     // Optional embedder for text operations
+	memoryMu sync.RWMutex // memory writes are read-modify-write sequences
 }
 
 // Config represents database configuration
@@ -126,7 +128,7 @@ type DBInfo struct {
 // and other non-sensitive configuration parameters.
 func (db *DB) Info() DBInfo {
 	config := db.store.Config()
-	
+
 	info := DBInfo{
 		Path:           config.Path,
 		Dimensions:     config.VectorDim,
@@ -155,10 +157,10 @@ func (db *DB) Info() DBInfo {
 	// Function pointers can be compared in Go if we assign them to variables
 	// However, we are getting it from the config, so we can't directly check against the var address easily across packages
 	// but we'll try a common-sense approach or just report based on the fact we know what we used in DefaultConfig.
-	
+
 	// Since we can't easily compare functions in Go, we'll keep it simple.
-	info.SimilarityFn = "cosine" 
-	
+	info.SimilarityFn = "cosine"
+
 	if db.embedder != nil {
 		info.Embedder = fmt.Sprintf("%T", db.embedder)
 	}
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index f159884..2cb2690 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -33,9 +33,6 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 	if err != nil {
 		return nil, err
 	}
-	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
-		return nil, err
-	}
 
 	metadata := buildMemoryMetadata(scope, normalizeMemoryNamespace(req.Namespace), req.Metadata, req.Importance, req.TTLSeconds)
 	vectorBytes, err := db.embedMemoryContent(ctx, req.Content)
@@ -47,6 +44,12 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 		return nil, fmt.Errorf("marshal memory metadata: %w", err)
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
+	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
+		return nil, err
+	}
+
 	role := firstNonEmpty(req.Role, defaultMemoryRole)
 	if _, err := db.store.GetDB().ExecContext(ctx, `
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
@@ -74,6 +77,8 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
@@ -150,31 +155,37 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 		req.TopK = 5
 	}
 
-	if db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical {
-		queryVec, err := db.embedder.Embed(ctx, req.Query)
-		if err == nil {
-			// Expired memories are only recognised here, so the cut to TopK has to come after them.
-			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, math.MaxInt)
-			if err == nil && len(messages) > 0 {
-				userID := ""
-				if session, err := db.store.GetSession(ctx, bucketID); err == nil {
-					userID = session.UserID
-				}
-				hits := make([]MemorySearchHit, 0, min(len(messages), req.TopK))
-				for i, message := range messages {
-					if len(hits) == req.TopK {
-						break
-					}
-					record := memoryRecordFromMessage(bucketID, userID, message)
-					if memoryExpired(record) {
-						continue
-					}
-					score := float64(len(messages)-i) / float64(len(messages))
-					hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+	var queryVec []float32
+	semantic := db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical
+	if semantic {
+		queryVec, err = db.embedder.Embed(ctx, req.Query)
+		semantic = err == nil
+	}
+
+	db.memoryMu.RLock()
+	defer db.memoryMu.RUnlock()
+	if semantic {
+		// Expired memories are only recognised here, so the cut to TopK has to come after them.
+		messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, math.MaxInt)
+		if err == nil && len(messages) > 0 {
+			userID := ""
+			if session, err := db.store.GetSession(ctx, bucketID); err == nil {
+				userID = session.UserID
+			}
+			hits := make([]MemorySearchHit, 0, min(len(messages), req.TopK))
+			for i, message := range messages {
+				if len(hits) == req.TopK {
+					break
 				}
-				if len(hits) > 0 {
-					return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
+				record := memoryRecordFromMessage(bucketID, userID, message)
+				if memoryExpired(record) {
+					continue
 				}
+				score := float64(len(messages)-i) / float64(len(messages))
+				hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+			}
+			if len(hits) > 0 {
+				return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
 			}
 		}
 	}
@@ -192,6 +203,8 @@ func (db *DB) DeleteMemory(ctx context.Context, req MemoryDeleteRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d9bd7fbf5e74fda9309a7637d4a74da4f01cb094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:11 +0000
Subject: [PATCH 51/58] fix: concurrent knowledge writers and ingests do not
 mix versions of a document

---
 pkg/cortexdb/cortexdb.go      | 10 ++++++----
 pkg/cortexdb/graphrag.go      |  2 ++
 pkg/cortexdb/knowledge_api.go |  8 ++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index cd4283d..32add24 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -14,10 +14,12 @@ import (
 
 // DB represents a SQLite vector database instance
 type DB struct {
-	store    *core.SQLiteStore
-	graph    *graph.GraphStore
-	embedder Embedder     // Optional embedder for text operations
-	memoryMu sync.RWMutex // memory writes are read-modify-write sequences
+	store       *core.SQLiteStore
+	graph       *graph.GraphStore
+	embedder    Embedder     // Optional embedder for text operations
+	memoryMu    sync.RWMutex // memory writes are read-modify-write sequences
+	knowledgeMu sync.Mutex   // so are knowledge writes
+	documentMu  sync.Mutex   // one document's artifacts are replaced at a time
 }
 
 // Config represents database configuration
diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index c33a405..2a6cafc 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -600,6 +600,8 @@ func (db *DB) upsertGraphRAGDocumentRecord(ctx context.Context, doc *core.Docume
 // version. The chunks come first, in one transaction: if they are refused, nothing has changed. From then
 // on the replacement is completed even if the caller gives up.
 func (db *DB) replaceGraphDocument(ctx context.Context, doc *core.Document, chunks []*core.Embedding, nodes []*graph.GraphNode, edges []*graph.GraphEdge) error {
+	db.documentMu.Lock()
+	defer db.documentMu.Unlock()
 	if err := ctx.Err(); err != nil {
 		return err
 	}
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index a7b0d84..28393be 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -26,6 +26,8 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 		return nil, ErrEmptyText
 	}
 
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
 	existing, err := db.store.GetDocument(ctx, req.KnowledgeID)
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
@@ -74,6 +76,8 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 		return nil, fmt.Errorf("knowledge_id is required")
 	}
 
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
 	existing, err := db.store.GetDocument(ctx, req.KnowledgeID)
 	if err != nil {
 		return nil, fmt.Errorf("get knowledge: %w", err)
@@ -261,6 +265,8 @@ func (db *DB) DeleteKnowledge(ctx context.Context, req KnowledgeDeleteRequest) (
 	if req.KnowledgeID == "" {
 		return nil, fmt.Errorf("knowledge_id is required")
 	}
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
 	if _, err := db.store.GetDocument(ctx, req.KnowledgeID); err != nil {
 		return nil, err
 	}
@@ -381,6 +387,8 @@ func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string)
 		return fmt.Errorf("init graph schema: %w", err)
 	}
 
+	db.documentMu.Lock()
+	defer db.documentMu.Unlock()
 	chunks, err := db.store.GetByDocID(ctx, knowledgeID)
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return fmt.Errorf("get knowledge chunks: %w", err)
-- 
2.43.0


From a210e1678030c1901c339bb699a3794e2995f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:14 +0000
Subject: [PATCH 52/58] fix: community detection settles instead of swapping
 nodes between communities

---
 pkg/graph/graph_algorithms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/graph_algorithms.go b/pkg/graph/graph_algorithms.go
index 4ba8f65..3f8f02b 100644
--- a/pkg/graph/graph_algorithms.go
+++ b/pkg/graph/graph_algorithms.go
@@ -204,13 +204,13 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		for i := 0; i < len(nodes); i++ {
 			currentComm := communities[i]
 			bestComm := currentComm
-			bestGain := 0.0
 
 			// Calculate connection strength to each neighboring community
 			commWeights := make(map[int]float64)
 			for neighbor, weight := range adj[i] {
 				commWeights[communities[neighbor]] += weight
 			}
+			bestGain := commWeights[currentComm] // a move has to be an improvement, or nodes never settle
 
 			// Find best community
 			for comm, weight := range commWeights {
-- 
2.43.0


From 1fea57ca3c092ea1556ee4fd2702aad32d7d3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:18 +0000
Subject: [PATCH 53/58] fix: aggregations accept metadata fields of any name

---
 pkg/core/aggregations.go | 57 ++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index cb5ec57..c3f2501 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -5,7 +5,9 @@ import (
 	"database/sql"
 	"encoding/json"
 	"fmt"
+	"slices"
 	"strconv"
+	"strings"
 )
 
 // AggregationType defines the type of aggregation
@@ -122,11 +124,11 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	// Use JSON extraction for metadata field
 	query := fmt.Sprintf(`
 		SELECT 
-			SUM(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(%s AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -168,11 +170,11 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 
 	query := fmt.Sprintf(`
 		SELECT 
-			AVG(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(%s AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -219,11 +221,11 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as value,
+			%s(CAST(%s AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(NULLIF(metadata, ''), '$.%s') IS NOT NULL`,
-		aggFunc, req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		aggFunc, metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -268,9 +270,8 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	groupByClauses := []string{}
 	for _, field := range req.GroupBy {
 		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(NULLIF(metadata, ''), '$.%s') as %s", field, field))
-		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(NULLIF(metadata, ''), '$.%s')", field))
+			fmt.Sprintf("%s as %s", metadataValue(field), quoteIdentifier(field)))
+		groupByClauses = append(groupByClauses, metadataValue(field))
 	}
 
 	// Add aggregation based on field
@@ -278,13 +279,13 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.Field != "" {
 		switch req.Type {
 		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("SUM(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("AVG(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MIN(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(NULLIF(metadata, ''), '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MAX(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		default:
 			aggClause = "COUNT(*) as agg_value"
 		}
@@ -318,7 +319,7 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if len(req.Having) > 0 {
 		havingClauses := []string{}
 		for field, value := range req.Having {
-			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", field))
+			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", resultColumn(req, field)))
 			args = append(args, value)
 		}
 		query += fmt.Sprintf(" HAVING %s", joinStrings(havingClauses, " AND "))
@@ -326,7 +327,7 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 
 	// Add ORDER BY clause
 	if req.OrderBy != "" {
-		query += fmt.Sprintf(" ORDER BY %s DESC", req.OrderBy)
+		query += fmt.Sprintf(" ORDER BY %s DESC", resultColumn(req, req.OrderBy))
 	} else {
 		query += " ORDER BY count DESC"
 	}
@@ -415,10 +416,28 @@ func validateAggregationRequest(req AggregationRequest) error {
 	return nil
 }
 
+// metadataValue is the SQL expression for a metadata field, whatever characters its name contains
+func metadataValue(field string) string {
+	return "(SELECT value FROM json_each(NULLIF(metadata, '')) WHERE key = '" + strings.ReplaceAll(field, "'", "''") + "')"
+}
+
+// quoteIdentifier quotes a name for use as an SQL identifier
+func quoteIdentifier(name string) string {
+	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+}
+
+// resultColumn is the SQL name of a column of a grouped aggregation
+func resultColumn(req AggregationRequest, name string) string {
+	if slices.Contains(req.GroupBy, name) {
+		return quoteIdentifier(name)
+	}
+	return name
+}
+
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(NULLIF(metadata, ''), '$.%s') = ?", field)
+		query += fmt.Sprintf(" AND %s = ?", metadataValue(field))
 		
 		// Metadata values are stored as strings
 		switch v := value.(type) {
-- 
2.43.0


From 34be85502e5127d9ec544baa6bf5cd7b0722fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:01 +0000
Subject: [PATCH 54/58] fix: numeric metadata filters match large numbers

---
 pkg/core/aggregations.go | 4 +++-
 pkg/core/store_search.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index c3f2501..7069b07 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -443,8 +443,10 @@ func addMetadataFilters(query string, args []interface{}, filters map[string]int
 		switch v := value.(type) {
 		case string:
 			args = append(args, v)
-		case int, float64, bool:
+		case int, bool:
 			args = append(args, fmt.Sprint(v))
+		case float64:
+			args = append(args, strconv.FormatFloat(v, 'f', -1, 64))
 		default:
 			// Try to convert to JSON string
 			if jsonBytes, err := json.Marshal(v); err == nil {
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 4095560..8858860 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -555,7 +556,7 @@ func (s *SQLiteStore) compareMetadataValues(actual, expected interface{}) bool {
 		}
 
 		if expectedFloat, ok := expected.(float64); ok {
-			return actualStr == fmt.Sprintf("%g", expectedFloat)
+			return actualStr == strconv.FormatFloat(expectedFloat, 'f', -1, 64)
 		}
 
 		// Handle boolean comparison by converting expected value to string
-- 
2.43.0


From 5aea9114fb7388ee633d1221e665bb31e617c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:38 +0000
Subject: [PATCH 55/58] fix: a streaming search keeps results for a slow reader

---
 pkg/core/streaming.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index d3e07c8..a6d750c 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -19,7 +19,7 @@ type StreamingResult struct {
 type StreamingOptions struct {
 	SearchOptions
 	BatchSize       int           // Number of vectors to process per batch
-	MaxLatency      time.Duration // Maximum time to wait before sending partial results
+	MaxLatency      time.Duration // Unused: results are sent as soon as they are scored, and wait for a slow reader
 	EarlyTerminate  bool          // Stop when enough good results are found
 	QualityThreshold float64      // Score threshold for early termination
 	ProgressCallback func(processed, total int) // Optional progress reporting
@@ -45,9 +45,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	if opts.BatchSize <= 0 {
 		opts.BatchSize = 100
 	}
-	if opts.MaxLatency <= 0 {
-		opts.MaxLatency = 100 * time.Millisecond
-	}
 	
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
@@ -102,9 +99,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 				case resultChan <- result:
 				case <-ctx.Done():
 					return
-				case <-time.After(opts.MaxLatency):
-					// Skip if channel is full after max latency
-					continue
 				}
 				
 				// Check early termination
-- 
2.43.0


From ce0a76ab216fe5b3c3dcad80197eb25b51af1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:43 +0000
Subject: [PATCH 56/58] fix: a function route is found under its route name,
 not the function's name

---
 pkg/semantic-router/schema.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index cfb16d6..fa31b53 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -131,7 +131,12 @@ func (fr *FunctionRouter) Add(route *RouteWithFunction) error {
 	fr.mu.Lock()
 	defer fr.mu.Unlock()
 
-	fr.routes[route.FunctionSchema.Name] = route
+	// Routing yields route names, which may differ from the function's name
+	name := route.FunctionSchema.Name
+	if route.Route != nil && route.Name != "" {
+		name = route.Name
+	}
+	fr.routes[name] = route
 	return nil
 }
 
-- 
2.43.0


From 932ee50e7f213325b6cdd8c5ca66c4d951a0ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:16 +0000
Subject: [PATCH 57/58] fix: HNSW.Upsert of a new id holds the lock throughout,
 so that two callers cannot collide

---
 pkg/index/hnsw.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 14961d2..322ec4e 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -209,10 +209,15 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
+	if existing, exists := h.Nodes[id]; exists && !existing.Deleted {
+		return fmt.Errorf("node %s already exists", id)
+	}
+	return h.put(id, vector)
+}
+
+// put stores a vector under id, new or not; the caller holds the lock
+func (h *HNSW) put(id string, vector []float32) error {
 	if existing, exists := h.Nodes[id]; exists {
-		if !existing.Deleted {
-			return fmt.Errorf("node %s already exists", id)
-		}
 		h.replaceNode(existing, vector)
 		return nil
 	}
@@ -265,14 +270,9 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 // Upsert adds a vector to the index, replacing the vector of an existing id
 func (h *HNSW) Upsert(id string, vector []float32) error {
 	h.mu.Lock()
-	if existing, exists := h.Nodes[id]; exists {
-		h.replaceNode(existing, vector)
-		h.mu.Unlock()
-		return nil
-	}
-	h.mu.Unlock()
+	defer h.mu.Unlock()
 	
-	return h.Insert(id, vector)
+	return h.put(id, vector)
 }
 
 // replaceNode gives an existing (possibly deleted) node a new vector. The node keeps its
-- 
2.43.0


From 9a2e85969cabeddc9e18d53db5aa0d5f5adf17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 58/58] fix: collection statistics report when the last
 embedding was inserted

---
 pkg/core/collections.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 20504e7..49efae2 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -316,7 +316,8 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	// Get last inserted timestamp if any embeddings exist
 	if stats.Count > 0 {
 		err = s.db.QueryRowContext(ctx, `
-			SELECT MAX(created_at) FROM embeddings WHERE collection_id = ?
+			SELECT created_at FROM embeddings WHERE collection_id = ?
+			ORDER BY created_at DESC LIMIT 1
 		`, collection.ID).Scan(&stats.LastInsertedAt)
 		if err != nil {
 			// Don't fail for this
-- 
2.43.0

