From ad0c1ab48f182a551423e660f8c7d5993fa3b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 01/11] fix: release the repository locks on every UnAlias
 outcome

UnAlias returned false with indicesMu read-locked (unknown index) or with
aliasesMu locked (unknown alias), wedging every later writer.
---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From bcf79f83d054e01f3b151c9ff9c8cb41cc357c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 02/11] fix: remove an alias when UnAlias detaches its last
 index

The alias was left behind with no target, so a later Put under its name
silently discarded the document. Drop already removes such aliases.
---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From b5471351280140361528f589ce0e07c1ebe8e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 03/11] fix: hold the alias lock while Rename rewrites alias
 targets

Rename iterated over and wrote into the alias table holding only the index
lock, racing with UnAlias, HasAlias and ListAliases.
---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..d5e972e 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -150,6 +150,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
+	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
 		for i, indexName := range indices {
 			if indexName == old {
@@ -157,6 +158,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 			}
 		}
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From af5af38fadbfd2e87ed735720e6cdc12a136e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 04/11] fix: keep the index when it is renamed to its own name

Rename(x, x) stored the index and then deleted it, losing every document.
---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index d5e972e..f7386b4 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -147,8 +147,8 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		return false
 	}
 	// 2. Perform the swap
-	h.indices[new] = index
 	delete(h.indices, old)
+	h.indices[new] = index
 	// 3. Update indices to
 	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
-- 
2.43.0


From df2888be9d8317543b71ae00727da0a8f3d1a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 05/11] fix: keep alias targets unique when an index is renamed
 over another

An alias pointing to both names ended up with the new one twice: searches
returned every document twice, and a Put wrote to the same index from two
goroutines at once.
---
 repos_repo.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index f7386b4..d3eda96 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -151,12 +151,21 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	// 3. Update indices to
 	h.aliasesMu.Lock()
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
-			if indexName == old {
-				indices[i] = new
+	for alias, indices := range h.aliases {
+		newIndices := make([]string, 0, len(indices))
+		added := false
+		for _, indexName := range indices {
+			if indexName == old || indexName == new {
+				// an alias may already point to both names
+				if added {
+					continue
+				}
+				indexName = new
+				added = true
 			}
+			newIndices = append(newIndices, indexName)
 		}
+		h.aliases[alias] = newIndices
 	}
 	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
-- 
2.43.0


From 65a2f2322bec9c92cf63f58c9ae614bdb17fee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 06/11] fix: resolve and create the index in one critical
 section in Put

Two concurrent first Puts under one name both found the index missing and
both created it; the second one replaced the first and lost its document.
---
 repos_repo.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index d3eda96..51bb3e6 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -227,15 +227,15 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	defer h.indicesMu.Unlock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
 		in := h.indexBuilder(indexName)
 		h.indices[indexName] = in
 		in.Put(doc)
-		h.indicesMu.Unlock()
 		return
 	}
 	var wg sync.WaitGroup
@@ -247,7 +247,6 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 		}(in)
 	}
 	wg.Wait()
-	h.indicesMu.Unlock()
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
@@ -293,12 +292,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices must be called with indicesMu held
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -306,14 +304,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From f5db697c007227427251068ee9737edc1211d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 07/11] fix: check and drop the index in one critical section
 in Drop

The index was looked up under a read lock that was released before the
write lock was taken, so several concurrent Drops could all report success.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 51bb3e6..cd3c812 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -250,14 +250,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From c479e2e25a6872ee1cf81d9f1e183e333c29c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 08/11] fix: return copies of the alias targets from
 ListAliases

Callers got the slices the repository itself keeps, and could change them or
read them while they were being written.
---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index cd3c812..cce34af 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -283,7 +283,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From 64218216e5dcbc1640bd43fa27c69cfdd9d299fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 09/11] fix: count hits per indexed document in HitsSearch

Hits were counted per hash of the document ID, so two documents put under
one ID (or with colliding hashes) pooled their tokens: a query could return
documents that do not contain all of its tokens, and return the first
document in place of the second one.
---
 search_hits_search.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..1d2f7fc 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using document index as key for uniqueness)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -59,15 +59,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
 			doc := indexer.Document(index)
-			hashKey := doc.Hash()
 
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
+				docHits[index] = SearchResult{
 					Document: doc,
 					Hits:     1,
 				}
@@ -81,11 +80,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From 0c82e34f9e4475f1ce5cba821f360a1fa24e12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 10/11] fix: merge alias search results in a deterministic
 order

Results of the aliased indices were appended in the order their goroutines
happened to finish, so the same search could return different sequences.
---
 repos_repo.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index cce34af..f4fb132 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -212,17 +212,17 @@ func (h *IndexRepo) Search(
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	partials := make([]slices.Slice[SearchResult], len(indices))
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			partials[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range partials {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From 361d1f7111c136651fa4bc5d273d1b6da0f2788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 11/11] fix: compute RV for words without R1

RV does not depend on R1: for words such as "trae", which have no R1, RV is
still the region after the vowel that follows the second letter.
---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0

