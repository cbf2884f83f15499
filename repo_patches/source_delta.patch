From 0b2c3eed9cec7a7a5334e7519907caf9efd40033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 01/51] fix: mark flat, HNSW and IVF indices initialized only
 after existing vectors loaded

---
 src/valori/indices/flat.py | 2 +-
 src/valori/indices/hnsw.py | 2 +-
 src/valori/indices/ivf.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..b650aa6 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -33,7 +33,6 @@ class FlatIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the flat index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
 
         # Load existing vectors if any
         try:
@@ -41,6 +40,7 @@ class FlatIndex(Index):
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
             self._vector_count = len(self.vector_ids)
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..8fe40a1 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -43,7 +43,6 @@ class HNSWIndex(Index):
     def initialize(self, storage_backend) -> None:
         """Initialize the HNSW index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
 
         # Initialize level 0
         self.levels = [{}]
@@ -57,6 +56,7 @@ class HNSWIndex(Index):
                 if result is not None:
                     vector, _ = result
                     self._insert_vector_internal(vector_id, vector)
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize HNSW index: {str(e)}")
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..afa922b 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -40,7 +40,6 @@ class IVFIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the IVF index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
 
         # Load existing vectors if any
         try:
@@ -52,6 +51,7 @@ class IVFIndex(Index):
             # If we have enough vectors, retrain the index
             if len(self.vector_ids) >= self.n_clusters:
                 self._train_index()
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize IVF index: {str(e)}")
 
-- 
2.43.0


From ffcb6478eba7fd615504e5636ba75a72fe8edaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 02/51] fix: LSH delete refuses when the index is not
 initialized

---
 src/valori/indices/lsh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..3e47ebf 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -219,6 +219,9 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
+
         try:
             int_ids = []
             for s in ids:
-- 
2.43.0


From ffb3d8402972213706476512b3e677376d2c0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 03/51] fix: initialize() discards a quantizer's trained mark
 together with its parameters

---
 src/valori/quantization/product.py | 1 +
 src/valori/quantization/saq.py     | 1 +
 src/valori/quantization/scalar.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..220a5fa 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..fb94446 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..8782841 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -37,6 +37,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
-- 
2.43.0


From 281abc7b6860f53c97a1bb8f718d2aa6b73b6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 04/51] fix: a failed train() no longer leaves a quantizer
 trained with half-replaced parameters

---
 src/valori/quantization/product.py | 3 +++
 src/valori/quantization/saq.py     | 7 +++++++
 src/valori/quantization/scalar.py  | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 220a5fa..0e0da1c 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -47,6 +47,9 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Vectors must be 2D array")
 
         try:
+            # A failed (re-)training must not leave a half-replaced codebook in use
+            self._trained = False
+
             n_vectors, dim = vectors.shape
             self.dim = int(dim)
 
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index fb94446..009996c 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -92,6 +92,9 @@ class SAQQuantizer(Quantizer):
 
             start_time = time.time()
 
+            # A failed (re-)training must not leave half-replaced parameters in use
+            self._trained = False
+
             n_vectors, dim = vectors.shape
             self.dim = int(dim)
 
@@ -132,6 +135,7 @@ class SAQQuantizer(Quantizer):
             self.stats["segmentation_time"] = time.time() - start_time
 
         except Exception as e:
+            self._trained = False
             raise QuantizationError(f"SAQ training failed: {str(e)}")
 
     def _segment_and_allocate_bits(self, vectors_pca: np.ndarray) -> None:
@@ -540,6 +544,9 @@ class SAQQuantizer(Quantizer):
         Returns:
             Tuple of (indices, distances) for top_k results
         """
+        if not self._initialized or not self._trained:
+            raise QuantizationError("Quantizer not ready")
+
         if self.full_precision_vectors is None:
             raise QuantizationError(
                 "Full precision vectors not available for rescoring"
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 8782841..3747e87 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -51,7 +51,6 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -66,6 +65,7 @@ class ScalarQuantizer(Quantizer):
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
-- 
2.43.0


From c106195316c50a3ccdb53b138b5abae10374c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 05/51] fix: closing the embedding processor releases its cache

---
 src/valori/processors/embedding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..562b5ef 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -271,6 +271,11 @@ class EmbeddingProcessor(DocumentProcessor):
         test_embedding = self._generate_embedding("test")
         return len(test_embedding)
 
+    def close(self) -> None:
+        """Close the processor and release cached embeddings."""
+        self.clear_cache()
+        super().close()
+
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
         self._cache.clear()
-- 
2.43.0


From ddd5d00d41417b98fff1f9356c4ffac64ecda3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 06/51] fix: memory storage returns a copy of the stored
 metadata

---
 src/valori/storage/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..eee0ad9 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -80,7 +80,7 @@ class MemoryStorage(StorageBackend):
 
             vector = self.vectors[id].copy()
             metadata = self.metadata.get(id)
-            return vector, metadata
+            return vector, None if metadata is None else metadata.copy()
 
     def delete_vector(self, id: str) -> bool:
         """Delete a vector from memory."""
-- 
2.43.0


From 6c8cbfc27b191deac63a0d6c4f2d00d720b65f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 07/51] fix: LSH search returns a copy of the stored metadata

---
 src/valori/indices/lsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 3e47ebf..18e98d1 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -180,7 +180,7 @@ class LSHIndex(Index):
                         {
                             "id": candidate_id,
                             "distance": float(distance),
-                            "metadata": self.metadata[candidate_id],
+                            "metadata": dict(self.metadata[candidate_id]),
                         }
                     )
 
-- 
2.43.0


From 7c16606378f1fd6033e283da58f852602647e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 08/51] fix: disk storage keeps vectors whose IDs differ only
 in special characters apart

---
 src/valori/storage/disk.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..68b7e87 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [unquote(f.stem) for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -218,7 +219,5 @@ class DiskStorage(StorageBackend):
         self._initialized = False
 
     def _sanitize_id(self, id: str) -> str:
-        """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
-        return safe_id
+        """Encode an ID as a file name, one file name per ID."""
+        return quote(id, safe="")
-- 
2.43.0


From b8393f76764ec302fb59bfae5157131f0489df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 09/51] fix: hybrid storage with a memory limit of zero keeps
 nothing in memory

---
 src/valori/storage/hybrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..ad653c7 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -69,7 +69,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Remove oldest vector from memory (simple LRU approximation)
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
@@ -101,7 +101,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Evict and promote
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
-- 
2.43.0


From 3084a1594e6b37c7bac3846adee54be198d62e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 10/51] fix: Annoy search no longer returns removed vectors

---
 src/valori/indices/annoy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..79c72ce 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -264,7 +264,10 @@ class AnnoyIndex(Index):
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if (
+                neighbor_id < len(self.vectors)
+                and self.vectors[neighbor_id] is not None
+            ):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
-- 
2.43.0


From 76931308e86eb3865a77cb4731644b74f4b5138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 11/51] fix: Annoy search returns a copy of the stored metadata

---
 src/valori/indices/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 79c72ce..b0507db 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -275,7 +275,7 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": dict(self.metadata[neighbor_id]),
                     }
                 )
 
-- 
2.43.0


From 33a73556cd1932bc7f4cb963a061a801b4256773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 12/51] fix: Annoy update replaces the vector under its own ID

---
 src/valori/indices/annoy.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index b0507db..0aabd74 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -128,22 +128,21 @@ class AnnoyIndex(Index):
         Returns:
             True if successful
         """
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
+
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors):
+            if int_id >= len(self.vectors) or self.vectors[int_id] is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
-
-            # Remove old vector
-            self.remove([int_id])
+            validate_vector(vector, self.dimension, self.dimension)
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # Replace the item under its own ID, then the stored copies
+            self._annoy_index.add_item(int_id, vector.astype(np.float32))
+            self.vectors[int_id] = vector.copy()
+            if metadata is not None:
+                self.metadata[int_id] = metadata.copy()
 
             return True
         except Exception as e:
-- 
2.43.0


From d036da29f1ea982006d5a63eb3d9629576664da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 13/51] fix: a cleared Annoy index accepts vectors again

---
 src/valori/indices/annoy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 0aabd74..4865db5 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -302,6 +302,7 @@ class AnnoyIndex(Index):
         """Clear all vectors from the index."""
         self.vectors.clear()
         self.metadata.clear()
+        self.dimension = None
         self._next_id = 0
         self._built = False
 
-- 
2.43.0


From fe64bec6ec38f6e8d43a7c62b0310d4bf7475d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 14/51] fix: LSH and Annoy no longer take a negative ID for one
 counted from the end

---
 src/valori/indices/annoy.py | 4 ++--
 src/valori/indices/lsh.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 4865db5..f864127 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -133,7 +133,7 @@ class AnnoyIndex(Index):
 
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors) or self.vectors[int_id] is None:
+            if not 0 <= int_id < len(self.vectors) or self.vectors[int_id] is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
             validate_vector(vector, self.dimension, self.dimension)
@@ -293,7 +293,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 18e98d1..8547390 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -199,7 +199,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -242,7 +242,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
         try:
             vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            if not 0 <= vector_id < len(self.vectors) or self.vectors[vector_id] is None:
                 return False
 
             # Remove old hashes
-- 
2.43.0


From eb677d9a351e2df89f1a2c93636c530e74de958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 15/51] fix: a rejected batch no longer fixes the dimension of
 an LSH or Annoy index

---
 src/valori/indices/annoy.py | 19 ++++++++++++-------
 src/valori/indices/lsh.py   | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index f864127..d2bbcde 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -167,19 +167,24 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._create_annoy_index()
 
         assigned_ids = []
 
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 8547390..5370239 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -81,19 +81,24 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
 
-        if vectors.shape[1] != self.dimension:
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._generate_projections()
 
         assigned_ids = []
 
-- 
2.43.0


From e36f9fc8e73bf4fb2f551be5067dc15158e5b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 16/51] fix: LSH and Annoy add() no longer records a vector
 whose metadata or index entry failed

---
 src/valori/indices/annoy.py | 11 ++++++-----
 src/valori/indices/lsh.py   |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index d2bbcde..3d5f7a3 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -180,6 +180,7 @@ class AnnoyIndex(Index):
         # Validate vectors
         for vector in vectors:
             validate_vector(vector, dimension, dimension)
+        metadata = [item.copy() for item in metadata]
 
         # Set dimension on first add
         if self.dimension is None:
@@ -190,15 +191,15 @@ class AnnoyIndex(Index):
 
         for i, vector in enumerate(vectors):
             vector_id = self._next_id
-            self._next_id += 1
-
-            # Store vector and metadata
-            self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
 
             # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
 
+            # Store vector and metadata
+            self.vectors.append(vector.copy())
+            self.metadata.append(metadata[i])
+            self._next_id += 1
+
             assigned_ids.append(vector_id)
 
         return assigned_ids
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 5370239..e24b4a2 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -94,6 +94,7 @@ class LSHIndex(Index):
         # Validate vectors
         for vector in vectors:
             validate_vector(vector, dimension, dimension)
+        metadata = [item.copy() for item in metadata]
 
         # Set dimension on first add
         if self.dimension is None:
@@ -108,7 +109,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
-- 
2.43.0


From f11ac7b417fd5b9a1d8cf33bd7cd0ce2a443376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 17/51] fix: LSH and Annoy delete report unknown IDs and LSH
 delete no longer hides failures

---
 src/valori/indices/annoy.py |  9 +++++++--
 src/valori/indices/lsh.py   | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 3d5f7a3..683da8e 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -105,12 +105,17 @@ class AnnoyIndex(Index):
             ids: List of vector IDs to delete
 
         Returns:
-            True if successful
+            True if every ID was found
         """
         try:
             int_ids = [int(id) for id in ids]
+            success = all(
+                0 <= vector_id < len(self.vectors)
+                and self.vectors[vector_id] is not None
+                for vector_id in int_ids
+            )
             self.remove(int_ids)
-            return True
+            return success
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index e24b4a2..ebb6323 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -229,16 +229,24 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         try:
+            success = True
             int_ids = []
             for s in ids:
                 try:
-                    int_ids.append(int(s))
+                    vector_id = int(s)
                 except ValueError:
+                    success = False
                     continue
+                if (
+                    not 0 <= vector_id < len(self.vectors)
+                    or self.vectors[vector_id] is None
+                ):
+                    success = False
+                int_ids.append(vector_id)
             self.remove(int_ids)
-            return True
-        except Exception:
-            return False
+            return success
+        except Exception as e:
+            raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict[str, Any]] = None
-- 
2.43.0


From 00514f8f25802929470361dc49c322beaf0ba3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 18/51] fix: LSH update rejects an invalid vector before
 touching the stored one

---
 src/valori/indices/lsh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index ebb6323..c74751e 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -259,6 +259,10 @@ class LSHIndex(Index):
             if not 0 <= vector_id < len(self.vectors) or self.vectors[vector_id] is None:
                 return False
 
+            # Hash the new vector before touching anything
+            validate_vector(vector, self.dimension, self.dimension)
+            new_hashes = self._hash_vector(vector)
+
             # Remove old hashes
             old_vector = self.vectors[vector_id]
             old_hashes = self._hash_vector(old_vector)
@@ -275,7 +279,6 @@ class LSHIndex(Index):
                 self.metadata[vector_id] = metadata.copy()
 
             # Add new hashes
-            new_hashes = self._hash_vector(self.vectors[vector_id])
             for table_idx, hash_code in enumerate(new_hashes):
                 self.hash_tables[table_idx][hash_code].append(vector_id)
 
-- 
2.43.0


From f37a391b1e9276a9f679edd505d6030f05736cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 19/51] fix: the embedding cache no longer shares its arrays
 with callers

---
 src/valori/processors/embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 562b5ef..a9ab98e 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -168,7 +168,7 @@ class EmbeddingProcessor(DocumentProcessor):
         # Cache embedding
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = embedding.copy()
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From b55915f4cc3a9e51c8577a723c97f6e52fad49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 20/51] fix: normalising an all-zero embedding no longer yields
 NaN

---
 src/valori/processors/embedding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index a9ab98e..4787477 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -163,7 +163,9 @@ class EmbeddingProcessor(DocumentProcessor):
 
         # Normalize embedding
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
+            norm = np.linalg.norm(embedding)
+            if norm > 0:
+                embedding = embedding / norm
 
         # Cache embedding
         if self.cache_embeddings:
@@ -244,9 +246,9 @@ class EmbeddingProcessor(DocumentProcessor):
                     batch_texts, convert_to_numpy=True
                 )
                 if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
-                    )
+                    norms = np.linalg.norm(batch_embeddings, axis=1, keepdims=True)
+                    norms[norms == 0] = 1.0
+                    batch_embeddings = batch_embeddings / norms
             else:
                 # Process individually for other model types
                 batch_embeddings = []
-- 
2.43.0


From 73b51a18cafb1621c18ed82ebe3e79be42c587ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 21/51] fix: HNSW search returns each vector once and starts
 from a populated level

---
 src/valori/indices/hnsw.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 8fe40a1..a1dbea3 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -117,6 +117,10 @@ class HNSWIndex(Index):
             current_level = min(self.max_level, len(self.levels) - 1)
             candidates = []
 
+            # Skip levels emptied by deletions
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
+
             # Find entry point at highest level
             if current_level >= 0 and self.levels[current_level]:
                 # Start from a random node at top level (simplified)
@@ -130,7 +134,7 @@ class HNSWIndex(Index):
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
+                new_candidates = dict(candidates)
                 for node_id, _ in candidates:
                     if node_id in self.levels[current_level]:
                         for neighbor_id in self.levels[current_level][node_id]:
@@ -138,16 +142,16 @@ class HNSWIndex(Index):
                                 distance = self._compute_distance(
                                     query_vector, self.vectors[neighbor_id]
                                 )
-                                new_candidates.append((neighbor_id, distance))
+                                new_candidates[neighbor_id] = distance
 
                 # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
+                candidates = sorted(new_candidates.items(), key=lambda x: x[1])
+                candidates = candidates[: self.ef_search]
                 current_level -= 1
 
             # Final search at level 0
             if current_level == 0 and candidates:
-                final_candidates = []
+                final_candidates = dict(candidates)
                 for node_id, _ in candidates:
                     if node_id in self.levels[0]:
                         for neighbor_id in self.levels[0][node_id]:
@@ -155,9 +159,9 @@ class HNSWIndex(Index):
                                 distance = self._compute_distance(
                                     query_vector, self.vectors[neighbor_id]
                                 )
-                                final_candidates.append((neighbor_id, distance))
+                                final_candidates[neighbor_id] = distance
 
-                candidates.extend(final_candidates)
+                candidates = list(final_candidates.items())
 
             # Sort and return top k
             candidates.sort(key=lambda x: x[1])
-- 
2.43.0


From 3a6d9969b31bdd69dd4b035cb78b3271e1c4acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 22/51] fix: reject an unsupported metric when an index is
 created, not after vectors were stored

---
 src/valori/indices/flat.py | 2 ++
 src/valori/indices/hnsw.py | 2 ++
 src/valori/indices/ivf.py  | 2 ++
 src/valori/indices/lsh.py  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index b650aa6..2728be5 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -26,6 +26,8 @@ class FlatIndex(Index):
         """Initialize flat index."""
         super().__init__(config)
         self.metric = config.get("metric", "cosine")  # cosine, euclidean
+        if self.metric not in ("cosine", "euclidean"):
+            raise ValoriIndexError(f"Unsupported metric: {self.metric}")
         self.vector_ids: List[str] = []
         self.vector_cache: Dict[str, np.ndarray] = {}
         self._vector_count = 0
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index a1dbea3..60cdb53 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -31,6 +31,8 @@ class HNSWIndex(Index):
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
+        if self.metric not in ("cosine", "euclidean"):
+            raise ValoriIndexError(f"Unsupported metric: {self.metric}")
 
         # Graph structure (simplified)
         self.levels: List[Dict[str, List]] = (
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index afa922b..e62cbed 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -28,6 +28,8 @@ class IVFIndex(Index):
         self.n_clusters = config.get("n_clusters", 100)
         self.n_probes = config.get("n_probes", 10)  # Number of clusters to search
         self.metric = config.get("metric", "cosine")
+        if self.metric not in ("cosine", "euclidean"):
+            raise ValoriIndexError(f"Unsupported metric: {self.metric}")
 
         # IVF structure
         self.centroids: Optional[np.ndarray] = None  # Cluster centroids
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index c74751e..3d97864 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -37,6 +37,8 @@ class LSHIndex(Index):
         self.threshold = config.get("threshold", 0.5)
 
         # Validate configuration
+        if self.metric not in ("cosine", "euclidean", "manhattan"):
+            raise ValoriIndexError(f"Unsupported metric: {self.metric}")
         if self.num_hash_tables <= 0:
             raise ValoriIndexError("Number of hash tables must be positive")
         if self.hash_size <= 0:
-- 
2.43.0


From 1f36a1f4817c94a1b5f62923a8ba826c2e072c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 23/51] fix: indices refuse vectors whose dimension differs
 from the vectors they hold

---
 src/valori/indices/base.py | 10 ++++++++++
 src/valori/indices/flat.py | 17 +++++++++++++++++
 src/valori/indices/hnsw.py |  6 ++++++
 src/valori/indices/ivf.py  | 17 +++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..00b9c8a 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -7,6 +7,7 @@ from typing import Any, Dict, List, Optional
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
 
 
@@ -28,6 +29,15 @@ class Index(ABC):
         """Check if the index is initialized."""
         return self._initialized
 
+    @staticmethod
+    def _check_dimension(vector: np.ndarray, held: Optional[np.ndarray]) -> None:
+        """Refuse a vector whose dimension differs from a vector already held."""
+        if held is not None and vector.shape[-1] != held.shape[-1]:
+            raise ValoriIndexError(
+                f"Vector dimension mismatch: expected {held.shape[-1]}, "
+                f"got {vector.shape[-1]}"
+            )
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 2728be5..10babfd 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -57,6 +57,7 @@ class FlatIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_dimension(vectors, self._held_vector())
             inserted_ids = []
 
             sb = self.storage_backend
@@ -87,6 +88,17 @@ class FlatIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
+    def _held_vector(self) -> Optional[np.ndarray]:
+        """Return any vector of the index, None when it is empty."""
+        for vector_id in self.vector_ids:
+            if vector_id in self.vector_cache:
+                return self.vector_cache[vector_id]
+            if self.storage_backend is not None:
+                record = self.storage_backend.retrieve_vector(vector_id)
+                if record is not None:
+                    return record[0]
+        return None
+
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors using brute force."""
         if not self._initialized:
@@ -204,6 +216,11 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            current = sb.retrieve_vector(id)
+            if current is None:
+                return False
+            self._check_dimension(vector, current[0])
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 60cdb53..e05a0bc 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -73,6 +73,7 @@ class HNSWIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_dimension(vectors, next(iter(self.vectors.values()), None))
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -227,6 +228,11 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            current = sb.retrieve_vector(id)
+            if current is None:
+                return False
+            self._check_dimension(vector, current[0])
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index e62cbed..9e74f61 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -68,6 +68,7 @@ class IVFIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_dimension(vectors, self._held_vector())
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -105,6 +106,17 @@ class IVFIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
+    def _held_vector(self) -> Optional[np.ndarray]:
+        """Return any vector of the index, None when it is empty."""
+        for vector_id in self.vector_ids:
+            if vector_id in self.vectors_cache:
+                return self.vectors_cache[vector_id]
+            if self.storage_backend is not None:
+                record = self.storage_backend.retrieve_vector(vector_id)
+                if record is not None:
+                    return record[0]
+        return None
+
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors using IVF index."""
         if not self._initialized:
@@ -227,6 +239,11 @@ class IVFIndex(Index):
                 raise ValoriIndexError("Index storage backend not configured")
 
             # Update in storage
+            current = sb.retrieve_vector(id)
+            if current is None:
+                return False
+            self._check_dimension(vector, current[0])
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
-- 
2.43.0


From d68441a68c02aac3e698923e10a497c37328f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 24/51] fix: initialising an LSH index again keeps its vectors
 searchable

---
 src/valori/indices/lsh.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 3d97864..8bbd99e 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -62,6 +62,13 @@ class LSHIndex(Index):
         """Initialize the LSH index."""
         # Initialize hash tables
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+
+        # Keep vectors that are already held searchable
+        for vector_id, vector in enumerate(self.vectors):
+            if vector is not None:
+                for table_idx, hash_code in enumerate(self._hash_vector(vector)):
+                    self.hash_tables[table_idx][hash_code].append(vector_id)
+
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
-- 
2.43.0


From e9da8ffa9ffe32cbed6eeeb87a814c9d530932c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 25/51] fix: LSH bucket statistics report bucket sizes, not
 vector ids

---
 src/valori/indices/lsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 8bbd99e..3dd8526 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -311,7 +311,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
-- 
2.43.0


From b1e778b4223bdf5e9aec747b57ae6296eafb824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 26/51] fix: saved vectors are found again under the path they
 were saved to

---
 src/valori/persistence/incremental.py |  5 +++--
 src/valori/persistence/tensor.py      | 14 ++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..c528c4c 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -113,8 +113,9 @@ class IncrementalPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Save vectors to the exact path (given a name, numpy appends ".npz" to it)
+            with open(file_path, "wb") as f:
+                np.savez(f, vectors=vectors, ids=np.array(ids))
 
             # Log operation
             self._log_operation(
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..2a92a6b 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -86,12 +86,14 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Write to the exact path (given a name, numpy appends ".npz" to it)
+            with open(file_path, "wb") as f:
+                if self.compression:
+                    # Save with compression
+                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
+                else:
+                    # Save without compression
+                    np.savez(f, vectors=vectors, ids=np.array(ids))
 
             self._save_count += 1
             return True
-- 
2.43.0


From b40e067c12dda9e675a051df0a9d5ffaa1007a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 27/51] fix: incremental persistence keeps numbering operations
 and checkpoints upwards after a restart

---
 src/valori/persistence/incremental.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index c528c4c..55ff101 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -48,6 +48,12 @@ class IncrementalPersistence(PersistenceManager):
             # Load checkpoint info
             self._load_checkpoint_info()
 
+            # Continue after every operation already logged, so that operation ids
+            # and checkpoint numbers keep growing across restarts
+            with open(self.log_file, "r") as f:
+                logged = sum(1 for line in f if line.strip())
+            self._operation_count = max(self._operation_count, logged)
+
             self._initialized = True
         except Exception as e:
             raise PersistenceError(
-- 
2.43.0


From b016104ab931720a95152353f0112204cbb601f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 28/51] fix: chunking ends with the chunk that reaches the end
 of the text instead of repeating its tail

---
 src/valori/parsers/office_parser.py | 4 ++++
 src/valori/parsers/pdf_parser.py    | 4 ++++
 src/valori/parsers/text_parser.py   | 4 ++++
 src/valori/processors/chunking.py   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..267931d 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -291,6 +291,10 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text is in this chunk
+            if end >= len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..c57ee60 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -201,6 +201,10 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text is in this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..84e525a 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -157,6 +157,10 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest of the text is in this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..e390975 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -117,6 +117,10 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            # The rest of the text is in this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
-- 
2.43.0


From 017737de209ee2756048cbb82c17f76bee0be919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 29/51] fix: page numbers of PDF chunks account for the
 separators between pages

---
 src/valori/parsers/pdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index c57ee60..83d2936 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -216,5 +216,5 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            current_pos += page_info["text_length"] + 2  # pages are joined by "\n\n"
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From b81813d68b286f62ce39e10394cdbd87dd2a4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 30/51] fix: semantic chunks repeat nothing of the previous
 chunk when the overlap is 0

---
 src/valori/processors/chunking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index e390975..a12e18e 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -162,7 +162,7 @@ class ChunkingProcessor(DocumentProcessor):
                 # Start new chunk with overlap
                 overlap_text = (
                     current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
+                    if 0 < self.chunk_overlap < len(current_chunk)
                     else ""
                 )
                 current_chunk = overlap_text + paragraph
-- 
2.43.0


From fc77fc6a93e62a69998ec7b4cb8d154fa582242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 31/51] fix: the parsers configured for a processing pipeline
 reach its parser registry

---
 src/valori/processors/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..798b31f 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -30,7 +30,7 @@ class ProcessingPipeline:
         """Initialize the processing pipeline."""
         try:
             # Initialize parser registry
-            parser_config = self.config.get("parsers", {})
+            parser_config = {"parsers": self.config.get("parsers", {})}
             self.parser_registry = ParserRegistry(parser_config)
             self.parser_registry.initialize()
 
-- 
2.43.0


From 8f04f43536b7915cb12db633ac25fee0d00d120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 32/51] fix: initializing a processing pipeline again does not
 run its processors twice

---
 src/valori/processors/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index 798b31f..aa62a30 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -35,6 +35,7 @@ class ProcessingPipeline:
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors = []
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From 5bb2eafbff51eac7ad027e09c5882bb419d3ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 33/51] fix: text files whose encoding is not detected are read
 as utf-8

---
 src/valori/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84e525a..5e516ca 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -56,7 +56,7 @@ class TextParser(DocumentParser):
                 with open(file_path, "rb") as f:
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
-                    encoding = detected.get("encoding", "utf-8")
+                    encoding = detected.get("encoding") or "utf-8"
             else:
                 encoding = self.encoding
 
-- 
2.43.0


From 5c04a9def0bbd31960c2646be80e046abd0f416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 34/51] fix: an inserted batch is not counted as failed when
 the progress callback raises

---
 src/valori/utils/batch_manager.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..822a068 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -88,6 +88,17 @@ class BatchManager:
                     batch_ids = client.insert(batch_vectors, batch_metadata)
                     all_ids.extend(batch_ids)
 
+                except Exception as e:
+                    self._stats["failed_items"] = int(
+                        self._stats.get("failed_items", 0) or 0
+                    ) + len(batch_vectors)
+
+                    if self.error_callback:
+                        self.error_callback(e, batch_vectors)
+                    else:
+                        print(f"Error processing batch {i//self.batch_size + 1}: {e}")
+
+                else:
                     self._stats["processed_items"] = int(
                         self._stats.get("processed_items", 0) or 0
                     ) + len(batch_vectors)
@@ -100,16 +111,6 @@ class BatchManager:
                             self._stats["processed_items"], self._stats["total_items"]
                         )
 
-                except Exception as e:
-                    self._stats["failed_items"] = int(
-                        self._stats.get("failed_items", 0) or 0
-                    ) + len(batch_vectors)
-
-                    if self.error_callback:
-                        self.error_callback(e, batch_vectors)
-                    else:
-                        print(f"Error processing batch {i//self.batch_size + 1}: {e}")
-
         finally:
             self._stats["end_time"] = time.time()
 
-- 
2.43.0


From 21355cf1e1547a1e63487fb5a8feead422320f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 35/51] fix: parallel_batch_insert returns the IDs in input
 order

---
 src/valori/utils/batch_manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 822a068..b7875d1 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -195,8 +195,6 @@ class BatchManager:
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-        all_ids = []
-
         # Create batches
         batches = []
         for i in range(0, len(vectors), self.batch_size):
@@ -216,6 +214,9 @@ class BatchManager:
             except Exception as e:
                 return batch_data["batch_id"], [], e
 
+        # Batches finish in any order, their IDs are returned in input order
+        ids_by_batch: List[List[int]] = [[] for _ in batches]
+
         try:
             with ThreadPoolExecutor(max_workers=self.max_workers) as executor:
                 # Submit all batches
@@ -234,10 +235,10 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
-                        ) + len(batch_ids)
+                        ) + len(batches[batch_id]["vectors"])
 
                     if show_progress:
                         self._print_progress()
@@ -250,7 +251,7 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        return [vector_id for batch_ids in ids_by_batch for vector_id in batch_ids]
 
     def _print_progress(self):
         """Print progress information."""
-- 
2.43.0


From 4063ef8448e6864e44ba33268ef36d3e77f2a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 36/51] fix: create_vectors_from_files answers no vectors when
 no file could be processed

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..ab4e541 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -114,7 +114,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0)), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From 7545d224f15e3a64e24122a7eaeca39c8af2317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 37/51] fix: asking the embedding processor for its statistics
 does not change them

---
 src/valori/processors/embedding.py | 31 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 4787477..3b14c38 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -38,10 +38,12 @@ class EmbeddingProcessor(DocumentProcessor):
         self._texts_processed = 0
         self._embeddings_generated = 0
         self._cache_hits = 0
+        self._dimension = None
 
     def initialize(self) -> None:
         """Initialize the embedding processor."""
         try:
+            self._dimension = None
             if self.model_type == "sentence_transformers":
                 self._initialize_sentence_transformers()
             elif self.model_type == "openai":
@@ -151,6 +153,20 @@ class EmbeddingProcessor(DocumentProcessor):
                 self._cache_hits += 1
                 return self._cache[cache_key].copy()
 
+        embedding = self._compute_embedding(text)
+
+        # Cache embedding
+        if self.cache_embeddings:
+            cache_key = self._get_cache_key(text)
+            self._cache[cache_key] = embedding.copy()
+
+        self._texts_processed += 1
+        self._embeddings_generated += 1
+
+        return embedding
+
+    def _compute_embedding(self, text: str) -> np.ndarray:
+        """Run the model on a single text and normalize the result."""
         # Generate embedding
         if self.model_type == "sentence_transformers":
             embedding = self._generate_sentence_transformer_embedding(text)
@@ -167,14 +183,6 @@ class EmbeddingProcessor(DocumentProcessor):
             if norm > 0:
                 embedding = embedding / norm
 
-        # Cache embedding
-        if self.cache_embeddings:
-            cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding.copy()
-
-        self._texts_processed += 1
-        self._embeddings_generated += 1
-
         return embedding
 
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
@@ -269,9 +277,10 @@ class EmbeddingProcessor(DocumentProcessor):
         if not self._initialized:
             return 0
 
-        # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        # Compute a test embedding to determine dimension
+        if self._dimension is None:
+            self._dimension = len(self._compute_embedding("test"))
+        return self._dimension
 
     def close(self) -> None:
         """Close the processor and release cached embeddings."""
-- 
2.43.0


From 502541bd3920116042acea090c45957dee299660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 38/51] fix: blank texts get a zero vector of the model's
 dimension

---
 src/valori/processors/embedding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 3b14c38..9c4e335 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -144,7 +144,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
-- 
2.43.0


From 9e418a5b8011c0df7600dd6f232462315e298a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 39/51] fix: create_document_db keeps the caller's index_config

---
 src/valori/factory.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..a1ae7e3 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -117,18 +117,24 @@ def create_document_db(
 
     # Default index config for document search
     if index_type == "annoy":
-        db_config["index_config"] = {
-            "metric": "angular",
-            "num_trees": 20,
-            "search_k": -1,
-        }
+        db_config.setdefault(
+            "index_config",
+            {
+                "metric": "angular",
+                "num_trees": 20,
+                "search_k": -1,
+            },
+        )
     elif index_type == "hnsw":
-        db_config["index_config"] = {
-            "metric": "cosine",
-            "M": 16,
-            "ef_construction": 200,
-            "ef_search": 50,
-        }
+        db_config.setdefault(
+            "index_config",
+            {
+                "metric": "cosine",
+                "M": 16,
+                "ef_construction": 200,
+                "ef_search": 50,
+            },
+        )
 
     client = create_vector_db(**db_config)
 
-- 
2.43.0


From 33749bdb521618f5513ae1a6c69ab1dbb464ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 40/51] fix: create_vector_db works when the number of vectors
 or the dimension is unknown

---
 src/valori/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index a1ae7e3..a6873b9 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -48,7 +48,10 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        # An unknown size or dimension counts as small
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From 1e77fcde18291db5a7460ddd1d3fce1d1a85462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 41/51] fix: HNSWIndex takes the M of the shipped
 configurations

---
 src/valori/indices/hnsw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e05a0bc..5e2792e 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -27,7 +27,8 @@ class HNSWIndex(Index):
     def __init__(self, config: Dict[str, Any]):
         """Initialize HNSW index."""
         super().__init__(config)
-        self.m = config.get("m", 16)  # Number of bi-directional links
+        # Number of bi-directional links ("M" in the shipped configurations)
+        self.m = config.get("m", config.get("M", 16))
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
-- 
2.43.0


From fbab7878d408d953b4095a31c15b4df3523571b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 42/51] fix: databases created with their data have their index
 built

---
 src/valori/factory.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index a6873b9..dc49f27 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -180,6 +180,7 @@ def create_semantic_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -218,6 +219,7 @@ def create_image_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -273,10 +275,17 @@ def create_hybrid_search_db(
 
     # Add vectors
     client.insert(vectors, combined_metadata)
+    _build_index(client)
 
     return client
 
 
+def _build_index(client: VectorDBClient) -> None:
+    """Build the index where it has to be built before it answers searches."""
+    if hasattr(client.index, "build"):
+        client.index.build()
+
+
 def _create_index(index_type: str, config: Dict[str, Any]):
     """Create index instance based on type."""
     if index_type == "flat":
-- 
2.43.0


From f6619973361cfa1051d9422202b5cb50657eb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 43/51] fix: get_config finds index groups,
 get_recommended_config finds its parts, and both hand out copies

---
 src/valori/configs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..643b305 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+import copy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -385,15 +386,17 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
 
     category_configs = config_map[category]
 
-    # Handle nested categories
+    # Handle nested categories: a group of index configurations, or one of them
     if category == "index":
+        if name in category_configs:
+            return copy.deepcopy(category_configs[name])
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
+                return copy.deepcopy(configs[name])
     else:
         if name not in category_configs:
             raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+        return copy.deepcopy(category_configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
@@ -462,7 +465,7 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "small_dataset")["flat"]
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
@@ -482,7 +485,10 @@ def get_recommended_config(
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    if storage_type in ("memory", "disk"):
+        storage_config = get_config("storage", f"{storage_type}_only")
+    else:
+        storage_config = get_config("storage", storage_type)
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From dc32401faaae94d3c703aefccf01b610b86d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 44/51] fix: the storage configurations use the options the
 storage backends read

---
 src/valori/configs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 643b305..ca25bb8 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -105,15 +105,14 @@ STORAGE_CONFIGS: Dict[str, Any] = {
     },
     "disk_only": {
         "type": "disk",
-        "config": {"data_dir": "./valori_data", "compression": True},
+        "config": {"data_dir": "./valori_data"},
         "description": "Disk storage for persistence",
     },
     "hybrid": {
         "type": "hybrid",
         "config": {
-            "memory_limit_mb": 1000,
-            "disk_path": "./valori_data",
-            "cache_size": 10000,
+            "memory_limit": 10000,
+            "disk": {"data_dir": "./valori_data"},
         },
         "description": "Hybrid memory/disk storage",
     },
-- 
2.43.0


From 154e831f9770ded6513dcdf0eea52652803b3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 45/51] fix: AnnoyIndex builds with the configured random_seed

---
 src/valori/indices/annoy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 683da8e..b59f80f 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -346,6 +346,7 @@ class AnnoyIndex(Index):
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
         self._annoy_index = self.annoy.AnnoyIndex(self.dimension, self.metric)
+        self._annoy_index.set_seed(self.random_seed)
 
     def _distance_to_similarity(self, distance: float) -> float:
         """Convert Annoy distance to similarity score."""
-- 
2.43.0


From 2b27ac8d583450f8181fed3a4d1a94319ba0c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 46/51] fix: training a SAQQuantizer does not change its
 configured number of segments

---
 src/valori/quantization/saq.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 009996c..6bad154 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -161,16 +161,15 @@ class SAQQuantizer(Quantizer):
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
         # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        n_segments = min(self.n_segments, dim)
 
-        dp = np.full((self.n_segments + 1, dim + 1), np.inf)
+        dp = np.full((n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
 
         # Backtracking array
-        backtrack = np.zeros((self.n_segments + 1, dim + 1), dtype=int)
+        backtrack = np.zeros((n_segments + 1, dim + 1), dtype=int)
 
-        for seg in range(1, self.n_segments + 1):
+        for seg in range(1, n_segments + 1):
             for end in range(seg, dim + 1):
                 for start in range(seg - 1, end):
                     if start == 0:
@@ -191,7 +190,7 @@ class SAQQuantizer(Quantizer):
         # Reconstruct segmentation (boundaries will cover [0, dim])
         self.segment_boundaries = []
         current_pos = dim
-        for seg in range(self.n_segments, 0, -1):
+        for seg in range(n_segments, 0, -1):
             start = backtrack[seg, current_pos]
             self.segment_boundaries.insert(0, (start, current_pos))
             current_pos = start
-- 
2.43.0


From 185dc2d9a548704f4b9755a999dfc45b47aef8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 47/51] fix: analysing a single vector or a zero vector no
 longer fails or yields NaN

---
 src/valori/utils/debugging.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..ec64859 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -192,10 +192,9 @@ class VectorAnalyzer:
         else:
             sample_vectors = vectors
 
-        # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
+        # Normalize vectors (zero vectors stay zero)
+        norms = np.linalg.norm(sample_vectors, axis=1, keepdims=True)
+        normalized = sample_vectors / np.where(norms == 0, 1, norms)
 
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
@@ -204,6 +203,9 @@ class VectorAnalyzer:
         mask = np.ones_like(similarity_matrix, dtype=bool)
         np.fill_diagonal(mask, False)
         similarities = similarity_matrix[mask]
+        if similarities.size == 0:
+            # A single vector has no pairs
+            similarities = np.zeros(1)
 
         return {
             "similarity_stats": {
-- 
2.43.0


From b5108e36e07f46a211e702293938a9fc79f958e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 48/51] fix: validating non-numeric arrays raises
 ValidationError instead of TypeError

---
 src/valori/utils/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..fa2a7c0 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -41,6 +41,9 @@ def validate_vector(
     if len(vector) == 0:
         raise ValidationError("Vector cannot be empty")
 
+    if vector.dtype.kind not in "biufc":
+        raise ValidationError(f"Vector dtype {vector.dtype} is not numeric")
+
     if min_dim is not None and len(vector) < min_dim:
         raise ValidationError(
             f"Vector dimension {len(vector)} is less than minimum {min_dim}"
@@ -103,6 +106,9 @@ def validate_vectors(
     if vectors.shape[1] == 0:
         raise ValidationError("Vector dimension cannot be zero")
 
+    if vectors.dtype.kind not in "biufc":
+        raise ValidationError(f"Vectors dtype {vectors.dtype} is not numeric")
+
     if min_dim is not None and vectors.shape[1] < min_dim:
         raise ValidationError(
             f"Vector dimension {vectors.shape[1]} is less than minimum {min_dim}"
-- 
2.43.0


From 2c14d4ff6321d9350b357295b5b86e24a4242a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:46 +0000
Subject: [PATCH 49/51] fix: scalar quantizer with 63 or more bits codes the
 largest value without overflow

---
 src/valori/quantization/scalar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 3747e87..9bc4db0 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -111,8 +111,9 @@ class ScalarQuantizer(Quantizer):
 
             # Round and clip to valid range
             rounded = np.rint(normalized_all)
-            # Clip to the maximum representable for the chosen integer type
-            max_for_type = np.iinfo(itype).max
+            # Clip to the maximum representable for the chosen integer type; codes
+            # are clipped as float64, where 2**63 - 1 would become 2**63
+            max_for_type = np.iinfo(np.int64).max - 1023
             upper_bound = int(
                 self.max_val if self.max_val <= max_for_type else max_for_type
             )
-- 
2.43.0


From a5b29864f124613f7a5bd878e453331852d218a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:46 +0000
Subject: [PATCH 50/51] fix: product quantizer codes more than 65536 centroids
 without overflow

---
 src/valori/quantization/product.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 0e0da1c..fec8531 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -114,8 +114,10 @@ class ProductQuantizer(Quantizer):
             effective_k = self.centroids.shape[1]
             if effective_k - 1 <= np.iinfo(np.uint8).max:
                 qdtype = np.uint8
-            else:
+            elif effective_k - 1 <= np.iinfo(np.uint16).max:
                 qdtype = np.uint16
+            else:
+                qdtype = np.uint32
 
             quantized = np.zeros((n_vectors, int(self.m)), dtype=qdtype)
 
-- 
2.43.0


From 3057dbca614ed92bf90c3b7ceb05c3fd4a6d4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 51/51] fix: quantizers refuse vectors of another dimension
 than the trained one

---
 src/valori/quantization/product.py | 4 ++++
 src/valori/quantization/scalar.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index fec8531..e45aebd 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -107,6 +107,10 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Quantizer not trained")
 
         try:
+            if vectors.ndim != 2 or int(vectors.shape[1]) != self.dim:
+                raise QuantizationError(
+                    f"Expected 2D vectors of dimension {self.dim}, got shape {vectors.shape}"
+                )
             n_vectors = int(vectors.shape[0])
             assert self.subvector_dim is not None and self.centroids is not None
 
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 9bc4db0..b6f7141 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -95,6 +95,10 @@ class ScalarQuantizer(Quantizer):
                 and self.scale is not None
                 and self.zero_point is not None
             )
+            if int(vectors.shape[1]) != int(self.dim):
+                raise QuantizationError(
+                    f"Expected vectors of dimension {self.dim}, got {vectors.shape[1]}"
+                )
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
-- 
2.43.0

