From 80d61fc448029593d7244cfdad66e2914c69f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 01/87] fix: memory storage keeps its own copy of vector and
 metadata, or nothing

---
 src/valori/storage/memory.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..fbacfa5 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+import copy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -47,13 +48,17 @@ class MemoryStorage(StorageBackend):
             raise StorageError("Storage backend not initialized")
 
         try:
+            # Copy first, so that a value that cannot be copied changes nothing
+            vector = np.array(vector)
+            metadata = copy.deepcopy(metadata)
+
             with self.lock:
                 # Store vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -69,7 +74,7 @@ class MemoryStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from memory."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -79,7 +84,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = copy.deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -119,12 +124,16 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy first, so that a value that cannot be copied changes nothing
+                vector = np.array(vector)
+                metadata = copy.deepcopy(metadata)
+
                 # Update vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From 6aed17fffc8f57a38b3d19c0c5e48104380c7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 02/87] fix: disk storage maps distinct ids to distinct files
 and lists the original ids

---
 src/valori/storage/disk.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..2c69978 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -78,7 +79,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from disk."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [unquote(f.stem, errors="surrogatepass") for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +220,14 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Percent-encode invalid characters, so that distinct IDs never share a
+        # file and the ID can be recovered from the file name
+        safe_id = "".join(
+            (
+                c
+                if c.isalnum() or c in "._-"
+                else quote(c, safe="", errors="surrogatepass")
+            )
+            for c in id
+        )
         return safe_id
-- 
2.43.0


From a54bd9630b1cf0414d1e50a9895238c59298c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 03/87] fix: disk storage replaces a record only once its new
 files are complete

---
 src/valori/storage/disk.py | 63 ++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2c69978..fafcc21 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -58,20 +58,8 @@ class DiskStorage(StorageBackend):
             # Sanitize ID for filesystem
             safe_id = self._sanitize_id(id)
 
-            # Store vector
-            vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Store vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -149,19 +137,8 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return False
 
-            # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Update vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             return True
 
@@ -218,6 +195,38 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_record(
+        self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """
+        Replace a record's files.
+
+        Both files are written in full beside the old ones before either is
+        replaced, so a write that fails or is cut short leaves the old record.
+        """
+        vector_path = self.vectors_dir / f"{safe_id}.npy"
+        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+        vector_tmp = self.vectors_dir / f"{safe_id}.npy.tmp"
+        metadata_tmp = self.metadata_dir / f"{safe_id}.pkl.tmp"
+
+        try:
+            with open(vector_tmp, "wb") as f:
+                # An object array would be pickled, and could not be read back
+                np.save(f, vector, allow_pickle=False)
+
+            if metadata is not None:
+                with open(metadata_tmp, "wb") as f:
+                    pickle.dump(metadata, f)
+                os.replace(metadata_tmp, metadata_path)
+            elif metadata_path.exists():
+                metadata_path.unlink()
+
+            os.replace(vector_tmp, vector_path)
+        except Exception:
+            vector_tmp.unlink(missing_ok=True)
+            metadata_tmp.unlink(missing_ok=True)
+            raise
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Percent-encode invalid characters, so that distinct IDs never share a
-- 
2.43.0


From f7556202f4a37e453122b84c93e88533f0eb2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 04/87] fix: flat, HNSW and IVF refuse unsearchable vectors and
 undo a failed insert

---
 src/valori/indices/base.py | 37 ++++++++++++++++++++++++++++++++++++-
 src/valori/indices/flat.py | 13 +++++++++----
 src/valori/indices/hnsw.py | 11 ++++++++---
 src/valori/indices/ivf.py  | 10 ++++++++--
 4 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..e9069f0 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -3,10 +3,11 @@ Base index interface for the valori vector database.
 """
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
 
 
@@ -28,6 +29,40 @@ class Index(ABC):
         """Check if the index is initialized."""
         return self._initialized
 
+    def _check_searchable(
+        self, vectors: np.ndarray, existing_ids: Iterable[str]
+    ) -> None:
+        """
+        Refuse vectors that would make every later search fail.
+
+        Args:
+            vectors: New vector data, one or more rows
+            existing_ids: IDs already in the index, which set its dimension
+        """
+        dimension = vectors.shape[-1]
+        if dimension == 0 or not np.isrealobj(vectors):
+            raise ValoriIndexError("Vectors must be non-empty and real")
+        if not np.isfinite(vectors).all():
+            raise ValoriIndexError("Vectors must contain only finite values")
+
+        for vector_id in existing_ids:
+            stored = self.storage_backend.retrieve_vector(vector_id)
+            if stored is not None:
+                if len(stored[0]) != dimension:
+                    raise ValoriIndexError(
+                        f"Vector dimension mismatch: expected {len(stored[0])}, "
+                        f"got {dimension}"
+                    )
+                break
+
+    def _undo_insert(self, ids: List[str]) -> None:
+        """Remove what an insert that failed part way has already added."""
+        for vector_id in ids:
+            try:
+                self.delete([vector_id])
+            except ValoriIndexError:
+                pass
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..76a1fa2 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -54,16 +54,18 @@ class FlatIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
         try:
-            inserted_ids = []
-
             sb = self.storage_backend
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._check_searchable(vectors, self.vector_ids)
+
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
+                inserted_ids.append(vector_id)
 
                 # Get metadata for this vector
                 vector_metadata = (
@@ -77,12 +79,11 @@ class FlatIndex(Index):
                 self.vector_ids.append(vector_id)
                 self.vector_cache[vector_id] = vector.copy()
 
-                inserted_ids.append(vector_id)
-
             self._vector_count = len(self.vector_ids)
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -202,6 +203,10 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_searchable(vector, self.vector_ids)
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..580d9cc 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -70,12 +70,14 @@ class HNSWIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
         try:
-            inserted_ids = []
+            self._check_searchable(vectors, self.vectors)
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
+                inserted_ids.append(vector_id)
 
                 # Get metadata for this vector
                 vector_metadata = (
@@ -91,11 +93,10 @@ class HNSWIndex(Index):
                 # Insert into HNSW graph
                 self._insert_vector_internal(vector_id, vector)
 
-                inserted_ids.append(vector_id)
-
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -221,6 +222,10 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_searchable(vector, self.vectors)
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..8800ac8 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -65,12 +65,14 @@ class IVFIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
         try:
-            inserted_ids = []
+            self._check_searchable(vectors, self.vector_ids)
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
+                inserted_ids.append(vector_id)
 
                 # Get metadata for this vector
                 vector_metadata = (
@@ -86,7 +88,6 @@ class IVFIndex(Index):
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vectors_cache[vector_id] = vector.copy()
-                inserted_ids.append(vector_id)
 
             self._vector_count = len(self.vector_ids)
 
@@ -101,6 +102,7 @@ class IVFIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -225,6 +227,10 @@ class IVFIndex(Index):
                 raise ValoriIndexError("Index storage backend not configured")
 
             # Update in storage
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_searchable(vector, self.vector_ids)
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
-- 
2.43.0


From c707b57252411aa687f684558316c64664ac38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 05/87] fix: HNSW search no longer loses its candidates between
 levels or repeats a result

---
 src/valori/indices/hnsw.py | 75 +++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 580d9cc..7e13bc9 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -2,8 +2,10 @@
 HNSW (Hierarchical Navigable Small World) index implementation for the Vectara vector database.
 """
 
+import bisect
+import heapq
 import uuid
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
 
@@ -114,8 +116,10 @@ class HNSWIndex(Index):
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
-            # Start from top level
+            # Start from the highest level that still has nodes
             current_level = min(self.max_level, len(self.levels) - 1)
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
             candidates = []
 
             # Find entry point at highest level
@@ -131,34 +135,17 @@ class HNSWIndex(Index):
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[current_level]:
-                        for neighbor_id in self.levels[current_level][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                new_candidates.append((neighbor_id, distance))
-
                 # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
+                candidates = self._search_level(
+                    query_vector, candidates, current_level, self.ef_search
+                )
                 current_level -= 1
 
             # Final search at level 0
             if current_level == 0 and candidates:
-                final_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[0]:
-                        for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                final_candidates.append((neighbor_id, distance))
-
-                candidates.extend(final_candidates)
+                candidates = self._search_level(
+                    query_vector, candidates, 0, max(self.ef_search, k)
+                )
 
             # Sort and return top k
             candidates.sort(key=lambda x: x[1])
@@ -322,6 +309,44 @@ class HNSWIndex(Index):
 
                 del level[vector_id]
 
+    def _search_level(
+        self,
+        query_vector: np.ndarray,
+        entry_points: List[Tuple[str, float]],
+        level: int,
+        ef: int,
+    ) -> List[Tuple[str, float]]:
+        """
+        Best-first search of one level from the entry points.
+
+        Returns the ef nearest nodes met (entry points included), each once,
+        nearest first. Stops when no unexpanded node is nearer than they are.
+        """
+        graph = self.levels[level]
+        ef = max(1, ef)
+        visited = {node_id for node_id, _ in entry_points}
+        frontier = [(distance, node_id) for node_id, distance in entry_points]
+        heapq.heapify(frontier)
+        best = sorted(frontier)[:ef]
+
+        while frontier:
+            distance, node_id = heapq.heappop(frontier)
+            if len(best) >= ef and distance > best[-1][0]:
+                break
+            for neighbor_id in graph.get(node_id, []):
+                if neighbor_id in visited or neighbor_id not in self.vectors:
+                    continue
+                visited.add(neighbor_id)
+                distance = self._compute_distance(
+                    query_vector, self.vectors[neighbor_id]
+                )
+                if len(best) < ef or distance < best[-1][0]:
+                    heapq.heappush(frontier, (distance, neighbor_id))
+                    bisect.insort(best, (distance, neighbor_id))
+                    del best[ef:]
+
+        return [(node_id, distance) for distance, node_id in best]
+
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
         if self.metric == "cosine":
-- 
2.43.0


From 4f625d9fd6804ec43930eef9500e673503e2a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 06/87] fix: HNSW deletions no longer cut vectors off from the
 graph

---
 src/valori/indices/hnsw.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 7e13bc9..807b90d 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -279,7 +279,7 @@ class HNSWIndex(Index):
 
         # Connect to neighbors (simplified - connect to a few random existing nodes)
         for l in range(min(level + 1, len(self.levels))):
-            existing_nodes = list(self.levels[l].keys())
+            existing_nodes = [n for n in self.levels[l] if n != vector_id]
             if existing_nodes:
                 # Connect to up to m neighbors
                 num_connections = min(self.m, len(existing_nodes))
@@ -303,10 +303,18 @@ class HNSWIndex(Index):
         for level in self.levels:
             if vector_id in level:
                 # Remove connections
+                previous_id = None
                 for neighbor_id in level[vector_id]:
                     if neighbor_id in level and vector_id in level[neighbor_id]:
                         level[neighbor_id].remove(vector_id)
 
+                        # Link the neighbors to each other, so that none of them
+                        # is cut off from the rest of the graph
+                        if previous_id and previous_id not in level[neighbor_id]:
+                            level[neighbor_id].append(previous_id)
+                            level[previous_id].append(neighbor_id)
+                        previous_id = neighbor_id
+
                 del level[vector_id]
 
     def _search_level(
-- 
2.43.0


From 22c27a87bb5e98759696f5ab151aa7515106c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 07/87] fix: initializing an index again drops what it held
 before

---
 src/valori/indices/flat.py | 1 +
 src/valori/indices/hnsw.py | 3 +++
 src/valori/indices/ivf.py  | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 76a1fa2..d529c5b 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -40,6 +40,7 @@ class FlatIndex(Index):
             sb = storage_backend
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
+            self.vector_cache.clear()
             self._vector_count = len(self.vector_ids)
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 807b90d..428d4b7 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -49,6 +49,9 @@ class HNSWIndex(Index):
 
         # Initialize level 0
         self.levels = [{}]
+        self.vectors.clear()
+        self.max_level = 0
+        self._vector_count = 0
 
         # Load existing vectors if any
         try:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 8800ac8..4a38c59 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -48,6 +48,10 @@ class IVFIndex(Index):
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
             self._vector_count = len(self.vector_ids)
+            self.vectors_cache.clear()
+            self.clusters.clear()
+            self.centroids = None
+            self._trained = False
 
             # If we have enough vectors, retrain the index
             if len(self.vector_ids) >= self.n_clusters:
-- 
2.43.0


From 9b01c76f00ebb1f69bfb5f146d71d43dcbb70936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 08/87] fix: LSH refuses bad input before changing anything and
 reports unknown ids

---
 src/valori/indices/lsh.py | 61 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..f81a2eb 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -5,6 +5,7 @@ Implements Locality Sensitive Hashing for approximate nearest neighbor search
 with configurable hash functions and parameters.
 """
 
+import copy
 import hashlib
 from collections import defaultdict
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -81,19 +82,25 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        # Validate everything before changing anything
+        if len(vectors) == 0:
+            return []
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
-
-        # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+        metadata = [copy.deepcopy(item or {}) for item in metadata]
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._generate_projections()
 
         assigned_ids = []
 
@@ -103,7 +110,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -186,7 +193,10 @@ class LSHIndex(Index):
 
         # Sort by distance and return top k
         results.sort(key=lambda x: x["distance"], reverse=True)
-        return results[:k]
+        results = results[:k]
+        for result in results:
+            result["metadata"] = copy.deepcopy(result["metadata"])
+        return results
 
     def remove(self, ids: List[int]) -> None:
         """
@@ -199,7 +209,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -219,15 +229,25 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
             int_ids = []
+            success = True
             for s in ids:
                 try:
-                    int_ids.append(int(s))
+                    vector_id = int(s)
                 except ValueError:
-                    continue
+                    vector_id = -1
+                if (
+                    0 <= vector_id < len(self.vectors)
+                    and self.vectors[vector_id] is not None
+                ):
+                    int_ids.append(vector_id)
+                else:
+                    success = False
             self.remove(int_ids)
-            return True
+            return success
         except Exception:
             return False
 
@@ -239,8 +259,15 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
         try:
             vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            if not 0 <= vector_id < len(self.vectors):
                 return False
+            if self.vectors[vector_id] is None:
+                return False
+
+            # Validate everything before changing anything
+            validate_vector(vector, self.dimension, self.dimension)
+            if metadata is not None:
+                metadata = copy.deepcopy(metadata)
 
             # Remove old hashes
             old_vector = self.vectors[vector_id]
@@ -255,7 +282,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = metadata
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
-- 
2.43.0


From c00b5e381e6dc4610638f32d1bb67556392aa18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/87] fix: LSH rejects a hash size that no insert can be
 hashed with

---
 src/valori/indices/lsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index f81a2eb..ddca7f6 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -44,6 +44,8 @@ class LSHIndex(Index):
             raise ValoriIndexError("Hash size must be positive")
         if self.num_projections <= 0:
             raise ValoriIndexError("Number of projections must be positive")
+        if self.hash_size > self.num_projections:
+            raise ValoriIndexError("Hash size must not exceed number of projections")
 
         # Initialize random state
         self.rng = np.random.RandomState(self.random_seed)
-- 
2.43.0


From 6a0c5f8daae9fa4808fb7071d2504189be4810d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 10/87] fix: Annoy hides removed vectors and keeps ids straight
 across update and late adds

---
 src/valori/indices/annoy.py | 93 +++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 30 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..03d07e1 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -5,6 +5,7 @@ Implements Annoy (Approximate Nearest Neighbors Oh Yeah) for fast
 approximate nearest neighbor search using random projection trees.
 """
 
+import copy
 import os
 import tempfile
 from typing import Any, Dict, List, Optional, Union
@@ -108,9 +109,19 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
+            int_ids = []
+            success = True
+            for id in ids:
+                try:
+                    vector_id = int(id)
+                except ValueError:
+                    vector_id = -1
+                if self._has_vector(vector_id):
+                    int_ids.append(vector_id)
+                else:
+                    success = False
             self.remove(int_ids)
-            return True
+            return success
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
@@ -130,20 +141,14 @@ class AnnoyIndex(Index):
         """
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors):
+            if not self._has_vector(int_id):
                 raise ValoriIndexError(f"Vector ID not found: {id}")
+            validate_vector(vector, self.dimension, self.dimension)
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
-
-            # Remove old vector
-            self.remove([int_id])
-
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            if metadata is not None:
+                self.metadata[int_id] = copy.deepcopy(metadata)
+            self.vectors[int_id] = vector.copy()
+            self._unbuild()
 
             return True
         except Exception as e:
@@ -168,19 +173,25 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        # Validate everything before changing anything
+        if len(vectors) == 0:
+            return []
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
-
-        # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+        metadata = [copy.deepcopy(item or {}) for item in metadata]
+
+        # Set dimension on first add; a built index takes no more items
+        if self.dimension is None or self._built:
+            self.dimension = dimension
+            self._unbuild()
 
         assigned_ids = []
 
@@ -190,7 +201,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
@@ -209,8 +220,12 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("No dimension set for vectors")
 
         # Only build if there's an annoy index instance
-        if self._annoy_index is not None:
+        if self._annoy_index is not None and not self._built:
             if self.build_on_disk:
+                if self._temp_file is None:
+                    fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+                    os.close(fd)
+
                 # Build on disk
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
@@ -256,15 +271,16 @@ class AnnoyIndex(Index):
             self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
         )
 
-        # Search for nearest neighbors
+        # Search for nearest neighbors (removed ones are still in the trees)
+        removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if self._has_vector(neighbor_id) and len(results) < k:
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -272,7 +288,7 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": copy.deepcopy(self.metadata[neighbor_id]),
                     }
                 )
 
@@ -291,7 +307,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if self._has_vector(vector_id):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
@@ -302,6 +318,7 @@ class AnnoyIndex(Index):
         self.metadata.clear()
         self._next_id = 0
         self._built = False
+        self.dimension = None
 
         if self._annoy_index is not None:
             self._annoy_index.unload()
@@ -328,6 +345,22 @@ class AnnoyIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _has_vector(self, vector_id: int) -> bool:
+        """Check if the index holds a vector that has not been removed."""
+        return (
+            0 <= vector_id < len(self.vectors) and self.vectors[vector_id] is not None
+        )
+
+    def _unbuild(self) -> None:
+        """Start a new Annoy index, not built yet, with the current vectors."""
+        if self._annoy_index is not None:
+            self._annoy_index.unload()
+        self._create_annoy_index()
+        for vector_id, vector in enumerate(self.vectors):
+            if vector is not None:
+                self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+        self._built = False
+
     def _create_annoy_index(self) -> None:
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
-- 
2.43.0


From 813cafe1052635b872497849817f61b6756734e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 11/87] fix: a loaded Annoy index answers searches as the saved
 one did

---
 src/valori/indices/annoy.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 03d07e1..25dd919 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -7,6 +7,7 @@ approximate nearest neighbor search using random projection trees.
 
 import copy
 import os
+import pickle
 import tempfile
 from typing import Any, Dict, List, Optional, Union
 
@@ -412,6 +413,10 @@ class AnnoyIndex(Index):
             with open(metadata_path, "w") as f:
                 json.dump(metadata, f)
 
+            # Annoy stores only the trees: keep vectors and metadata as well
+            with open(filepath + ".data", "wb") as f:
+                pickle.dump({"vectors": self.vectors, "metadata": self.metadata}, f)
+
     def load(self, filepath: str) -> None:
         """Load the index from disk."""
         if not self._initialized:
@@ -443,8 +448,23 @@ class AnnoyIndex(Index):
         self._annoy_index.load(filepath)
         self._built = True
 
-        # Note: When loading from disk, we lose the original vectors and metadata
-        # This is a limitation of Annoy - it only stores the tree structure
+        data_path = filepath + ".data"
+        if os.path.exists(data_path):
+            with open(data_path, "rb") as f:
+                data = pickle.load(f)
+        else:
+            # Saved by an older version: Annoy knows the vectors, not the metadata
+            count = self._annoy_index.get_n_items()
+            data = {
+                "vectors": [
+                    np.array(self._annoy_index.get_item_vector(i), dtype=np.float32)
+                    for i in range(count)
+                ],
+                "metadata": [{} for _ in range(count)],
+            }
+        self.vectors = data["vectors"]
+        self.metadata = data["metadata"]
+        self._next_id = len(self.vectors)
 
     def close(self) -> None:
         """Close the index and clean up resources."""
-- 
2.43.0


From 6bde210391be75be27a7f656daabb1e51abec4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 12/87] fix: persistence keeps the previous file until the new
 one is complete, and finds vectors saved without .npz

---
 src/valori/persistence/base.py        | 23 ++++++++++++++++++++++-
 src/valori/persistence/incremental.py | 15 ++++++++-------
 src/valori/persistence/tensor.py      | 23 ++++++++++++-----------
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index c711a5c..f3d2389 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,12 +2,28 @@
 Base persistence interface for the valori vector database.
 """
 
+import os
 from abc import ABC, abstractmethod
-from typing import Any, Dict, Optional, Tuple
+from contextlib import contextmanager
+from pathlib import Path
+from typing import IO, Any, Dict, Iterator, Optional, Tuple
 
 import numpy as np
 
 
+@contextmanager
+def replacing(path: Path, mode: str = "wb") -> Iterator[IO]:
+    """Write a file in full beside the old one, then put it in its place."""
+    tmp_path = path.with_name(path.name + ".tmp")
+    try:
+        with open(tmp_path, mode) as f:
+            yield f
+        os.replace(tmp_path, path)
+    except Exception:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 class PersistenceManager(ABC):
     """
     Abstract base class for persistence managers.
@@ -21,6 +37,11 @@ class PersistenceManager(ABC):
         self.config = config
         self._initialized = False
 
+    def _vectors_path(self, path: str) -> Path:
+        """File that vectors saved to path are kept in: numpy adds .npz."""
+        name = str(path)
+        return self.data_dir / (name if name.endswith(".npz") else f"{name}.npz")
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..f24fe42 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -11,7 +11,7 @@ from typing import Any, Dict, Optional, Tuple
 import numpy as np
 
 from ..exceptions import PersistenceError
-from .base import PersistenceManager
+from .base import PersistenceManager, replacing
 
 
 class IncrementalPersistence(PersistenceManager):
@@ -62,7 +62,7 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
+            with replacing(checkpoint_path) as f:
                 pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             # Update checkpoint info
@@ -110,11 +110,12 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._vectors_path(path)
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            with replacing(file_path) as f:
+                np.savez(f, vectors=vectors, ids=np.array(ids))
 
             # Log operation
             self._log_operation(
@@ -137,7 +138,7 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._vectors_path(path)
 
             if not file_path.exists():
                 return None, None
@@ -161,7 +162,7 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
+            with replacing(file_path) as f:
                 pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             # Log operation
@@ -280,7 +281,7 @@ class IncrementalPersistence(PersistenceManager):
                 "timestamp": datetime.now().isoformat(),
             }
 
-            with open(self.checkpoint_file, "w") as f:
+            with replacing(self.checkpoint_file, "w") as f:
                 json.dump(checkpoint_info, f)
 
         except Exception as e:
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..9b45d52 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -9,7 +9,7 @@ from typing import Any, Dict, Optional, Tuple
 import numpy as np
 
 from ..exceptions import PersistenceError
-from .base import PersistenceManager
+from .base import PersistenceManager, replacing
 
 
 class TensorPersistence(PersistenceManager):
@@ -46,7 +46,7 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
+            with replacing(file_path) as f:
                 pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             self._save_count += 1
@@ -81,17 +81,18 @@ class TensorPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._vectors_path(path)
 
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            with replacing(file_path) as f:
+                if self.compression:
+                    # Save with compression
+                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
+                else:
+                    # Save without compression
+                    np.savez(f, vectors=vectors, ids=np.array(ids))
 
             self._save_count += 1
             return True
@@ -105,7 +106,7 @@ class TensorPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._vectors_path(path)
 
             if not file_path.exists():
                 return None, None
@@ -132,7 +133,7 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
+            with replacing(file_path) as f:
                 pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             self._save_count += 1
-- 
2.43.0


From f626c69fabfb699b4c83da7bec1575b18a33cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 13/87] fix: incremental persistence recovers its operation
 count after a crash or restart

---
 src/valori/persistence/incremental.py | 42 +++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index f24fe42..594e6e9 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -6,7 +6,7 @@ import json
 import pickle
 from datetime import datetime
 from pathlib import Path
-from typing import Any, Dict, Optional, Tuple
+from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
 
@@ -85,12 +85,10 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             # Find latest checkpoint
-            checkpoint_files = list(self.data_dir.glob("checkpoint_*.pkl"))
+            checkpoint_files = self._checkpoint_files()
             if not checkpoint_files:
                 return None
 
-            # Sort by operation count
-            checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))
             latest_checkpoint = checkpoint_files[-1]
 
             with open(latest_checkpoint, "rb") as f:
@@ -206,7 +204,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Calculate disk usage
             total_size = 0
-            checkpoint_count = len(list(self.data_dir.glob("checkpoint_*.pkl")))
+            checkpoint_count = len(self._checkpoint_files())
 
             for file_path in self.data_dir.rglob("*"):
                 if file_path.is_file():
@@ -247,7 +245,7 @@ class IncrementalPersistence(PersistenceManager):
             }
 
             with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+                f.write(json.dumps(log_entry, default=str) + "\n")
 
             self._operation_count += 1
 
@@ -305,6 +303,38 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+        # The info lags behind the checkpoints and the log: never go back to an
+        # operation number that is already taken
+        taken = [self._checkpoint_number(f) for f in self._checkpoint_files()]
+        line = "\n"
+        with open(self.log_file, "r", errors="replace") as f:
+            for line in f:
+                try:
+                    taken.append(int(json.loads(line)["operation_id"]))
+                except (ValueError, KeyError, TypeError):
+                    continue  # A line cut short by a crash
+        if not line.endswith("\n"):
+            with open(self.log_file, "a") as f:
+                f.write("\n")
+        if taken:
+            self._operation_count = max(self._operation_count, max(taken) + 1)
+
+    @staticmethod
+    def _checkpoint_number(path: Path) -> int:
+        """Operation count at which a checkpoint was taken."""
+        return int(path.stem.split("_")[1])
+
+    def _checkpoint_files(self) -> List[Path]:
+        """All checkpoints, oldest first."""
+        return sorted(
+            (
+                f
+                for f in self.data_dir.glob("checkpoint_*.pkl")
+                if f.stem[len("checkpoint_") :].isdecimal()
+            ),
+            key=self._checkpoint_number,
+        )
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From 94d7e7356daf75d0b4ea28959fddca956b82add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 14/87] fix: scalar quantization codes no longer overflow at 31
 bits and from 63 bits

---
 src/valori/quantization/scalar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..91e7a15 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -19,6 +19,9 @@ class ScalarQuantizer(Quantizer):
     efficient as other methods for high-dimensional vectors.
     """
 
+    # Codes above this are not exact as floats, and could overflow when cast back
+    MAX_CODE = 2**53 - 1
+
     def __init__(self, config: Dict[str, Any]):
         """Initialize scalar quantizer."""
         super().__init__(config)
@@ -56,8 +59,7 @@ class ScalarQuantizer(Quantizer):
 
             # Compute scale and zero point for quantization using local vars
             # Use a capped denom to avoid floating-point overflow for very large bit counts
-            raw_denom = (1 << int(self.bits)) - 1
-            denom_cap = float(min(raw_denom, np.iinfo(np.int64).max))
+            denom_cap = float(min((1 << int(self.bits)) - 1, self.MAX_CODE))
             scales = (max_vals - min_vals) / denom_cap
             # Avoid zero scale values per-dimension
             scales = np.where(scales == 0, 1.0, scales)
@@ -106,15 +108,15 @@ class ScalarQuantizer(Quantizer):
             # Compute per-dimension quantized values in a vectorized manner
             # normalized = (vectors - min) / scale
             with np.errstate(invalid="ignore", divide="ignore"):
-                normalized_all = (vectors - self.min_values) / self.scale
+                normalized_all = (
+                    vectors.astype(np.float64) - self.min_values
+                ) / self.scale
 
             # Round and clip to valid range
             rounded = np.rint(normalized_all)
             # Clip to the maximum representable for the chosen integer type
             max_for_type = np.iinfo(itype).max
-            upper_bound = int(
-                self.max_val if self.max_val <= max_for_type else max_for_type
-            )
+            upper_bound = int(min(self.max_val, max_for_type, self.MAX_CODE))
             clipped = np.clip(rounded, 0, upper_bound)
             clipped = np.nan_to_num(clipped, nan=0.0, posinf=upper_bound, neginf=0.0)
 
-- 
2.43.0


From b8d1f80d84b2dfc76bc7ed5f30cbe4617b1a6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 15/87] fix: SAQ leaves every segment at least one bit of the
 budget

---
 src/valori/quantization/saq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..35ca7ce 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -210,7 +210,10 @@ class SAQQuantizer(Quantizer):
             if i == len(segment_variances) - 1:
                 bits = remaining_bits
             else:
-                bits = max(1, int(self.total_bits * (variance / total_variance)))
+                # Leave at least one bit for each segment still to come
+                segments_left = len(segment_variances) - i - 1
+                bits = int(self.total_bits * (variance / total_variance))
+                bits = max(1, min(bits, remaining_bits - segments_left))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From d7fc683989dd1be5ff8869381ef820d96aaa7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 16/87] fix: a failed or undone training leaves no half-trained
 quantizer

---
 src/valori/quantization/product.py | 9 ++++++---
 src/valori/quantization/saq.py     | 3 +++
 src/valori/quantization/scalar.py  | 6 +++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..a9ab3e7 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
@@ -47,14 +48,16 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
+            if n_vectors == 0 or not np.isfinite(vectors).all():
+                raise QuantizationError("Vectors must contain only finite values")
 
+            self.dim = int(dim)
             self.subvector_dim = int(self.dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 35ca7ce..057e2cc 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
@@ -92,6 +93,8 @@ class SAQQuantizer(Quantizer):
             start_time = time.time()
 
             n_vectors, dim = vectors.shape
+            if vectors.size == 0 or not np.isfinite(vectors).all():
+                raise QuantizationError("Vectors must contain only finite values")
             self.dim = int(dim)
 
             # Store full-precision vectors for rescoring
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 91e7a15..daa6ada 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -40,6 +40,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
@@ -51,9 +52,11 @@ class ScalarQuantizer(Quantizer):
             raise QuantizationError("Vectors must be 2D array")
 
         try:
+            if not np.isfinite(vectors).all():
+                raise QuantizationError("Vectors must contain only finite values")
+
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -67,6 +70,7 @@ class ScalarQuantizer(Quantizer):
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
-- 
2.43.0


From 35c631f63d11e8a5913ee0a54e5f5a159b330918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 17/87] fix: fixed-size chunking ends with the text instead of
 repeating its tail

---
 src/valori/processors/chunking.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..0a97d8f 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -41,6 +41,9 @@ class ChunkingProcessor(DocumentProcessor):
         if self.chunk_size <= 0:
             raise ProcessingError("Chunk size must be positive")
 
+        if self.chunk_overlap < 0:
+            raise ProcessingError("Chunk overlap must not be negative")
+
         if self.chunk_overlap >= self.chunk_size:
             raise ProcessingError("Chunk overlap must be less than chunk size")
 
@@ -96,9 +99,7 @@ class ChunkingProcessor(DocumentProcessor):
 
             # Try to break at separator boundary
             if end < len(text):
-                best_break = self._find_best_break(text, start, end)
-                if best_break > start + self.min_chunk_size:
-                    end = best_break
+                end = self._find_best_break(text, start, end)
 
             chunk_text = text[start:end].strip()
             if chunk_text:
@@ -117,8 +118,11 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            if end == len(text):
+                break
+
             # Move start position with overlap
-            start = max(end - self.chunk_overlap, start + 1)
+            start = end - self.chunk_overlap
 
         return chunks
 
@@ -214,11 +218,14 @@ class ChunkingProcessor(DocumentProcessor):
     def _find_best_break(self, text: str, start: int, end: int) -> int:
         """Find the best break point within the given range."""
         best_break = end
+        # A chunk has to reach past the overlap it shares with the next one,
+        # or the next one would make no progress
+        earliest = start + max(self.min_chunk_size, self.chunk_overlap)
 
         for separator in self.separators:
             # Look for separator from the end backwards
             break_pos = text.rfind(separator, start, end)
-            if break_pos > start + self.min_chunk_size:
+            if break_pos > earliest:
                 best_break = break_pos + len(separator)
                 break
 
-- 
2.43.0


From 703317118a30559bd36d2367226cc1343174c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 18/87] fix: semantic chunks are spans of the text, with true
 positions and overlap

---
 src/valori/processors/chunking.py | 90 +++++++++++++------------------
 1 file changed, 37 insertions(+), 53 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 0a97d8f..e8eb3b2 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -128,64 +128,48 @@ class ChunkingProcessor(DocumentProcessor):
 
     def _semantic_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create semantic chunks based on content boundaries."""
-        chunks = []
-
-        # Split by paragraphs first
-        paragraphs = text.split("\n\n")
-        current_chunk = ""
-        current_start = 0
-        chunk_id = 0
-
-        for paragraph in paragraphs:
-            paragraph = paragraph.strip()
-            if not paragraph:
-                continue
-
-            # If adding this paragraph would exceed chunk size, finalize current chunk
-            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
-                if current_chunk:
-                    chunks.append(
-                        {
-                            "id": chunk_id,
-                            "text": current_chunk.strip(),
-                            "start_pos": current_start,
-                            "end_pos": current_start + len(current_chunk),
-                            "length": len(current_chunk.strip()),
-                            "metadata": {
-                                "chunk_type": "semantic",
-                                "strategy": self.strategy,
-                            },
-                        }
-                    )
-                    chunk_id += 1
+        # Split by paragraphs first, keeping track of where each one lies
+        paragraphs = []
+        offset = 0
+        for part in text.split("\n\n"):
+            paragraph = part.strip()
+            if paragraph:
+                begin = offset + part.index(paragraph)
+                paragraphs.append((begin, begin + len(paragraph)))
+            offset += len(part) + 2
+
+        spans = []
+        current = None
+
+        for begin, end in paragraphs:
+            if current is None:
+                current = (begin, end)
+            elif end - current[0] > self.chunk_size:
+                # Adding this paragraph would exceed chunk size, finalize current chunk
+                spans.append(current)
 
                 # Start new chunk with overlap
-                overlap_text = (
-                    current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
-                    else ""
-                )
-                current_chunk = overlap_text + paragraph
-                current_start = max(
-                    0, current_start + len(current_chunk) - self.chunk_overlap
-                )
+                if 0 < self.chunk_overlap < current[1] - current[0]:
+                    begin = current[1] - self.chunk_overlap
+                current = (begin, end)
             else:
-                current_chunk += "\n\n" + paragraph if current_chunk else paragraph
+                current = (current[0], end)
 
         # Add final chunk
-        if current_chunk:
-            chunks.append(
-                {
-                    "id": chunk_id,
-                    "text": current_chunk.strip(),
-                    "start_pos": current_start,
-                    "end_pos": current_start + len(current_chunk),
-                    "length": len(current_chunk.strip()),
-                    "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
-                }
-            )
-
-        return chunks
+        if current is not None:
+            spans.append(current)
+
+        return [
+            {
+                "id": chunk_id,
+                "text": text[start:end].strip(),
+                "start_pos": start,
+                "end_pos": end,
+                "length": len(text[start:end].strip()),
+                "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
+            }
+            for chunk_id, (start, end) in enumerate(spans)
+        ]
 
     def _sliding_window_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create chunks using sliding window approach."""
-- 
2.43.0


From 04d21ebf9ee0c5c37875e65daa0f11cb7618dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 19/87] fix: text of a chunk above the maximum size is split,
 not dropped

---
 src/valori/processors/chunking.py | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index e8eb3b2..6c73344 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -78,7 +78,8 @@ class ChunkingProcessor(DocumentProcessor):
         else:
             raise ProcessingError(f"Unknown chunking strategy: {self.strategy}")
 
-        # Filter chunks by size
+        # Bring chunks within the maximum size, then filter them by size
+        chunks = self._split_oversized_chunks(text, chunks)
         filtered_chunks = self._filter_chunks_by_size(chunks)
         self._chunks_created += len(filtered_chunks)
 
@@ -215,6 +216,41 @@ class ChunkingProcessor(DocumentProcessor):
 
         return best_break
 
+    def _split_oversized_chunks(
+        self, text: str, chunks: List[Dict[str, Any]]
+    ) -> List[Dict[str, Any]]:
+        """Split chunks above the maximum size evenly, so that no text is lost."""
+        if self.max_chunk_size <= 0 or all(
+            len(chunk["text"]) <= self.max_chunk_size for chunk in chunks
+        ):
+            return chunks
+
+        split_chunks = []
+
+        for chunk in chunks:
+            start, end = chunk["start_pos"], chunk["end_pos"]
+            pieces = 1
+            if len(chunk["text"]) > self.max_chunk_size:
+                pieces = -(-(end - start) // self.max_chunk_size)
+
+            for i in range(pieces):
+                piece_start = start + (end - start) * i // pieces
+                piece_end = start + (end - start) * (i + 1) // pieces
+                piece_text = text[piece_start:piece_end].strip()
+                if piece_text:
+                    piece = {
+                        **chunk,
+                        "id": len(split_chunks),
+                        "text": piece_text,
+                        "start_pos": piece_start,
+                        "end_pos": piece_end,
+                        "length": len(piece_text),
+                        "metadata": dict(chunk["metadata"]),
+                    }
+                    split_chunks.append(piece)
+
+        return split_chunks
+
     def _filter_chunks_by_size(
         self, chunks: List[Dict[str, Any]]
     ) -> List[Dict[str, Any]]:
-- 
2.43.0


From aa5570c1d69f1b8b235ac35866e43ab8ac499f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 20/87] fix: parser chunks end with the text instead of
 repeating its tail

---
 src/valori/parsers/office_parser.py | 7 ++++++-
 src/valori/parsers/pdf_parser.py    | 7 ++++++-
 src/valori/parsers/text_parser.py   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..def91f2 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -275,7 +275,9 @@ class OfficeParser(DocumentParser):
             # Try to break at logical boundaries
             if end < len(text):
                 last_newline = text.rfind("\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = last_newline + 1
 
             chunk_text = text[start:end].strip()
@@ -291,6 +293,9 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end == len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..b4c2d88 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -178,7 +178,9 @@ class PDFParser(DocumentParser):
             # Try to break at paragraph boundary
             if end < len(text):
                 last_newline = text.rfind("\n\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = last_newline + 2
 
             chunk_text = text[start:end].strip()
@@ -201,6 +203,9 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end == len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..bdf1310 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -141,7 +141,9 @@ class TextParser(DocumentParser):
                 last_newline = text.rfind("\n", start, end)
                 break_point = max(last_period, last_newline)
 
-                if break_point > start + self.chunk_size // 2:
+                if break_point > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = break_point + 1
 
             chunk_text = text[start:end].strip()
@@ -157,6 +159,9 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end == len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
-- 
2.43.0


From 383c31bc944032c59ec0d7c9918806908e55fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 21/87] fix: PDF chunks name the page they start on

---
 src/valori/parsers/pdf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index b4c2d88..e6fcbda 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -217,5 +217,6 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            # Pages are joined by a two-character separator
+            current_pos += page_info["text_length"] + 2
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From 129efd7ef41afef6d955cb563f8ef8f1bef6f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 22/87] fix: stopword removal falls back to the built-in list
 when nltk has no data

---
 src/valori/processors/cleaning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..7fb3d5a 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,7 +49,8 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
+            except (ImportError, LookupError):
+                # nltk, or its stopword lists, are not installed
                 # Fallback to basic English stopwords
                 self._stopwords = {
                     "a",
-- 
2.43.0


From 5c999ea1ab15f3647f2c8f9ba1372dacd76289cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 23/87] fix: removing special characters no longer cuts
 accented words

---
 src/valori/processors/cleaning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index 7fb3d5a..a7fa2d4 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -136,6 +136,9 @@ class CleaningProcessor(DocumentProcessor):
 
         # Remove special characters
         if self.remove_special_chars:
+            if self.normalize_unicode:
+                # Drop the accents split off above, so that they do not cut words
+                text = "".join(c for c in text if not unicodedata.combining(c))
             text = re.sub(self.special_chars_pattern, " ", text)
 
         # Normalize whitespace
-- 
2.43.0


From bac06a972280cb73aa7a4a6bd47a78c3c1993d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 24/87] fix: the pipeline hands its parsers configuration to
 the registry

---
 src/valori/processors/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..5bb2c57 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,6 +31,8 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
+            if "parsers" not in parser_config:
+                parser_config = {"parsers": parser_config}
             self.parser_registry = ParserRegistry(parser_config)
             self.parser_registry.initialize()
 
-- 
2.43.0


From 6dc6de29c29d6707ab9b84b2bd439be8cbbda1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 25/87] fix: initializing the pipeline again does not run its
 processors twice

---
 src/valori/processors/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index 5bb2c57..4016c74 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -37,6 +37,7 @@ class ProcessingPipeline:
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors.clear()
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From fd9106c242e828a1c13d18188c7ff39e523485fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 26/87] fix: empty text embeds in the model's dimension, never
 as NaN, and callers cannot alter the cache

---
 src/valori/processors/embedding.py | 49 +++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..d673e34 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -35,6 +35,7 @@ class EmbeddingProcessor(DocumentProcessor):
         self.device = config.get("device", "cpu")  # cpu, cuda, auto
         self._model = None
         self._cache = {}
+        self._dimension = None
         self._texts_processed = 0
         self._embeddings_generated = 0
         self._cache_hits = 0
@@ -142,15 +143,29 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
+        embedding = self._compute_embedding(text)
+
+        # Cache embedding
+        if self.cache_embeddings:
+            cache_key = self._get_cache_key(text)
+            self._cache[cache_key] = embedding.copy()
+
+        self._texts_processed += 1
+        self._embeddings_generated += 1
+
+        return embedding
+
+    def _compute_embedding(self, text: str) -> np.ndarray:
+        """Run the model on a single text."""
         # Generate embedding
         if self.model_type == "sentence_transformers":
             embedding = self._generate_sentence_transformer_embedding(text)
@@ -161,18 +176,13 @@ class EmbeddingProcessor(DocumentProcessor):
         else:
             raise ProcessingError(f"Unknown model type: {self.model_type}")
 
-        # Normalize embedding
+        # Normalize embedding; a zero embedding has no direction to keep
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
-
-        # Cache embedding
-        if self.cache_embeddings:
-            cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
-
-        self._texts_processed += 1
-        self._embeddings_generated += 1
+            norm = np.linalg.norm(embedding)
+            if norm > 0:
+                embedding = embedding / norm
 
+        self._dimension = len(embedding)
         return embedding
 
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
@@ -244,9 +254,13 @@ class EmbeddingProcessor(DocumentProcessor):
                     batch_texts, convert_to_numpy=True
                 )
                 if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
-                    )
+                    norms = np.linalg.norm(batch_embeddings, axis=1, keepdims=True)
+                    batch_embeddings = batch_embeddings / np.where(norms > 0, norms, 1)
+                # Empty text has a zero embedding, as it does on its own
+                blank = [not text or not text.strip() for text in batch_texts]
+                batch_embeddings = np.where(
+                    np.array(blank)[:, None], 0, batch_embeddings
+                )
             else:
                 # Process individually for other model types
                 batch_embeddings = []
@@ -268,8 +282,9 @@ class EmbeddingProcessor(DocumentProcessor):
             return 0
 
         # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        if self._dimension is None:
+            self._compute_embedding("test")
+        return self._dimension
 
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
-- 
2.43.0


From fe652d2f1f4af09f95fd4710c3ab07ba02bb03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 27/87] fix: Docling chunks name the element they start at

---
 src/valori/parsers/docling_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/docling_parser.py b/src/valori/parsers/docling_parser.py
index 0bd9471..acfc0f8 100644
--- a/src/valori/parsers/docling_parser.py
+++ b/src/valori/parsers/docling_parser.py
@@ -169,6 +169,7 @@ class DoclingParser(DocumentParser):
         chunks = []
         chunk_id = 0
         current_text = ""
+        start_element = 0
 
         for i, text_element in enumerate(text_elements):
             current_text += text_element + "\n"
@@ -179,7 +180,7 @@ class DoclingParser(DocumentParser):
                     {
                         "id": chunk_id,
                         "text": current_text.strip(),
-                        "start_element": chunk_id * self.chunk_size,
+                        "start_element": start_element,
                         "end_element": i,
                         "metadata": {
                             "chunk_type": "docling_segment",
@@ -189,6 +190,7 @@ class DoclingParser(DocumentParser):
                 )
                 chunk_id += 1
                 current_text = ""
+                start_element = i + 1
 
         # Add remaining text
         if current_text.strip():
@@ -196,7 +198,7 @@ class DoclingParser(DocumentParser):
                 {
                     "id": chunk_id,
                     "text": current_text.strip(),
-                    "start_element": chunk_id * self.chunk_size,
+                    "start_element": start_element,
                     "end_element": len(text_elements) - 1,
                     "metadata": {
                         "chunk_type": "docling_segment",
-- 
2.43.0


From 3f8c9cac471055fe36c96cf61a9eb2f7c3c82847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 28/87] fix: HNSW, IVF and LSH measure integer vectors without
 wrapping around

---
 src/valori/indices/hnsw.py | 3 +++
 src/valori/indices/ivf.py  | 3 +++
 src/valori/indices/lsh.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 428d4b7..7c0a2a3 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -360,6 +360,9 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arithmetic would wrap around
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 4a38c59..2db8877 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -405,6 +405,9 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arithmetic would wrap around
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index ddca7f6..7348d2c 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -405,6 +405,9 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer arithmetic would wrap around
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From 5569eb75d92af480c186f67a7f07e3a935236d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 29/87] fix: a client used from several threads runs one index
 operation at a time

---
 src/valori/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..f089963 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,7 @@
 High-level client for the Valori vector database.
 """
 
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -46,6 +47,8 @@ class VectorDBClient:
         self.persistence_manager = persistence_manager
         self.config = config or {}
         self._initialized = False
+        # Indexes are not thread-safe: one operation at a time
+        self._lock = RLock()
 
     def initialize(self) -> None:
         """Initialize all components."""
@@ -70,21 +73,24 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.insert(vectors, metadata)
+        with self._lock:
+            return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.search(query_vector, k)
+        with self._lock:
+            return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.delete(ids)
+        with self._lock:
+            return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
@@ -93,7 +99,8 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.update(id, vector, metadata)
+        with self._lock:
+            return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
-- 
2.43.0


From 58998eae066986c515221d765b5ff3defdf32857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 30/87] fix: parallel batch insert returns ids in the order of
 the vectors

---
 src/valori/utils/batch_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..5d7b336 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -194,7 +194,7 @@ class BatchManager:
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-        all_ids = []
+        ids_of_batch: Dict[int, List[int]] = {}
 
         # Create batches
         batches = []
@@ -233,7 +233,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_of_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -249,7 +249,7 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        return [id for _, ids in sorted(ids_of_batch.items()) for id in ids]
 
     def _print_progress(self):
         """Print progress information."""
-- 
2.43.0


From d825e5612a770b7e9a12f28a6ecbbe583c462df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 31/87] fix: batch statistics describe the last run, not a mix
 of all runs

---
 src/valori/utils/batch_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 5d7b336..d01478a 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -74,6 +74,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
@@ -130,6 +131,7 @@ class BatchManager:
         Returns:
             List of search results for each query
         """
+        self.reset_stats()
         self._stats["total_items"] = len(query_vectors)
         self._stats["start_time"] = time.time()
 
@@ -191,6 +193,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-- 
2.43.0


From a9574f9f7ce9c47db34e0038cb21db225fe27a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 32/87] fix: a progress tracker over nothing can finish

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index d01478a..03db851 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -334,7 +334,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From ed5e5ec990307472ca2443178519fdf2a3732efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 33/87] fix: hybrid storage with a memory limit of zero keeps
 nothing in memory

---
 src/valori/storage/hybrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..d070865 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -69,7 +69,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Remove oldest vector from memory (simple LRU approximation)
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
@@ -79,7 +79,7 @@ class HybridStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector, preferring memory over disk."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -101,7 +101,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Evict and promote
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
-- 
2.43.0


From bbb4ac9155b113560fe74439b15f845da590772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 34/87] fix: HNSW heeds the number of links that the ready-made
 configurations set as "M"

---
 src/valori/indices/hnsw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 7c0a2a3..e2a1875 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -29,7 +29,8 @@ class HNSWIndex(Index):
     def __init__(self, config: Dict[str, Any]):
         """Initialize HNSW index."""
         super().__init__(config)
-        self.m = config.get("m", 16)  # Number of bi-directional links
+        # Number of bi-directional links, spelled "M" in the ready-made configurations
+        self.m = config.get("m", config.get("M", 16))
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
-- 
2.43.0


From f458290904bd956b547dfc9e2135ff31df74c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 35/87] fix: get_recommended_config finds the configurations it
 recommends

---
 src/valori/configs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..9f6b938 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -462,27 +462,30 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "flat")
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
         elif use_case == "accuracy":
-            index_config = get_config("index", "medium_dataset")["hnsw_balanced"]
+            index_config = get_config("index", "hnsw_balanced")
             index_name = "hnsw"
         else:  # balanced
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
     elif dimension > 1000:
-        index_config = get_config("index", "high_dimensional")["lsh_balanced"]
+        index_config = get_config("index", "lsh_balanced")
         index_name = "lsh"
     else:
-        index_config = get_config("index", "large_dataset")["ivf_efficient"]
+        index_config = get_config("index", "ivf_efficient")
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From 04f915b405e86218d4662663bd8b84e513982316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 36/87] fix: changing a configuration that get_config returned
 leaves the template alone

---
 src/valori/configs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 9f6b938..f6f0dbb 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+import copy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -389,11 +390,11 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
     if category == "index":
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
+                return copy.deepcopy(configs[name])
     else:
         if name not in category_configs:
             raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+        return copy.deepcopy(category_configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
-- 
2.43.0


From 6b9cb99ffee94678aea1d757286e3d772e25d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 37/87] fix: create_vector_db works without an expected size

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..90e1360 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -48,7 +48,9 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From f9640d07c03ca88d4470eb5c4f216998fda89803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 38/87] fix: a search database over an Annoy index comes ready
 to search

---
 src/valori/factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 90e1360..f4eeb56 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -173,6 +173,8 @@ def create_semantic_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    if hasattr(client.index, "build"):
+        client.index.build()
 
     return client
 
@@ -211,6 +213,8 @@ def create_image_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    if hasattr(client.index, "build"):
+        client.index.build()
 
     return client
 
@@ -266,6 +270,8 @@ def create_hybrid_search_db(
 
     # Add vectors
     client.insert(vectors, combined_metadata)
+    if hasattr(client.index, "build"):
+        client.index.build()
 
     return client
 
-- 
2.43.0


From bd6967e80a80aaf4fe2d608eacb662dc0e5d8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 39/87] fix: validating a vector of text or objects raises
 ValidationError

---
 src/valori/utils/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..7b916b0 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -35,6 +35,9 @@ def validate_vector(
     if not isinstance(vector, np.ndarray):
         raise ValidationError("Vector must be a numpy array")
 
+    if vector.dtype.kind not in "biufc":
+        raise ValidationError("Vector must be numeric")
+
     if vector.ndim != 1:
         raise ValidationError("Vector must be 1D")
 
@@ -94,6 +97,9 @@ def validate_vectors(
     if not isinstance(vectors, np.ndarray):
         raise ValidationError("Vectors must be a numpy array")
 
+    if vectors.dtype.kind not in "biufc":
+        raise ValidationError("Vectors must be numeric")
+
     if vectors.ndim != 2:
         raise ValidationError("Vectors must be 2D array")
 
-- 
2.43.0


From 7d03dd3b030f327c0ae47dc7d076f1705298e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 40/87] fix: similarity functions measure integer vectors
 without wrapping around

---
 src/valori/utils/similarity.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index b3b7ae5..5b32143 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -7,6 +7,11 @@ from typing import Union
 import numpy as np
 
 
+def _as_floats(a: np.ndarray) -> np.ndarray:
+    """Convert to floating point, as integer arithmetic would wrap around."""
+    return np.asarray(a, dtype=np.result_type(a, np.float64))
+
+
 def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     """
     Compute cosine similarity between two vectors.
@@ -24,6 +29,8 @@ def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_floats(a), _as_floats(b)
+
     # Compute dot product
     dot_product = np.dot(a, b)
 
@@ -74,7 +81,7 @@ def euclidean_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.linalg.norm(a - b)
+    return np.linalg.norm(_as_floats(a) - _as_floats(b))
 
 
 def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
@@ -94,7 +101,7 @@ def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    diff = a - b
+    diff = _as_floats(a) - _as_floats(b)
     return np.dot(diff, diff)
 
 
@@ -115,7 +122,7 @@ def dot_product(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.dot(a, b)
+    return np.dot(_as_floats(a), _as_floats(b))
 
 
 def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -135,7 +142,7 @@ def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.sum(np.abs(a - b))
+    return np.sum(np.abs(_as_floats(a) - _as_floats(b)))
 
 
 def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -155,7 +162,7 @@ def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
-    return np.max(np.abs(a - b))
+    return np.max(np.abs(_as_floats(a) - _as_floats(b)))
 
 
 def hamming_distance(a: np.ndarray, b: np.ndarray) -> float:
@@ -243,6 +250,8 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if vector.ndim != 1:
         raise ValueError("Vector must be 1D")
 
+    vector = _as_floats(vector)
+
     if norm == "l2":
         norm_value = np.linalg.norm(vector)
     elif norm == "l1":
@@ -275,6 +284,8 @@ def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.
     if vectors_a.shape[1] != vectors_b.shape[1]:
         raise ValueError("Vectors must have the same dimension")
 
+    vectors_a, vectors_b = _as_floats(vectors_a), _as_floats(vectors_b)
+
     # Compute dot products
     dot_products = np.dot(vectors_a, vectors_b.T)
 
-- 
2.43.0


From accee29d594a1d5e94a21fd8f98d9ff1abf0894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 41/87] fix: vector files read back with their shape, and
 pickles under either suffix

---
 src/valori/utils/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..a94f281 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -114,7 +114,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0)), []
 
     return np.array(all_vectors), all_metadata
 
@@ -309,7 +309,7 @@ def load_vectors_from_file(
         vectors = data["vectors"]
         metadata = data["metadata"].tolist()
 
-    elif filepath.suffix == ".pkl":
+    elif filepath.suffix in (".pkl", ".pickle"):
         with open(filepath, "rb") as f:
             data = pickle.load(f)
             vectors = data["vectors"]
@@ -318,7 +318,7 @@ def load_vectors_from_file(
     elif filepath.suffix == ".json":
         with open(filepath, "r") as f:
             data = json.load(f)
-            vectors = np.array(data["vectors"])
+            vectors = np.array(data["vectors"]).reshape(data["shape"])
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From 5f25835cd604d41879cf4d6b6ec3926593868fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 42/87] fix: disk storage notices when a small vector could not
 be written

---
 src/valori/storage/disk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index fafcc21..e8f18b7 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -2,6 +2,7 @@
 Disk-based storage backend for the valori vector database.
 """
 
+import io
 import os
 import pickle
 from pathlib import Path
@@ -211,8 +212,11 @@ class DiskStorage(StorageBackend):
 
         try:
             with open(vector_tmp, "wb") as f:
+                # Written by f, not by numpy, which misses that the disk is full.
                 # An object array would be pickled, and could not be read back
-                np.save(f, vector, allow_pickle=False)
+                buffer = io.BytesIO()
+                np.save(buffer, vector, allow_pickle=False)
+                f.write(buffer.getbuffer())
 
             if metadata is not None:
                 with open(metadata_tmp, "wb") as f:
-- 
2.43.0


From ab32a74a88965aec2323784f00cd08a87e586950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 43/87] fix: Annoy searches a loaded index with the effort its
 number of trees needs

---
 src/valori/indices/annoy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 25dd919..4d0d197 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -267,10 +267,10 @@ class AnnoyIndex(Index):
         # Convert query vector to float32
         query_vector = query_vector.astype(np.float32)
 
-        # Determine search_k
-        search_k = (
-            self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
-        )
+        # Determine search_k (a loaded index may have more trees than configured)
+        search_k = self.search_k
+        if search_k <= 0:
+            search_k = self._annoy_index.get_n_trees() * len(self.vectors)
 
         # Search for nearest neighbors (removed ones are still in the trees)
         removed = sum(1 for v in self.vectors if v is None)
-- 
2.43.0


From 6f513e8f1e620c1781dff07ccfca8b56077daad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 44/87] fix: scalar quantization takes the range of integer
 vectors without wrapping around

---
 src/valori/quantization/scalar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index daa6ada..541cca6 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -57,6 +57,9 @@ class ScalarQuantizer(Quantizer):
 
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
+            if not np.issubdtype(vectors.dtype, np.floating):
+                # The range of small integers may not fit their own type
+                vectors = vectors.astype(np.float64)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
-- 
2.43.0


From c9a719334f0cd1f2476f5eed1bd248e8fb3514e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 45/87] fix: SAQ trained again on more dimensions uses its
 configured number of segments

---
 src/valori/quantization/saq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 057e2cc..a602274 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -96,6 +96,8 @@ class SAQQuantizer(Quantizer):
             if vectors.size == 0 or not np.isfinite(vectors).all():
                 raise QuantizationError("Vectors must contain only finite values")
             self.dim = int(dim)
+            # Earlier training on fewer dimensions may have used fewer segments
+            self.n_segments = self.config.get("n_segments", 8)
 
             # Store full-precision vectors for rescoring
             self.full_precision_vectors = vectors.astype(np.float32)
-- 
2.43.0


From 443e566035f427cd12ccc7476a66d0f276fade4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 46/87] fix: incremental persistence leaves no part of a log
 line that could not be written

---
 src/valori/persistence/incremental.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 594e6e9..3fbd721 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -3,6 +3,7 @@ Incremental persistence implementation for the valori vector database.
 """
 
 import json
+import os
 import pickle
 from datetime import datetime
 from pathlib import Path
@@ -244,8 +245,16 @@ class IncrementalPersistence(PersistenceManager):
                 "operation_id": self._operation_count,
             }
 
-            with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry, default=str) + "\n")
+            line = json.dumps(log_entry, default=str) + "\n"
+            size = self.log_file.stat().st_size if self.log_file.exists() else 0
+            try:
+                with open(self.log_file, "a") as f:
+                    f.write(line)
+            except OSError:
+                # Leave no part of a line for the next one to be appended to
+                if self.log_file.exists():
+                    os.truncate(self.log_file, size)
+                raise
 
             self._operation_count += 1
 
-- 
2.43.0


From c05d56b57106f64f41e9586cc2c87f221ea15fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 47/87] fix: sliding windows over nothing but blanks are no
 chunks

---
 src/valori/processors/chunking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 6c73344..4796591 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -182,7 +182,7 @@ class ChunkingProcessor(DocumentProcessor):
             end = min(i + window_size, len(text))
             chunk_text = text[i:end].strip()
 
-            if len(chunk_text) >= self.min_chunk_size:
+            if chunk_text and len(chunk_text) >= self.min_chunk_size:
                 chunks.append(
                     {
                         "id": len(chunks),
-- 
2.43.0


From a61cff7b2d74c55631f64a65c5b1273638050f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 48/87] fix: similarity matrices and normalization of integer
 vectors do not wrap around

---
 src/valori/utils/helpers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index a94f281..c61545e 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -119,6 +119,11 @@ def create_vectors_from_files(
     return np.array(all_vectors), all_metadata
 
 
+def _without_integers(vectors: np.ndarray) -> np.ndarray:
+    """Convert integers to floating point, as their arithmetic would wrap around."""
+    return vectors.astype(np.float64) if vectors.dtype.kind in "biu" else vectors
+
+
 def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     """
     Normalize vectors using various methods.
@@ -130,6 +135,8 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
+    vectors = _without_integers(vectors)
+
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
         return vectors / (norms + 1e-8)
@@ -164,6 +171,8 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
+    vectors = _without_integers(vectors)
+
     if metric == "cosine":
         # Normalize vectors
         normalized = normalize_vectors(vectors, "l2")
-- 
2.43.0


From 0e24488b0c3a9d0b4d784582c4ed4c87f06ceed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 49/87] fix: create_document_db heeds the index configuration
 it is given

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index f4eeb56..f55ea34 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -115,7 +115,7 @@ def create_document_db(
     pipeline.initialize()
 
     # Create vector database
-    db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
+    db_config = {"index_type": index_type, "storage_type": "memory"}
 
     # Default index config for document search
     if index_type == "annoy":
@@ -132,6 +132,8 @@ def create_document_db(
             "ef_search": 50,
         }
 
+    db_config.update(kwargs)
+
     client = create_vector_db(**db_config)
 
     return client, pipeline
-- 
2.43.0


From e01361c8b1fb58ee9d73e7c88e5ad5a9b514fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 50/87] fix: normalizing half-precision zero vectors gives no
 NaN

---
 src/valori/utils/helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index c61545e..97f644d 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -119,9 +119,9 @@ def create_vectors_from_files(
     return np.array(all_vectors), all_metadata
 
 
-def _without_integers(vectors: np.ndarray) -> np.ndarray:
-    """Convert integers to floating point, as their arithmetic would wrap around."""
-    return vectors.astype(np.float64) if vectors.dtype.kind in "biu" else vectors
+def _as_floats(vectors: np.ndarray) -> np.ndarray:
+    """Convert to floats of at least single precision: integers wrap around, halves overflow."""
+    return vectors.astype(np.result_type(vectors, np.float32), copy=False)
 
 
 def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
@@ -135,7 +135,7 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
-    vectors = _without_integers(vectors)
+    vectors = _as_floats(vectors)
 
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
@@ -171,7 +171,7 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
-    vectors = _without_integers(vectors)
+    vectors = _as_floats(vectors)
 
     if metric == "cosine":
         # Normalize vectors
-- 
2.43.0


From 4168b30a096d62f1faa57980db962028df949d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 51/87] fix: a database made from a template shares no settings
 with it

---
 src/valori/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index f55ea34..838ea3a 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -413,7 +414,7 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    config = copy.deepcopy(TEMPLATES[template_name])
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From ddd219921d5c944a95606c125d55edf99de4ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 52/87] fix: IVF puts trained vectors into the clusters that
 searches probe for them

---
 src/valori/indices/ivf.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 2db8877..8f9dffe 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -314,21 +314,18 @@ class IVFIndex(Index):
 
             # Perform K-means clustering
             kmeans = KMeans(n_clusters=self.n_clusters, random_state=42, n_init=10)
-            cluster_labels = kmeans.fit_predict(vectors_array)
+            kmeans.fit(vectors_array)
 
             # Store centroids
             self.centroids = kmeans.cluster_centers_
 
-            # Build clusters
-            self.clusters.clear()
-            for i, vector_id in enumerate(valid_ids):
-                cluster_id = cluster_labels[i]
-                if cluster_id not in self.clusters:
-                    self.clusters[cluster_id] = []
-                self.clusters[cluster_id].append(vector_id)
-
             self._trained = True
 
+            # Build clusters by the metric that searches probe them by
+            self.clusters.clear()
+            for vector_id, vector in zip(valid_ids, vectors):
+                self._add_to_cluster(vector_id, vector)
+
         except Exception as e:
             raise ValoriIndexError(f"Failed to train IVF index: {str(e)}")
 
-- 
2.43.0


From fdb306b316395d8e878a3714b5a999ef25fd7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 53/87] fix: LSH statistics give sizes of buckets, not numbers
 of vectors

---
 src/valori/indices/lsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 7348d2c..85ebcbc 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -311,7 +311,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
-- 
2.43.0


From 139d914dfa581e641d0ddd41694a131f68d89b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 54/87] fix: measuring memory does not run a function twice
 when it raises ImportError

---
 src/valori/utils/helpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 97f644d..6836c81 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -357,23 +357,22 @@ def memory_usage_decorator(func):
     def wrapper(*args, **kwargs):
         try:
             import psutil
+        except ImportError:
+            print("psutil not available for memory monitoring")
+            return func(*args, **kwargs)
 
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
+        process = psutil.Process()
 
-            result = func(*args, **kwargs)
+        # Get memory before
+        mem_before = process.memory_info().rss / 1024 / 1024  # MB
 
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
+        result = func(*args, **kwargs)
 
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        # Get memory after
+        mem_after = process.memory_info().rss / 1024 / 1024  # MB
 
-        except ImportError:
-            print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
+        return result
 
     return wrapper
 
-- 
2.43.0


From 06ac0bcf212caec4f25ba2cf3ebf1fe03048a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 55/87] fix: validate_index_performance works for every index

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 6836c81..af1eed2 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -461,7 +461,7 @@ def validate_index_performance(
     # Add vectors
     start_time = time.time()
     metadata = [{"id": i} for i in range(len(test_vectors))]
-    ids = index.add(test_vectors, metadata)
+    index.insert(test_vectors, metadata)
 
     if hasattr(index, "build"):
         index.build()
-- 
2.43.0


From c9ecec884fa1d1dd83629761994b2627f111a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 56/87] fix: IndexInspector inspects HNSW indexes and leaves
 out removed vectors

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..854ed77 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -452,6 +452,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = vectors.values()
+        # Removed vectors leave an empty place behind
+        vectors = [vector for vector in vectors if vector is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 7059fb4917b9cf3c9c3c0b0a45078a025713d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 57/87] fix: VectorAnalyzer handles single and zero vectors,
 and does not report density as sparsity

---
 src/valori/utils/debugging.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 854ed77..1739092 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -154,7 +154,7 @@ class VectorAnalyzer:
             "std": float(np.std(vectors)),
             "min": float(np.min(vectors)),
             "max": float(np.max(vectors)),
-            "sparsity": float(np.count_nonzero(vectors) / vectors.size),
+            "sparsity": float(1.0 - np.count_nonzero(vectors) / vectors.size),
         }
 
     def _distribution_analysis(self, vectors: np.ndarray) -> Dict[str, Any]:
@@ -193,9 +193,9 @@ class VectorAnalyzer:
             sample_vectors = vectors
 
         # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
+        norms = np.linalg.norm(sample_vectors, axis=1, keepdims=True)
+        norms[norms == 0] = 1
+        normalized = sample_vectors / norms
 
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
@@ -204,6 +204,8 @@ class VectorAnalyzer:
         mask = np.ones_like(similarity_matrix, dtype=bool)
         np.fill_diagonal(mask, False)
         similarities = similarity_matrix[mask]
+        if similarities.size == 0:
+            similarities = np.zeros(1)
 
         return {
             "similarity_stats": {
-- 
2.43.0


From 420533cd5bfc82101bed19efa223ef249392cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 58/87] fix: a replaced record on disk never pairs an old
 vector with new metadata

---
 src/valori/storage/disk.py | 47 ++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index e8f18b7..3d08a33 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -39,6 +39,10 @@ class DiskStorage(StorageBackend):
             self.vectors_dir.mkdir(parents=True, exist_ok=True)
             self.metadata_dir.mkdir(parents=True, exist_ok=True)
 
+            # Complete replacements that were cut short
+            for path in list(self.vectors_dir.glob("*.npy.new")):
+                self._complete_record(path.name[: -len(".npy.new")])
+
             # Count existing vectors
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             self._initialized = True
@@ -76,6 +80,8 @@ class DiskStorage(StorageBackend):
         try:
             safe_id = self._sanitize_id(id)
 
+            self._complete_record(safe_id)
+
             # Load vector
             vector_path = self.vectors_dir / f"{safe_id}.npy"
             if not vector_path.exists():
@@ -103,6 +109,8 @@ class DiskStorage(StorageBackend):
         try:
             safe_id = self._sanitize_id(id)
 
+            self._complete_record(safe_id)
+
             # Delete vector file
             vector_path = self.vectors_dir / f"{safe_id}.npy"
             vector_deleted = False
@@ -133,6 +141,8 @@ class DiskStorage(StorageBackend):
         try:
             safe_id = self._sanitize_id(id)
 
+            self._complete_record(safe_id)
+
             # Check if vector exists
             vector_path = self.vectors_dir / f"{safe_id}.npy"
             if not vector_path.exists():
@@ -204,9 +214,11 @@ class DiskStorage(StorageBackend):
 
         Both files are written in full beside the old ones before either is
         replaced, so a write that fails or is cut short leaves the old record.
+        Once the new vector file is named ".npy.new", the record counts as
+        replaced: what is left to do is completed later if it is cut short.
         """
-        vector_path = self.vectors_dir / f"{safe_id}.npy"
-        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+        self._complete_record(safe_id)
+
         vector_tmp = self.vectors_dir / f"{safe_id}.npy.tmp"
         metadata_tmp = self.metadata_dir / f"{safe_id}.pkl.tmp"
 
@@ -218,19 +230,36 @@ class DiskStorage(StorageBackend):
                 np.save(buffer, vector, allow_pickle=False)
                 f.write(buffer.getbuffer())
 
-            if metadata is not None:
-                with open(metadata_tmp, "wb") as f:
-                    pickle.dump(metadata, f)
-                os.replace(metadata_tmp, metadata_path)
-            elif metadata_path.exists():
-                metadata_path.unlink()
+            with open(metadata_tmp, "wb") as f:
+                pickle.dump(metadata, f)
 
-            os.replace(vector_tmp, vector_path)
+            os.replace(vector_tmp, self.vectors_dir / f"{safe_id}.npy.new")
         except Exception:
             vector_tmp.unlink(missing_ok=True)
             metadata_tmp.unlink(missing_ok=True)
             raise
 
+        try:
+            self._complete_record(safe_id)
+        except Exception:
+            if metadata_tmp.exists():
+                # Neither file is replaced yet
+                (self.vectors_dir / f"{safe_id}.npy.new").unlink(missing_ok=True)
+                metadata_tmp.unlink()
+            raise
+
+    def _complete_record(self, safe_id: str) -> None:
+        """Put the files of a replaced record in place, if that is left to do."""
+        vector_new = self.vectors_dir / f"{safe_id}.npy.new"
+        if not vector_new.exists():
+            return
+
+        metadata_tmp = self.metadata_dir / f"{safe_id}.pkl.tmp"
+        if metadata_tmp.exists():
+            os.replace(metadata_tmp, self.metadata_dir / f"{safe_id}.pkl")
+        os.replace(vector_new, self.vectors_dir / f"{safe_id}.npy")
+        self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Percent-encode invalid characters, so that distinct IDs never share a
-- 
2.43.0


From 071c97bafe69d75469659879ff35aa4f0df41d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 59/87] fix: hybrid storage reads a record from disk after a
 write to it failed

---
 src/valori/storage/hybrid.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index d070865..a5e1ed9 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -60,7 +60,12 @@ class HybridStorage(StorageBackend):
         try:
             with self.lock:
                 # Always store in disk for persistence
-                disk_success = self.disk_storage.store_vector(id, vector, metadata)
+                try:
+                    disk_success = self.disk_storage.store_vector(id, vector, metadata)
+                except Exception:
+                    # What a failed write left is for the disk to say
+                    self.memory_storage.delete_vector(id)
+                    raise
 
                 # Store in memory if we have space
                 if disk_success:
@@ -137,7 +142,12 @@ class HybridStorage(StorageBackend):
         try:
             with self.lock:
                 # Update in disk
-                disk_success = self.disk_storage.update_vector(id, vector, metadata)
+                try:
+                    disk_success = self.disk_storage.update_vector(id, vector, metadata)
+                except Exception:
+                    # What a failed write left is for the disk to say
+                    self.memory_storage.delete_vector(id)
+                    raise
 
                 # Update in memory if it exists there
                 if disk_success:
-- 
2.43.0


From c9dc73f45b6455c5fc0d4850aee688132071ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 60/87] fix: a cleared LSH index takes vectors of any dimension
 and hashes like a new one

---
 src/valori/indices/lsh.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 85ebcbc..f8480c7 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -302,6 +302,12 @@ class LSHIndex(Index):
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._next_id = 0
 
+        # The next vectors may have another dimension
+        self.dimension = None
+        self.projections = None
+        self.offsets = None
+        self.rng = np.random.RandomState(self.random_seed)
+
     def get_stats(self) -> Dict[str, Any]:
         """Get index statistics."""
         active_vectors = sum(1 for v in self.vectors if v is not None)
-- 
2.43.0


From 0d3f4e2914a3c15bf1ec8b7f4f3644c0cba5d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 61/87] fix: LSH and Annoy indexes initialized again keep
 finding their vectors and leave no file behind

---
 src/valori/indices/annoy.py | 2 +-
 src/valori/indices/lsh.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 4d0d197..f46dd65 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -73,7 +73,7 @@ class AnnoyIndex(Index):
         if storage_backend is not None:
             self.storage_backend = storage_backend
 
-        if self.build_on_disk:
+        if self.build_on_disk and self._temp_file is None:
             # Create temporary file for on-disk building
             fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
             os.close(fd)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index f8480c7..3e3d712 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -61,8 +61,12 @@ class LSHIndex(Index):
 
     def initialize(self, storage_backend: Optional[StorageBackend] = None) -> None:
         """Initialize the LSH index."""
-        # Initialize hash tables
+        # Initialize hash tables, with the vectors there may be already
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        for vector_id, vector in enumerate(self.vectors):
+            if vector is not None:
+                for table_idx, hash_code in enumerate(self._hash_vector(vector)):
+                    self.hash_tables[table_idx][hash_code].append(vector_id)
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
-- 
2.43.0


From 9ea0f2b8035bfe7e90f13e5bef42bb275671a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 62/87] fix: an Annoy index that fails to load stays as it was,
 and an empty one is not silently left unsaved

---
 src/valori/indices/annoy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index f46dd65..1c2b694 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -397,6 +397,9 @@ class AnnoyIndex(Index):
         if not self._built:
             raise ValoriIndexError("Index not built. Call build() before saving.")
 
+        if self._annoy_index is None:
+            raise ValoriIndexError("Index has no vectors to save.")
+
         if self._annoy_index is not None:
             # Save the Annoy index
             self._annoy_index.save(filepath)
@@ -425,6 +428,16 @@ class AnnoyIndex(Index):
         if not os.path.exists(filepath):
             raise ValoriIndexError(f"Index file not found: {filepath}")
 
+        before = dict(self.__dict__)
+        try:
+            self._load_files(filepath)
+        except Exception as e:
+            # Nothing is loaded from files that cannot all be read
+            self.__dict__.update(before)
+            raise ValoriIndexError(f"Failed to load index: {str(e)}")
+
+    def _load_files(self, filepath: str) -> None:
+        """Take over the index, the vectors and the metadata saved in files."""
         # Load metadata first
         import json
 
-- 
2.43.0


From ed9113861e3a768f837abaeb7d6b805073c3340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 63/87] fix: an index that cannot read its storage is not
 initialized

---
 src/valori/indices/flat.py | 4 +++-
 src/valori/indices/hnsw.py | 4 +++-
 src/valori/indices/ivf.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index d529c5b..aab5668 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -33,7 +33,7 @@ class FlatIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the flat index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Load existing vectors if any
         try:
@@ -45,6 +45,8 @@ class FlatIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
 
+        self._initialized = True
+
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
     ) -> List[str]:
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e2a1875..f80adb1 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -46,7 +46,7 @@ class HNSWIndex(Index):
     def initialize(self, storage_backend) -> None:
         """Initialize the HNSW index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Initialize level 0
         self.levels = [{}]
@@ -66,6 +66,8 @@ class HNSWIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize HNSW index: {str(e)}")
 
+        self._initialized = True
+
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
     ) -> List[str]:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 8f9dffe..b252a64 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -40,7 +40,7 @@ class IVFIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the IVF index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Load existing vectors if any
         try:
@@ -59,6 +59,8 @@ class IVFIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize IVF index: {str(e)}")
 
+        self._initialized = True
+
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
     ) -> List[str]:
-- 
2.43.0


From 9ccde76e509320ae25cb58dce09fc750dc548db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 64/87] fix: configuration ranges cover NaN and NumPy numbers;
 metadata nested too deeply is refused

---
 src/valori/utils/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7b916b0..d9cf4c3 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -188,8 +188,8 @@ def validate_config(
         for key, (min_val, max_val) in value_ranges.items():
             if key in config:
                 value = config[key]
-                if isinstance(value, (int, float)):
-                    if value < min_val or value > max_val:
+                if isinstance(value, (int, float, np.integer, np.floating)):
+                    if not min_val <= value <= max_val:
                         raise ValidationError(
                             f"Key '{key}' value {value} is outside range [{min_val}, {max_val}]"
                         )
@@ -340,7 +340,7 @@ def validate_metadata(metadata: Optional[Dict[str, Any]]) -> bool:
             import json
 
             json.dumps(value)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, RecursionError):
             raise ValidationError(
                 f"Metadata value for key '{key}' is not JSON serializable"
             )
-- 
2.43.0


From 41926b4874caa9e7b6ff1d35ef206f89f40e7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 65/87] fix: spreadsheets with chart sheets are parsed

---
 src/valori/parsers/office_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index def91f2..cc587c3 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -151,6 +151,8 @@ class OfficeParser(DocumentParser):
 
         for sheet_name in workbook.sheetnames:
             sheet = workbook[sheet_name]
+            if sheet in workbook.chartsheets:
+                continue  # Has no cells
             sheet_text = []
 
             for row in sheet.iter_rows(values_only=True):
-- 
2.43.0


From e890be4a22458f57ab892112cd9e44b52adf638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 66/87] fix: the query history keeps its own copy of each
 analysis

---
 src/valori/utils/debugging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 1739092..720f4b5 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -5,6 +5,7 @@ This module provides tools for debugging, monitoring, and analyzing
 vector database performance and behavior.
 """
 
+import copy
 import functools
 import inspect
 import json
@@ -333,7 +334,7 @@ class QueryAnalyzer:
             )
 
         # Store in history
-        self.query_history.append(analysis)
+        self.query_history.append(copy.deepcopy(analysis))
 
         return analysis
 
-- 
2.43.0


From 63be7f7e9baa693ab6e7d9b56f36a7a48f27b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 67/87] fix: log messages are written once, and at the level
 that was set up

---
 src/valori/utils/debugging.py |   7 +
 src/valori/utils/logging.py   | 566 ++++++++++++++++++----------------
 2 files changed, 302 insertions(+), 271 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 720f4b5..fe9faa2 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -18,6 +18,7 @@ from typing import Any, Callable, Dict, List, Optional, Union
 import numpy as np
 
 from ..exceptions import ValidationError
+from .logging import release_handlers
 
 
 class PerformanceProfiler:
@@ -414,6 +415,12 @@ def setup_logging(level: str = "INFO", log_file: Optional[str] = None):
     logger = logging.getLogger("valori")
     logger.setLevel(log_level)
 
+    # Clear existing handlers
+    for handler in logger.handlers[:]:
+        logger.removeHandler(handler)
+        handler.close()
+    release_handlers("valori")
+
     # Console handler
     console_handler = logging.StreamHandler()
     console_handler.setFormatter(formatter)
diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index af6b49d..9ad2fa0 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -1,271 +1,295 @@
-"""
-Logging utilities for the valori vector database.
-"""
-
-import logging
-import sys
-from pathlib import Path
-from typing import Any, Dict, Optional
-
-
-def get_logger(name: str, level: str = "INFO") -> logging.Logger:
-    """
-    Get a logger instance for the given name.
-
-    Args:
-        name: Logger name (typically __name__)
-        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL)
-
-    Returns:
-        Configured logger instance
-    """
-    logger = logging.getLogger(name)
-
-    # Don't add handlers if they already exist
-    if logger.handlers:
-        return logger
-
-    # Set level
-    numeric_level = getattr(logging, level.upper(), logging.INFO)
-    logger.setLevel(numeric_level)
-
-    # Create formatter
-    formatter = logging.Formatter(
-        "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-        datefmt="%Y-%m-%d %H:%M:%S",
-    )
-
-    # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
-    console_handler.setLevel(numeric_level)
-    console_handler.setFormatter(formatter)
-    logger.addHandler(console_handler)
-
-    return logger
-
-
-def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
-    """
-    Setup logging configuration for the entire application.
-
-    Args:
-        config: Logging configuration dictionary
-    """
-    if config is None:
-        config = {}
-
-    # Default configuration
-    default_config = {
-        "level": "INFO",
-        "format": "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-        "date_format": "%Y-%m-%d %H:%M:%S",
-        "log_to_file": False,
-        "log_file": "valori.log",
-        "max_file_size": 10 * 1024 * 1024,  # 10MB
-        "backup_count": 5,
-    }
-
-    # Merge with provided config
-    config = {**default_config, **config}
-
-    # Get logging level
-    level = getattr(logging, config["level"].upper(), logging.INFO)
-
-    # Create formatter
-    formatter = logging.Formatter(config["format"], datefmt=config["date_format"])
-
-    # Configure root logger
-    root_logger = logging.getLogger()
-    root_logger.setLevel(level)
-
-    # Clear existing handlers
-    root_logger.handlers.clear()
-
-    # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
-    console_handler.setLevel(level)
-    console_handler.setFormatter(formatter)
-    root_logger.addHandler(console_handler)
-
-    # Create file handler if requested
-    if config["log_to_file"]:
-        log_file = Path(config["log_file"])
-
-        # Create log directory if it doesn't exist
-        log_file.parent.mkdir(parents=True, exist_ok=True)
-
-        # Create rotating file handler
-        from logging.handlers import RotatingFileHandler
-
-        file_handler = RotatingFileHandler(
-            log_file,
-            maxBytes=config["max_file_size"],
-            backupCount=config["backup_count"],
-        )
-        file_handler.setLevel(level)
-        file_handler.setFormatter(formatter)
-        root_logger.addHandler(file_handler)
-
-
-def log_performance(func_name: str, duration: float, **kwargs) -> None:
-    """
-    Log performance metrics for a function.
-
-    Args:
-        func_name: Name of the function
-        duration: Execution duration in seconds
-        **kwargs: Additional metrics to log
-    """
-    logger = get_logger("valori.performance")
-
-    metrics = {"function": func_name, "duration": duration, **kwargs}
-
-    logger.info(f"Performance: {metrics}")
-
-
-def log_memory_usage(operation: str, memory_before: int, memory_after: int) -> None:
-    """
-    Log memory usage for an operation.
-
-    Args:
-        operation: Name of the operation
-        memory_before: Memory usage before operation (bytes)
-        memory_after: Memory usage after operation (bytes)
-    """
-    logger = get_logger("valori.memory")
-
-    memory_delta = memory_after - memory_before
-    memory_delta_mb = memory_delta / (1024 * 1024)
-
-    logger.info(f"Memory usage - {operation}: {memory_delta_mb:.2f} MB delta")
-
-
-def log_vector_operation(
-    operation: str, vector_count: int, vector_dim: int, **kwargs
-) -> None:
-    """
-    Log vector operation metrics.
-
-    Args:
-        operation: Name of the operation
-        vector_count: Number of vectors processed
-        vector_dim: Dimension of vectors
-        **kwargs: Additional operation-specific metrics
-    """
-    logger = get_logger("valori.operations")
-
-    metrics = {
-        "operation": operation,
-        "vector_count": vector_count,
-        "vector_dim": vector_dim,
-        **kwargs,
-    }
-
-    logger.info(f"Vector operation: {metrics}")
-
-
-def log_index_stats(index_type: str, vector_count: int, **stats) -> None:
-    """
-    Log index statistics.
-
-    Args:
-        index_type: Type of index
-        vector_count: Number of vectors in index
-        **stats: Additional index statistics
-    """
-    logger = get_logger("valori.index")
-
-    metrics = {"index_type": index_type, "vector_count": vector_count, **stats}
-
-    logger.info(f"Index stats: {metrics}")
-
-
-def log_search_query(
-    query_vector_dim: int, k: int, results_count: int, duration: float
-) -> None:
-    """
-    Log search query metrics.
-
-    Args:
-        query_vector_dim: Dimension of query vector
-        k: Number of results requested
-        results_count: Number of results returned
-        duration: Search duration in seconds
-    """
-    logger = get_logger("valori.search")
-
-    metrics = {
-        "query_vector_dim": query_vector_dim,
-        "k": k,
-        "results_count": results_count,
-        "duration": duration,
-    }
-
-    logger.info(f"Search query: {metrics}")
-
-
-def log_error(error: Exception, context: Optional[str] = None) -> None:
-    """
-    Log an error with context.
-
-    Args:
-        error: Exception that occurred
-        context: Additional context information
-    """
-    logger = get_logger("valori.error")
-
-    error_info = {
-        "error_type": type(error).__name__,
-        "error_message": str(error),
-        "context": context,
-    }
-
-    logger.error(f"Error occurred: {error_info}", exc_info=True)
-
-
-def log_warning(message: str, **kwargs) -> None:
-    """
-    Log a warning message.
-
-    Args:
-        message: Warning message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.warning")
-
-    if kwargs:
-        logger.warning(f"{message} - Context: {kwargs}")
-    else:
-        logger.warning(message)
-
-
-def log_info(message: str, **kwargs) -> None:
-    """
-    Log an info message.
-
-    Args:
-        message: Info message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.info")
-
-    if kwargs:
-        logger.info(f"{message} - Context: {kwargs}")
-    else:
-        logger.info(message)
-
-
-def log_debug(message: str, **kwargs) -> None:
-    """
-    Log a debug message.
-
-    Args:
-        message: Debug message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.debug")
-
-    if kwargs:
-        logger.debug(f"{message} - Context: {kwargs}")
-    else:
-        logger.debug(message)
+"""
+Logging utilities for the valori vector database.
+"""
+
+import logging
+import sys
+from pathlib import Path
+from typing import Any, Dict, Optional
+
+
+# Console handlers of the loggers that have one of their own
+_own_handlers: Dict[str, logging.Handler] = {}
+
+
+def release_handlers(name: str = "") -> None:
+    """
+    Give up the own handlers below a logger whose handlers take over.
+
+    Args:
+        name: Name of that logger (the root logger by default)
+    """
+    for own in list(_own_handlers):
+        if not name or own == name or own.startswith(name + "."):
+            logger = logging.getLogger(own)
+            logger.removeHandler(_own_handlers.pop(own))
+            logger.setLevel(logging.NOTSET)
+
+
+def get_logger(name: str, level: str = "INFO") -> logging.Logger:
+    """
+    Get a logger instance for the given name.
+
+    Args:
+        name: Logger name (typically __name__)
+        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL)
+
+    Returns:
+        Configured logger instance
+    """
+    logger = logging.getLogger(name)
+
+    # Don't add handlers if messages are written somewhere already
+    if logger.hasHandlers():
+        return logger
+
+    release_handlers(name)
+
+    # Set level
+    numeric_level = getattr(logging, level.upper(), logging.INFO)
+    logger.setLevel(numeric_level)
+
+    # Create formatter
+    formatter = logging.Formatter(
+        "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+        datefmt="%Y-%m-%d %H:%M:%S",
+    )
+
+    # Create console handler
+    console_handler = logging.StreamHandler(sys.stdout)
+    console_handler.setLevel(numeric_level)
+    console_handler.setFormatter(formatter)
+    logger.addHandler(console_handler)
+    _own_handlers[name] = console_handler
+
+    return logger
+
+
+def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
+    """
+    Setup logging configuration for the entire application.
+
+    Args:
+        config: Logging configuration dictionary
+    """
+    if config is None:
+        config = {}
+
+    # Default configuration
+    default_config = {
+        "level": "INFO",
+        "format": "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+        "date_format": "%Y-%m-%d %H:%M:%S",
+        "log_to_file": False,
+        "log_file": "valori.log",
+        "max_file_size": 10 * 1024 * 1024,  # 10MB
+        "backup_count": 5,
+    }
+
+    # Merge with provided config
+    config = {**default_config, **config}
+
+    # Get logging level
+    level = getattr(logging, config["level"].upper(), logging.INFO)
+
+    # Create formatter
+    formatter = logging.Formatter(config["format"], datefmt=config["date_format"])
+
+    # Configure root logger
+    root_logger = logging.getLogger()
+    root_logger.setLevel(level)
+
+    # Clear existing handlers
+    for handler in root_logger.handlers[:]:
+        root_logger.removeHandler(handler)
+        handler.close()
+    release_handlers()
+
+    # Create console handler
+    console_handler = logging.StreamHandler(sys.stdout)
+    console_handler.setLevel(level)
+    console_handler.setFormatter(formatter)
+    root_logger.addHandler(console_handler)
+
+    # Create file handler if requested
+    if config["log_to_file"]:
+        log_file = Path(config["log_file"])
+
+        # Create log directory if it doesn't exist
+        log_file.parent.mkdir(parents=True, exist_ok=True)
+
+        # Create rotating file handler
+        from logging.handlers import RotatingFileHandler
+
+        file_handler = RotatingFileHandler(
+            log_file,
+            maxBytes=config["max_file_size"],
+            backupCount=config["backup_count"],
+        )
+        file_handler.setLevel(level)
+        file_handler.setFormatter(formatter)
+        root_logger.addHandler(file_handler)
+
+
+def log_performance(func_name: str, duration: float, **kwargs) -> None:
+    """
+    Log performance metrics for a function.
+
+    Args:
+        func_name: Name of the function
+        duration: Execution duration in seconds
+        **kwargs: Additional metrics to log
+    """
+    logger = get_logger("valori.performance")
+
+    metrics = {"function": func_name, "duration": duration, **kwargs}
+
+    logger.info(f"Performance: {metrics}")
+
+
+def log_memory_usage(operation: str, memory_before: int, memory_after: int) -> None:
+    """
+    Log memory usage for an operation.
+
+    Args:
+        operation: Name of the operation
+        memory_before: Memory usage before operation (bytes)
+        memory_after: Memory usage after operation (bytes)
+    """
+    logger = get_logger("valori.memory")
+
+    memory_delta = memory_after - memory_before
+    memory_delta_mb = memory_delta / (1024 * 1024)
+
+    logger.info(f"Memory usage - {operation}: {memory_delta_mb:.2f} MB delta")
+
+
+def log_vector_operation(
+    operation: str, vector_count: int, vector_dim: int, **kwargs
+) -> None:
+    """
+    Log vector operation metrics.
+
+    Args:
+        operation: Name of the operation
+        vector_count: Number of vectors processed
+        vector_dim: Dimension of vectors
+        **kwargs: Additional operation-specific metrics
+    """
+    logger = get_logger("valori.operations")
+
+    metrics = {
+        "operation": operation,
+        "vector_count": vector_count,
+        "vector_dim": vector_dim,
+        **kwargs,
+    }
+
+    logger.info(f"Vector operation: {metrics}")
+
+
+def log_index_stats(index_type: str, vector_count: int, **stats) -> None:
+    """
+    Log index statistics.
+
+    Args:
+        index_type: Type of index
+        vector_count: Number of vectors in index
+        **stats: Additional index statistics
+    """
+    logger = get_logger("valori.index")
+
+    metrics = {"index_type": index_type, "vector_count": vector_count, **stats}
+
+    logger.info(f"Index stats: {metrics}")
+
+
+def log_search_query(
+    query_vector_dim: int, k: int, results_count: int, duration: float
+) -> None:
+    """
+    Log search query metrics.
+
+    Args:
+        query_vector_dim: Dimension of query vector
+        k: Number of results requested
+        results_count: Number of results returned
+        duration: Search duration in seconds
+    """
+    logger = get_logger("valori.search")
+
+    metrics = {
+        "query_vector_dim": query_vector_dim,
+        "k": k,
+        "results_count": results_count,
+        "duration": duration,
+    }
+
+    logger.info(f"Search query: {metrics}")
+
+
+def log_error(error: Exception, context: Optional[str] = None) -> None:
+    """
+    Log an error with context.
+
+    Args:
+        error: Exception that occurred
+        context: Additional context information
+    """
+    logger = get_logger("valori.error")
+
+    error_info = {
+        "error_type": type(error).__name__,
+        "error_message": str(error),
+        "context": context,
+    }
+
+    logger.error(f"Error occurred: {error_info}", exc_info=True)
+
+
+def log_warning(message: str, **kwargs) -> None:
+    """
+    Log a warning message.
+
+    Args:
+        message: Warning message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.warning")
+
+    if kwargs:
+        logger.warning(f"{message} - Context: {kwargs}")
+    else:
+        logger.warning(message)
+
+
+def log_info(message: str, **kwargs) -> None:
+    """
+    Log an info message.
+
+    Args:
+        message: Info message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.info")
+
+    if kwargs:
+        logger.info(f"{message} - Context: {kwargs}")
+    else:
+        logger.info(message)
+
+
+def log_debug(message: str, **kwargs) -> None:
+    """
+    Log a debug message.
+
+    Args:
+        message: Debug message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.debug")
+
+    if kwargs:
+        logger.debug(f"{message} - Context: {kwargs}")
+    else:
+        logger.debug(message)
-- 
2.43.0


From 54e308937f02ca97d4bcd690544fdc0fa8d391ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 68/87] fix: a client is not closed, nor its statistics taken,
 in the middle of an operation

---
 src/valori/client.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index f089963..bc5c8dc 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -107,27 +107,29 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        stats = {
-            "storage": self.storage_backend.get_stats(),
-            "index": self.index.get_stats(),
-        }
+        with self._lock:
+            stats = {
+                "storage": self.storage_backend.get_stats(),
+                "index": self.index.get_stats(),
+            }
 
-        if self.quantizer:
-            stats["quantization"] = self.quantizer.get_stats()
+            if self.quantizer:
+                stats["quantization"] = self.quantizer.get_stats()
 
-        if self.persistence_manager:
-            stats["persistence"] = self.persistence_manager.get_stats()
+            if self.persistence_manager:
+                stats["persistence"] = self.persistence_manager.get_stats()
 
-        return stats
+            return stats
 
     def close(self) -> None:
         """Close the client and all components."""
-        if self.persistence_manager:
-            self.persistence_manager.close()
+        with self._lock:
+            if self.persistence_manager:
+                self.persistence_manager.close()
 
-        if self.quantizer:
-            self.quantizer.close()
+            if self.quantizer:
+                self.quantizer.close()
 
-        self.index.close()
-        self.storage_backend.close()
-        self._initialized = False
+            self.index.close()
+            self.storage_backend.close()
+            self._initialized = False
-- 
2.43.0


From 20a87d7a0ade01de7cffb4bf9bb3b5af6c0960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 69/87] fix: hybrid storage lists and counts its records
 between operations, not during one

---
 src/valori/storage/hybrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index a5e1ed9..9f8dbb8 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -163,15 +163,17 @@ class HybridStorage(StorageBackend):
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
 
-        return self.disk_storage.list_vectors(limit)
+        with self.lock:
+            return self.disk_storage.list_vectors(limit)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get hybrid storage statistics."""
         if not self._initialized:
             return {"status": "not_initialized"}
 
-        memory_stats = self.memory_storage.get_stats()
-        disk_stats = self.disk_storage.get_stats()
+        with self.lock:
+            memory_stats = self.memory_storage.get_stats()
+            disk_stats = self.disk_storage.get_stats()
 
         return {
             "backend_type": "hybrid",
-- 
2.43.0


From e4c1084e732155c494a808a19e55a24d209a5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 70/87] fix: after a failed write disk storage lists and counts
 what it serves

---
 src/valori/storage/disk.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 3d08a33..35ec8f6 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -39,9 +39,7 @@ class DiskStorage(StorageBackend):
             self.vectors_dir.mkdir(parents=True, exist_ok=True)
             self.metadata_dir.mkdir(parents=True, exist_ok=True)
 
-            # Complete replacements that were cut short
-            for path in list(self.vectors_dir.glob("*.npy.new")):
-                self._complete_record(path.name[: -len(".npy.new")])
+            self._complete_records()
 
             # Count existing vectors
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
@@ -117,6 +115,7 @@ class DiskStorage(StorageBackend):
             if vector_path.exists():
                 vector_path.unlink()
                 vector_deleted = True
+                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
 
             # Delete metadata file
             metadata_path = self.metadata_dir / f"{safe_id}.pkl"
@@ -124,7 +123,6 @@ class DiskStorage(StorageBackend):
                 metadata_path.unlink()
 
             if vector_deleted:
-                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
                 return True
             return False
 
@@ -162,6 +160,8 @@ class DiskStorage(StorageBackend):
             raise StorageError("Storage backend not initialized")
 
         try:
+            self._complete_records()
+
             vector_files = list(self.vectors_dir.glob("*.npy"))
             vector_ids = [unquote(f.stem, errors="surrogatepass") for f in vector_files]
 
@@ -179,6 +179,8 @@ class DiskStorage(StorageBackend):
             return {"status": "not_initialized"}
 
         try:
+            self._complete_records()
+
             # Calculate disk usage
             total_size = 0
             for file_path in self.data_dir.rglob("*"):
@@ -248,6 +250,11 @@ class DiskStorage(StorageBackend):
                 metadata_tmp.unlink()
             raise
 
+    def _complete_records(self) -> None:
+        """Complete the replacements that were cut short."""
+        for path in list(self.vectors_dir.glob("*.npy.new")):
+            self._complete_record(path.name[: -len(".npy.new")])
+
     def _complete_record(self, safe_id: str) -> None:
         """Put the files of a replaced record in place, if that is left to do."""
         vector_new = self.vectors_dir / f"{safe_id}.npy.new"
-- 
2.43.0


From 5f24653639489135d9f6887155e31b5c888e8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 71/87] fix: memory storage keeps metadata that cannot be
 printed, instead of failing ever after

---
 src/valori/storage/memory.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index fbacfa5..4577b1f 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -66,9 +66,7 @@ class MemoryStorage(StorageBackend):
                 self._vector_count = len(self.vectors)
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
-                ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
-                )
+                ) + sum(self._metadata_size(meta) for meta in self.metadata.values())
 
                 return True
         except Exception as e:
@@ -103,8 +101,7 @@ class MemoryStorage(StorageBackend):
                     self._memory_usage = sum(
                         vector.nbytes for vector in self.vectors.values()
                     ) + sum(
-                        len(str(meta).encode("utf-8"))
-                        for meta in self.metadata.values()
+                        self._metadata_size(meta) for meta in self.metadata.values()
                     )
 
                     return True
@@ -140,9 +137,7 @@ class MemoryStorage(StorageBackend):
                 # Update stats
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
-                ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
-                )
+                ) + sum(self._metadata_size(meta) for meta in self.metadata.values())
 
                 return True
         except Exception as e:
@@ -181,3 +176,11 @@ class MemoryStorage(StorageBackend):
             self._vector_count = 0
             self._memory_usage = 0
             self._initialized = False
+
+    @staticmethod
+    def _metadata_size(metadata: Dict) -> int:
+        """Size of the metadata as text, 0 if it has none."""
+        try:
+            return len(str(metadata).encode("utf-8"))
+        except Exception:
+            return 0
-- 
2.43.0


From 901b076cc613925f05e8396b936ed1e0c717fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 72/87] fix: print_analysis says that there are no vectors
 instead of failing

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index fe9faa2..dfd2f21 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -270,6 +270,10 @@ class VectorAnalyzer:
         print("VECTOR ANALYSIS")
         print("=" * 60)
 
+        if "error" in analysis:
+            print(f"\n{analysis['error']}")
+            return
+
         # Basic stats
         basic = analysis["basic_stats"]
         print(f"\nBasic Statistics:")
-- 
2.43.0


From 5a6fcb0827725e3128dd30b088970a4179ae33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 73/87] fix: PDF metadata follows references, and tells pages
 with images

---
 src/valori/parsers/pdf_parser.py | 64 +++++++++++++-------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index e6fcbda..fd7c723 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -73,11 +73,7 @@ class PDFParser(DocumentParser):
                                 {
                                     "page_number": page_num + 1,
                                     "text_length": len(page_text),
-                                    "has_images": (
-                                        len(page.get_images()) > 0
-                                        if hasattr(page, "get_images")
-                                        else False
-                                    ),
+                                    "has_images": self._has_images(page),
                                 }
                             )
                     except Exception as e:
@@ -93,40 +89,16 @@ class PDFParser(DocumentParser):
                     "file_type": "pdf",
                     "num_pages": len(pdf_reader.pages),
                     "num_pages_with_text": len(page_metadata),
-                    "title": (
-                        pdf_reader.metadata.get("/Title", "")
-                        if pdf_reader.metadata
-                        else ""
+                    "title": self._get_info(pdf_reader, "/Title"),
+                    "author": self._get_info(pdf_reader, "/Author"),
+                    "subject": self._get_info(pdf_reader, "/Subject"),
+                    "creator": self._get_info(pdf_reader, "/Creator"),
+                    "producer": self._get_info(pdf_reader, "/Producer"),
+                    "creation_date": str(
+                        self._get_info(pdf_reader, "/CreationDate")
                     ),
-                    "author": (
-                        pdf_reader.metadata.get("/Author", "")
-                        if pdf_reader.metadata
-                        else ""
-                    ),
-                    "subject": (
-                        pdf_reader.metadata.get("/Subject", "")
-                        if pdf_reader.metadata
-                        else ""
-                    ),
-                    "creator": (
-                        pdf_reader.metadata.get("/Creator", "")
-                        if pdf_reader.metadata
-                        else ""
-                    ),
-                    "producer": (
-                        pdf_reader.metadata.get("/Producer", "")
-                        if pdf_reader.metadata
-                        else ""
-                    ),
-                    "creation_date": (
-                        str(pdf_reader.metadata.get("/CreationDate", ""))
-                        if pdf_reader.metadata
-                        else ""
-                    ),
-                    "modification_date": (
-                        str(pdf_reader.metadata.get("/ModDate", ""))
-                        if pdf_reader.metadata
-                        else ""
+                    "modification_date": str(
+                        self._get_info(pdf_reader, "/ModDate")
                     ),
                     "page_metadata": page_metadata,
                 }
@@ -164,6 +136,22 @@ class PDFParser(DocumentParser):
         file_path = Path(file_path)
         return file_path.suffix.lower() in self.get_supported_formats()
 
+    @staticmethod
+    def _get_info(pdf_reader, key: str) -> Any:
+        """Get an entry of the document information."""
+        info = pdf_reader.metadata
+        # Unlike get(), this follows references to other objects of the file
+        return info[key] if info and key in info else ""
+
+    @staticmethod
+    def _has_images(page) -> bool:
+        """Check if the page shows images."""
+        try:
+            objects = page["/Resources"]["/XObject"]
+            return any(objects[name]["/Subtype"] == "/Image" for name in objects)
+        except Exception:
+            return False
+
     def _create_chunks(
         self, text: str, page_metadata: List[Dict]
     ) -> List[Dict[str, Any]]:
-- 
2.43.0


From 2a2b3124f62f18c633674a1fa7f67e614b345f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 74/87] fix: logging.py keeps the line endings it had

---
 src/valori/utils/logging.py | 590 ++++++++++++++++++------------------
 1 file changed, 295 insertions(+), 295 deletions(-)

diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index 9ad2fa0..8a90307 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -1,295 +1,295 @@
-"""
-Logging utilities for the valori vector database.
-"""
-
-import logging
-import sys
-from pathlib import Path
-from typing import Any, Dict, Optional
-
-
-# Console handlers of the loggers that have one of their own
-_own_handlers: Dict[str, logging.Handler] = {}
-
-
-def release_handlers(name: str = "") -> None:
-    """
-    Give up the own handlers below a logger whose handlers take over.
-
-    Args:
-        name: Name of that logger (the root logger by default)
-    """
-    for own in list(_own_handlers):
-        if not name or own == name or own.startswith(name + "."):
-            logger = logging.getLogger(own)
-            logger.removeHandler(_own_handlers.pop(own))
-            logger.setLevel(logging.NOTSET)
-
-
-def get_logger(name: str, level: str = "INFO") -> logging.Logger:
-    """
-    Get a logger instance for the given name.
-
-    Args:
-        name: Logger name (typically __name__)
-        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL)
-
-    Returns:
-        Configured logger instance
-    """
-    logger = logging.getLogger(name)
-
-    # Don't add handlers if messages are written somewhere already
-    if logger.hasHandlers():
-        return logger
-
-    release_handlers(name)
-
-    # Set level
-    numeric_level = getattr(logging, level.upper(), logging.INFO)
-    logger.setLevel(numeric_level)
-
-    # Create formatter
-    formatter = logging.Formatter(
-        "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-        datefmt="%Y-%m-%d %H:%M:%S",
-    )
-
-    # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
-    console_handler.setLevel(numeric_level)
-    console_handler.setFormatter(formatter)
-    logger.addHandler(console_handler)
-    _own_handlers[name] = console_handler
-
-    return logger
-
-
-def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
-    """
-    Setup logging configuration for the entire application.
-
-    Args:
-        config: Logging configuration dictionary
-    """
-    if config is None:
-        config = {}
-
-    # Default configuration
-    default_config = {
-        "level": "INFO",
-        "format": "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-        "date_format": "%Y-%m-%d %H:%M:%S",
-        "log_to_file": False,
-        "log_file": "valori.log",
-        "max_file_size": 10 * 1024 * 1024,  # 10MB
-        "backup_count": 5,
-    }
-
-    # Merge with provided config
-    config = {**default_config, **config}
-
-    # Get logging level
-    level = getattr(logging, config["level"].upper(), logging.INFO)
-
-    # Create formatter
-    formatter = logging.Formatter(config["format"], datefmt=config["date_format"])
-
-    # Configure root logger
-    root_logger = logging.getLogger()
-    root_logger.setLevel(level)
-
-    # Clear existing handlers
-    for handler in root_logger.handlers[:]:
-        root_logger.removeHandler(handler)
-        handler.close()
-    release_handlers()
-
-    # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
-    console_handler.setLevel(level)
-    console_handler.setFormatter(formatter)
-    root_logger.addHandler(console_handler)
-
-    # Create file handler if requested
-    if config["log_to_file"]:
-        log_file = Path(config["log_file"])
-
-        # Create log directory if it doesn't exist
-        log_file.parent.mkdir(parents=True, exist_ok=True)
-
-        # Create rotating file handler
-        from logging.handlers import RotatingFileHandler
-
-        file_handler = RotatingFileHandler(
-            log_file,
-            maxBytes=config["max_file_size"],
-            backupCount=config["backup_count"],
-        )
-        file_handler.setLevel(level)
-        file_handler.setFormatter(formatter)
-        root_logger.addHandler(file_handler)
-
-
-def log_performance(func_name: str, duration: float, **kwargs) -> None:
-    """
-    Log performance metrics for a function.
-
-    Args:
-        func_name: Name of the function
-        duration: Execution duration in seconds
-        **kwargs: Additional metrics to log
-    """
-    logger = get_logger("valori.performance")
-
-    metrics = {"function": func_name, "duration": duration, **kwargs}
-
-    logger.info(f"Performance: {metrics}")
-
-
-def log_memory_usage(operation: str, memory_before: int, memory_after: int) -> None:
-    """
-    Log memory usage for an operation.
-
-    Args:
-        operation: Name of the operation
-        memory_before: Memory usage before operation (bytes)
-        memory_after: Memory usage after operation (bytes)
-    """
-    logger = get_logger("valori.memory")
-
-    memory_delta = memory_after - memory_before
-    memory_delta_mb = memory_delta / (1024 * 1024)
-
-    logger.info(f"Memory usage - {operation}: {memory_delta_mb:.2f} MB delta")
-
-
-def log_vector_operation(
-    operation: str, vector_count: int, vector_dim: int, **kwargs
-) -> None:
-    """
-    Log vector operation metrics.
-
-    Args:
-        operation: Name of the operation
-        vector_count: Number of vectors processed
-        vector_dim: Dimension of vectors
-        **kwargs: Additional operation-specific metrics
-    """
-    logger = get_logger("valori.operations")
-
-    metrics = {
-        "operation": operation,
-        "vector_count": vector_count,
-        "vector_dim": vector_dim,
-        **kwargs,
-    }
-
-    logger.info(f"Vector operation: {metrics}")
-
-
-def log_index_stats(index_type: str, vector_count: int, **stats) -> None:
-    """
-    Log index statistics.
-
-    Args:
-        index_type: Type of index
-        vector_count: Number of vectors in index
-        **stats: Additional index statistics
-    """
-    logger = get_logger("valori.index")
-
-    metrics = {"index_type": index_type, "vector_count": vector_count, **stats}
-
-    logger.info(f"Index stats: {metrics}")
-
-
-def log_search_query(
-    query_vector_dim: int, k: int, results_count: int, duration: float
-) -> None:
-    """
-    Log search query metrics.
-
-    Args:
-        query_vector_dim: Dimension of query vector
-        k: Number of results requested
-        results_count: Number of results returned
-        duration: Search duration in seconds
-    """
-    logger = get_logger("valori.search")
-
-    metrics = {
-        "query_vector_dim": query_vector_dim,
-        "k": k,
-        "results_count": results_count,
-        "duration": duration,
-    }
-
-    logger.info(f"Search query: {metrics}")
-
-
-def log_error(error: Exception, context: Optional[str] = None) -> None:
-    """
-    Log an error with context.
-
-    Args:
-        error: Exception that occurred
-        context: Additional context information
-    """
-    logger = get_logger("valori.error")
-
-    error_info = {
-        "error_type": type(error).__name__,
-        "error_message": str(error),
-        "context": context,
-    }
-
-    logger.error(f"Error occurred: {error_info}", exc_info=True)
-
-
-def log_warning(message: str, **kwargs) -> None:
-    """
-    Log a warning message.
-
-    Args:
-        message: Warning message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.warning")
-
-    if kwargs:
-        logger.warning(f"{message} - Context: {kwargs}")
-    else:
-        logger.warning(message)
-
-
-def log_info(message: str, **kwargs) -> None:
-    """
-    Log an info message.
-
-    Args:
-        message: Info message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.info")
-
-    if kwargs:
-        logger.info(f"{message} - Context: {kwargs}")
-    else:
-        logger.info(message)
-
-
-def log_debug(message: str, **kwargs) -> None:
-    """
-    Log a debug message.
-
-    Args:
-        message: Debug message
-        **kwargs: Additional context
-    """
-    logger = get_logger("valori.debug")
-
-    if kwargs:
-        logger.debug(f"{message} - Context: {kwargs}")
-    else:
-        logger.debug(message)
+"""
+Logging utilities for the valori vector database.
+"""
+
+import logging
+import sys
+from pathlib import Path
+from typing import Any, Dict, Optional
+
+
+# Console handlers of the loggers that have one of their own
+_own_handlers: Dict[str, logging.Handler] = {}
+
+
+def release_handlers(name: str = "") -> None:
+    """
+    Give up the own handlers below a logger whose handlers take over.
+
+    Args:
+        name: Name of that logger (the root logger by default)
+    """
+    for own in list(_own_handlers):
+        if not name or own == name or own.startswith(name + "."):
+            logger = logging.getLogger(own)
+            logger.removeHandler(_own_handlers.pop(own))
+            logger.setLevel(logging.NOTSET)
+
+
+def get_logger(name: str, level: str = "INFO") -> logging.Logger:
+    """
+    Get a logger instance for the given name.
+
+    Args:
+        name: Logger name (typically __name__)
+        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL)
+
+    Returns:
+        Configured logger instance
+    """
+    logger = logging.getLogger(name)
+
+    # Don't add handlers if messages are written somewhere already
+    if logger.hasHandlers():
+        return logger
+
+    release_handlers(name)
+
+    # Set level
+    numeric_level = getattr(logging, level.upper(), logging.INFO)
+    logger.setLevel(numeric_level)
+
+    # Create formatter
+    formatter = logging.Formatter(
+        "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+        datefmt="%Y-%m-%d %H:%M:%S",
+    )
+
+    # Create console handler
+    console_handler = logging.StreamHandler(sys.stdout)
+    console_handler.setLevel(numeric_level)
+    console_handler.setFormatter(formatter)
+    logger.addHandler(console_handler)
+    _own_handlers[name] = console_handler
+
+    return logger
+
+
+def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
+    """
+    Setup logging configuration for the entire application.
+
+    Args:
+        config: Logging configuration dictionary
+    """
+    if config is None:
+        config = {}
+
+    # Default configuration
+    default_config = {
+        "level": "INFO",
+        "format": "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+        "date_format": "%Y-%m-%d %H:%M:%S",
+        "log_to_file": False,
+        "log_file": "valori.log",
+        "max_file_size": 10 * 1024 * 1024,  # 10MB
+        "backup_count": 5,
+    }
+
+    # Merge with provided config
+    config = {**default_config, **config}
+
+    # Get logging level
+    level = getattr(logging, config["level"].upper(), logging.INFO)
+
+    # Create formatter
+    formatter = logging.Formatter(config["format"], datefmt=config["date_format"])
+
+    # Configure root logger
+    root_logger = logging.getLogger()
+    root_logger.setLevel(level)
+
+    # Clear existing handlers
+    for handler in root_logger.handlers[:]:
+        root_logger.removeHandler(handler)
+        handler.close()
+    release_handlers()
+
+    # Create console handler
+    console_handler = logging.StreamHandler(sys.stdout)
+    console_handler.setLevel(level)
+    console_handler.setFormatter(formatter)
+    root_logger.addHandler(console_handler)
+
+    # Create file handler if requested
+    if config["log_to_file"]:
+        log_file = Path(config["log_file"])
+
+        # Create log directory if it doesn't exist
+        log_file.parent.mkdir(parents=True, exist_ok=True)
+
+        # Create rotating file handler
+        from logging.handlers import RotatingFileHandler
+
+        file_handler = RotatingFileHandler(
+            log_file,
+            maxBytes=config["max_file_size"],
+            backupCount=config["backup_count"],
+        )
+        file_handler.setLevel(level)
+        file_handler.setFormatter(formatter)
+        root_logger.addHandler(file_handler)
+
+
+def log_performance(func_name: str, duration: float, **kwargs) -> None:
+    """
+    Log performance metrics for a function.
+
+    Args:
+        func_name: Name of the function
+        duration: Execution duration in seconds
+        **kwargs: Additional metrics to log
+    """
+    logger = get_logger("valori.performance")
+
+    metrics = {"function": func_name, "duration": duration, **kwargs}
+
+    logger.info(f"Performance: {metrics}")
+
+
+def log_memory_usage(operation: str, memory_before: int, memory_after: int) -> None:
+    """
+    Log memory usage for an operation.
+
+    Args:
+        operation: Name of the operation
+        memory_before: Memory usage before operation (bytes)
+        memory_after: Memory usage after operation (bytes)
+    """
+    logger = get_logger("valori.memory")
+
+    memory_delta = memory_after - memory_before
+    memory_delta_mb = memory_delta / (1024 * 1024)
+
+    logger.info(f"Memory usage - {operation}: {memory_delta_mb:.2f} MB delta")
+
+
+def log_vector_operation(
+    operation: str, vector_count: int, vector_dim: int, **kwargs
+) -> None:
+    """
+    Log vector operation metrics.
+
+    Args:
+        operation: Name of the operation
+        vector_count: Number of vectors processed
+        vector_dim: Dimension of vectors
+        **kwargs: Additional operation-specific metrics
+    """
+    logger = get_logger("valori.operations")
+
+    metrics = {
+        "operation": operation,
+        "vector_count": vector_count,
+        "vector_dim": vector_dim,
+        **kwargs,
+    }
+
+    logger.info(f"Vector operation: {metrics}")
+
+
+def log_index_stats(index_type: str, vector_count: int, **stats) -> None:
+    """
+    Log index statistics.
+
+    Args:
+        index_type: Type of index
+        vector_count: Number of vectors in index
+        **stats: Additional index statistics
+    """
+    logger = get_logger("valori.index")
+
+    metrics = {"index_type": index_type, "vector_count": vector_count, **stats}
+
+    logger.info(f"Index stats: {metrics}")
+
+
+def log_search_query(
+    query_vector_dim: int, k: int, results_count: int, duration: float
+) -> None:
+    """
+    Log search query metrics.
+
+    Args:
+        query_vector_dim: Dimension of query vector
+        k: Number of results requested
+        results_count: Number of results returned
+        duration: Search duration in seconds
+    """
+    logger = get_logger("valori.search")
+
+    metrics = {
+        "query_vector_dim": query_vector_dim,
+        "k": k,
+        "results_count": results_count,
+        "duration": duration,
+    }
+
+    logger.info(f"Search query: {metrics}")
+
+
+def log_error(error: Exception, context: Optional[str] = None) -> None:
+    """
+    Log an error with context.
+
+    Args:
+        error: Exception that occurred
+        context: Additional context information
+    """
+    logger = get_logger("valori.error")
+
+    error_info = {
+        "error_type": type(error).__name__,
+        "error_message": str(error),
+        "context": context,
+    }
+
+    logger.error(f"Error occurred: {error_info}", exc_info=True)
+
+
+def log_warning(message: str, **kwargs) -> None:
+    """
+    Log a warning message.
+
+    Args:
+        message: Warning message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.warning")
+
+    if kwargs:
+        logger.warning(f"{message} - Context: {kwargs}")
+    else:
+        logger.warning(message)
+
+
+def log_info(message: str, **kwargs) -> None:
+    """
+    Log an info message.
+
+    Args:
+        message: Info message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.info")
+
+    if kwargs:
+        logger.info(f"{message} - Context: {kwargs}")
+    else:
+        logger.info(message)
+
+
+def log_debug(message: str, **kwargs) -> None:
+    """
+    Log a debug message.
+
+    Args:
+        message: Debug message
+        **kwargs: Additional context
+    """
+    logger = get_logger("valori.debug")
+
+    if kwargs:
+        logger.debug(f"{message} - Context: {kwargs}")
+    else:
+        logger.debug(message)
-- 
2.43.0


From 72c6743756470341859970480a596a4a5e6c5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 75/87] fix: the average chunk size reported is the one of the
 chunks

---
 src/valori/processors/chunking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 4796591..1fd7b84 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -35,6 +35,7 @@ class ChunkingProcessor(DocumentProcessor):
         self.preserve_whitespace = config.get("preserve_whitespace", False)
         self._chunks_created = 0
         self._total_characters_processed = 0
+        self._chunk_characters = 0
 
     def initialize(self) -> None:
         """Initialize the chunking processor."""
@@ -66,7 +67,6 @@ class ChunkingProcessor(DocumentProcessor):
             raise ProcessingError("Input data must contain 'text' field")
 
         text = data["text"]
-        self._total_characters_processed += len(text)
 
         # Create chunks based on strategy
         if self.strategy == "fixed_size":
@@ -81,7 +81,9 @@ class ChunkingProcessor(DocumentProcessor):
         # Bring chunks within the maximum size, then filter them by size
         chunks = self._split_oversized_chunks(text, chunks)
         filtered_chunks = self._filter_chunks_by_size(chunks)
+        self._total_characters_processed += len(text)
         self._chunks_created += len(filtered_chunks)
+        self._chunk_characters += sum(len(chunk["text"]) for chunk in filtered_chunks)
 
         # Update data with chunks
         result_data = data.copy()
@@ -274,7 +276,7 @@ class ChunkingProcessor(DocumentProcessor):
             "max_chunk_size": self.max_chunk_size,
             "chunks_created": self._chunks_created,
             "total_characters_processed": self._total_characters_processed,
-            "average_chunk_size": self._total_characters_processed
+            "average_chunk_size": self._chunk_characters
             / max(self._chunks_created, 1),
             "initialized": self._initialized,
         }
-- 
2.43.0


From 82bd5282c6e75a938b153bcad937601945181da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 76/87] fix: embedding statistics count every text once, and a
 hit rate of at most 1

---
 src/valori/processors/embedding.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index d673e34..87fb546 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -261,8 +261,10 @@ class EmbeddingProcessor(DocumentProcessor):
                 batch_embeddings = np.where(
                     np.array(blank)[:, None], 0, batch_embeddings
                 )
+                self._texts_processed += len(batch_texts)
+                self._embeddings_generated += len(batch_texts)
             else:
-                # Process individually for other model types
+                # Process (and count) individually for other model types
                 batch_embeddings = []
                 for text in batch_texts:
                     embedding = self._generate_embedding(text)
@@ -271,9 +273,6 @@ class EmbeddingProcessor(DocumentProcessor):
 
             embeddings.extend(batch_embeddings)
 
-        self._texts_processed += len(texts)
-        self._embeddings_generated += len(texts)
-
         return embeddings
 
     def get_embedding_dimension(self) -> int:
@@ -294,8 +293,10 @@ class EmbeddingProcessor(DocumentProcessor):
     def get_stats(self) -> Dict[str, Any]:
         """Get embedding processor statistics."""
         cache_hit_rate = 0
-        if self._embeddings_generated > 0:
-            cache_hit_rate = self._cache_hits / self._embeddings_generated
+        if self._cache_hits > 0:
+            cache_hit_rate = self._cache_hits / (
+                self._cache_hits + self._embeddings_generated
+            )
 
         return {
             "processor_type": "embedding",
-- 
2.43.0


From dea434c1a56d7322d4d48d04c2f0479ea29c6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 77/87] fix: an Annoy index file that was cut is refused

---
 src/valori/indices/annoy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 1c2b694..d0a1ec9 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -412,6 +412,7 @@ class AnnoyIndex(Index):
                 "dimension": self.dimension,
                 "metric": self.metric,
                 "num_trees": self.num_trees,
+                "num_items": self._annoy_index.get_n_items(),
             }
             with open(metadata_path, "w") as f:
                 json.dump(metadata, f)
@@ -441,12 +442,14 @@ class AnnoyIndex(Index):
         # Load metadata first
         import json
 
+        num_items = None
         metadata_path = filepath + ".meta"
         if os.path.exists(metadata_path):
             with open(metadata_path, "r") as f:
                 metadata = json.load(f)
                 self.dimension = metadata.get("dimension")
                 self.metric = metadata.get("metric", self.metric)
+                num_items = metadata.get("num_items")
                 # num_trees already set from config during init
         else:
             # Fallback: if no metadata file, try to infer from index properties
@@ -459,6 +462,9 @@ class AnnoyIndex(Index):
 
         self._create_annoy_index()
         self._annoy_index.load(filepath)
+        if num_items not in (None, self._annoy_index.get_n_items()):
+            # Annoy takes any number of nodes for an index
+            raise ValoriIndexError(f"Index file is incomplete: {filepath}")
         self._built = True
 
         data_path = filepath + ".data"
-- 
2.43.0


From 9de4eb5bceddc047e5fcc30ffd1f95bf095d405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 78/87] fix: text with its first letter beyond ASCII far into a
 long file is read in its encoding

---
 src/valori/parsers/text_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index bdf1310..a1bf5e2 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -57,6 +57,10 @@ class TextParser(DocumentParser):
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
                     encoding = detected.get("encoding", "utf-8")
+                    if encoding == "ascii" and not raw_data.isascii():
+                        # Only the beginning of a long file was looked at
+                        rest = raw_data.lstrip(bytes(range(128)))
+                        encoding = chardet.detect(rest).get("encoding", "utf-8")
             else:
                 encoding = self.encoding
 
-- 
2.43.0


From 3310445b9cffbe334f7930e5ab8ec5ce58642789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 79/87] fix: a deletion that fails midway leaves the right
 vector count in flat and IVF indices

---
 src/valori/indices/flat.py | 3 ++-
 src/valori/indices/ivf.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index aab5668..ccd6bc5 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -187,11 +187,12 @@ class FlatIndex(Index):
                 # Remove from cache
                 self.vector_cache.pop(vector_id, None)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
+        finally:
+            self._vector_count = len(self.vector_ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index b252a64..d3a00d3 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -214,11 +214,12 @@ class IVFIndex(Index):
                     if vector_id in vector_list:
                         vector_list.remove(vector_id)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
+        finally:
+            self._vector_count = len(self.vector_ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
-- 
2.43.0


From 1fd45e87101bd1976b51cf302df2b4f0dd4cb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 80/87] fix: ids that an array would change are loaded as they
 were saved, and vectors that cannot be loaded are refused

---
 src/valori/persistence/base.py        | 31 ++++++++++++++++++++++++++-
 src/valori/persistence/incremental.py |  6 +++---
 src/valori/persistence/tensor.py      |  8 +++----
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index f3d2389..f1ff963 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -3,10 +3,11 @@ Base persistence interface for the valori vector database.
 """
 
 import os
+import pickle
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from pathlib import Path
-from typing import IO, Any, Dict, Iterator, Optional, Tuple
+from typing import IO, Any, Dict, Iterator, List, Optional, Tuple
 
 import numpy as np
 
@@ -24,6 +25,34 @@ def replacing(path: Path, mode: str = "wb") -> Iterator[IO]:
         raise
 
 
+def vector_arrays(vectors: np.ndarray, ids: List) -> Dict[str, np.ndarray]:
+    """The arrays that vectors and their ids are saved as."""
+    vectors = np.asarray(vectors)
+    if vectors.dtype.hasobject:
+        raise ValueError("Vectors must be numeric to be loaded again")
+
+    ids = ids.tolist() if isinstance(ids, np.ndarray) else list(ids)
+    try:
+        array = np.array(ids)
+    except (ValueError, OverflowError):
+        array = np.array(None)
+    kept = None if array.dtype.hasobject else array.tolist()
+    if kept != ids or [type(i) for i in kept] != [type(i) for i in ids]:
+        # An array of them would not give the same ids back
+        return {
+            "vectors": vectors,
+            "pickled_ids": np.frombuffer(pickle.dumps(ids), dtype=np.uint8),
+        }
+    return {"vectors": vectors, "ids": array}
+
+
+def loaded_ids(data: Any) -> List:
+    """The ids of vectors saved as vector_arrays() has it."""
+    if "pickled_ids" in data:
+        return pickle.loads(data["pickled_ids"].tobytes())
+    return data["ids"].tolist()
+
+
 class PersistenceManager(ABC):
     """
     Abstract base class for persistence managers.
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 3fbd721..9eb6ffd 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -12,7 +12,7 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 
 from ..exceptions import PersistenceError
-from .base import PersistenceManager, replacing
+from .base import PersistenceManager, loaded_ids, replacing, vector_arrays
 
 
 class IncrementalPersistence(PersistenceManager):
@@ -114,7 +114,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Save vectors
             with replacing(file_path) as f:
-                np.savez(f, vectors=vectors, ids=np.array(ids))
+                np.savez(f, **vector_arrays(vectors, ids))
 
             # Log operation
             self._log_operation(
@@ -144,7 +144,7 @@ class IncrementalPersistence(PersistenceManager):
 
             data = np.load(file_path)
             vectors = data["vectors"]
-            ids = data["ids"].tolist()
+            ids = loaded_ids(data)
 
             return vectors, ids
 
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index 9b45d52..45b1401 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -9,7 +9,7 @@ from typing import Any, Dict, Optional, Tuple
 import numpy as np
 
 from ..exceptions import PersistenceError
-from .base import PersistenceManager, replacing
+from .base import PersistenceManager, loaded_ids, replacing, vector_arrays
 
 
 class TensorPersistence(PersistenceManager):
@@ -89,10 +89,10 @@ class TensorPersistence(PersistenceManager):
             with replacing(file_path) as f:
                 if self.compression:
                     # Save with compression
-                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
+                    np.savez_compressed(f, **vector_arrays(vectors, ids))
                 else:
                     # Save without compression
-                    np.savez(f, vectors=vectors, ids=np.array(ids))
+                    np.savez(f, **vector_arrays(vectors, ids))
 
             self._save_count += 1
             return True
@@ -114,7 +114,7 @@ class TensorPersistence(PersistenceManager):
             # Load vectors and IDs
             data = np.load(file_path)
             vectors = data["vectors"]
-            ids = data["ids"].tolist()
+            ids = loaded_ids(data)
 
             self._load_count += 1
             return vectors, ids
-- 
2.43.0


From a15419ca2a571da48da1c75f75facbbabeea261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 81/87] fix: an Annoy index file that was overwritten is
 refused, as one that was cut is

---
 src/valori/indices/annoy.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index d0a1ec9..868753c 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -9,6 +9,7 @@ import copy
 import os
 import pickle
 import tempfile
+import zlib
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -412,7 +413,7 @@ class AnnoyIndex(Index):
                 "dimension": self.dimension,
                 "metric": self.metric,
                 "num_trees": self.num_trees,
-                "num_items": self._annoy_index.get_n_items(),
+                "checksum": self._checksum(filepath),
             }
             with open(metadata_path, "w") as f:
                 json.dump(metadata, f)
@@ -437,19 +438,28 @@ class AnnoyIndex(Index):
             self.__dict__.update(before)
             raise ValoriIndexError(f"Failed to load index: {str(e)}")
 
+    @staticmethod
+    def _checksum(filepath: str) -> int:
+        """Checksum of a file."""
+        checksum = 0
+        with open(filepath, "rb") as f:
+            while block := f.read(1 << 20):
+                checksum = zlib.crc32(block, checksum)
+        return checksum
+
     def _load_files(self, filepath: str) -> None:
         """Take over the index, the vectors and the metadata saved in files."""
         # Load metadata first
         import json
 
-        num_items = None
+        checksum = None
         metadata_path = filepath + ".meta"
         if os.path.exists(metadata_path):
             with open(metadata_path, "r") as f:
                 metadata = json.load(f)
                 self.dimension = metadata.get("dimension")
                 self.metric = metadata.get("metric", self.metric)
-                num_items = metadata.get("num_items")
+                checksum = metadata.get("checksum")
                 # num_trees already set from config during init
         else:
             # Fallback: if no metadata file, try to infer from index properties
@@ -460,11 +470,11 @@ class AnnoyIndex(Index):
                     f"Metadata file not found: {metadata_path}"
                 )
 
+        if checksum is not None and checksum != self._checksum(filepath):
+            # Annoy takes anything for an index
+            raise ValoriIndexError(f"Index file is damaged: {filepath}")
         self._create_annoy_index()
         self._annoy_index.load(filepath)
-        if num_items not in (None, self._annoy_index.get_n_items()):
-            # Annoy takes any number of nodes for an index
-            raise ValoriIndexError(f"Index file is incomplete: {filepath}")
         self._built = True
 
         data_path = filepath + ".data"
-- 
2.43.0


From f532daf3b44669880fc497d544674d443d279004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 82/87] fix: a pipeline that fails to initialize again is not
 left with some of its processors

---
 src/valori/processors/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index 4016c74..4f07aca 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -28,6 +28,8 @@ class ProcessingPipeline:
 
     def initialize(self) -> None:
         """Initialize the processing pipeline."""
+        # what fails below leaves only some of the processors in place
+        self._initialized = False
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-- 
2.43.0


From 8b8c9e17f42001031d60ef1cb935cd1c78f8b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 83/87] fix: a failed training leaves nothing half-done in
 product and segmented quantizers

---
 src/valori/quantization/product.py | 2 ++
 src/valori/quantization/saq.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index a9ab3e7..4547a20 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -57,6 +57,8 @@ class ProductQuantizer(Quantizer):
             if n_vectors == 0 or not np.isfinite(vectors).all():
                 raise QuantizationError("Vectors must contain only finite values")
 
+            # What fails below leaves nothing of an earlier training to be used
+            self._trained = False
             self.dim = int(dim)
             self.subvector_dim = int(self.dim // self.m)
 
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index a602274..91ae72e 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -95,6 +95,8 @@ class SAQQuantizer(Quantizer):
             n_vectors, dim = vectors.shape
             if vectors.size == 0 or not np.isfinite(vectors).all():
                 raise QuantizationError("Vectors must contain only finite values")
+            # What fails below leaves nothing of an earlier training to be used
+            self._trained = False
             self.dim = int(dim)
             # Earlier training on fewer dimensions may have used fewer segments
             self.n_segments = self.config.get("n_segments", 8)
-- 
2.43.0


From 4b52e7427a8b2aec2d7e2870251c50f8d898b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 84/87] fix: an index follows a storage that did what it was
 told and then failed

---
 src/valori/indices/base.py | 13 +++++++++++++
 src/valori/indices/flat.py |  8 ++++++++
 src/valori/indices/hnsw.py |  9 +++++++++
 src/valori/indices/ivf.py  | 15 +++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index e9069f0..042aa25 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -63,6 +63,19 @@ class Index(ABC):
             except ValoriIndexError:
                 pass
 
+    def _follow_storage(self, ids: List[str]) -> None:
+        """Take over what a storage that failed may have done to vectors all the same."""
+        try:
+            for vector_id in ids:
+                stored = self.storage_backend.retrieve_vector(vector_id)
+                self._set_vector(vector_id, None if stored is None else stored[0])
+        except Exception:
+            pass
+
+    def _set_vector(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Replace a vector the index holds, or drop it if there is none."""
+        raise NotImplementedError
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index ccd6bc5..6b74cbb 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -190,6 +190,7 @@ class FlatIndex(Index):
             return success
 
         except Exception as e:
+            self._follow_storage(ids)
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
         finally:
             self._vector_count = len(self.vector_ids)
@@ -220,8 +221,15 @@ class FlatIndex(Index):
             return True
 
         except Exception as e:
+            self._follow_storage([id])
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _set_vector(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Replace a vector the index holds, or drop it if there is none."""
+        self.vector_cache.pop(vector_id, None)
+        if vector is None and vector_id in self.vector_ids:
+            self.vector_ids.remove(vector_id)
+
     def get_stats(self) -> Dict[str, Any]:
         """Get flat index statistics."""
         if not self._initialized:
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index f80adb1..945e82f 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -200,6 +200,7 @@ class HNSWIndex(Index):
             return success
 
         except Exception as e:
+            self._follow_storage(ids)
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
     def update(
@@ -229,8 +230,16 @@ class HNSWIndex(Index):
             return True
 
         except Exception as e:
+            self._follow_storage([id])
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _set_vector(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Replace a vector the index holds, or drop it if there is none."""
+        if vector is None:
+            self._remove_vector_internal(vector_id)
+        elif vector_id in self.vectors:
+            self.vectors[vector_id] = vector
+
     def get_stats(self) -> Dict[str, Any]:
         """Get HNSW index statistics."""
         if not self._initialized:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d3a00d3..d928f69 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -217,6 +217,7 @@ class IVFIndex(Index):
             return success
 
         except Exception as e:
+            self._follow_storage(ids)
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
         finally:
             self._vector_count = len(self.vector_ids)
@@ -251,8 +252,22 @@ class IVFIndex(Index):
             return True
 
         except Exception as e:
+            self._follow_storage([id])
             raise ValoriIndexError(f"Failed to update vector {id}: {str(e)}")
 
+    def _set_vector(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Replace a vector the index holds, or drop it if there is none."""
+        known = self.vectors_cache.pop(vector_id, None)
+        if vector_id not in self.vector_ids:
+            return
+        if vector is None:
+            self.vector_ids.remove(vector_id)
+            for vector_list in self.clusters.values():
+                if vector_id in vector_list:
+                    vector_list.remove(vector_id)
+        elif known is None or not np.array_equal(known, vector):
+            self._update_cluster_assignment(vector_id, vector)
+
     def get_stats(self) -> Dict[str, Any]:
         """Get IVF index statistics."""
         if not self._initialized:
-- 
2.43.0


From 8768bec16bac58993b880308a333ef3f4b1559ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 85/87] fix: count the characters of a document only when all
 of it was cleaned

---
 src/valori/processors/cleaning.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index a7fa2d4..de321aa 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -95,14 +95,15 @@ class CleaningProcessor(DocumentProcessor):
             raise ProcessingError("Processor not initialized")
 
         result_data = data.copy()
+        characters_before = characters_after = 0
 
         # Clean main text
         if "text" in data:
             original_text = data["text"]
-            self._total_characters_before += len(original_text)
+            characters_before = len(original_text)
 
             cleaned_text = self._clean_text(original_text)
-            self._total_characters_after += len(cleaned_text)
+            characters_after = len(cleaned_text)
 
             result_data["text"] = cleaned_text
 
@@ -118,6 +119,8 @@ class CleaningProcessor(DocumentProcessor):
             result_data["chunks"] = cleaned_chunks
 
         self._documents_processed += 1
+        self._total_characters_before += characters_before
+        self._total_characters_after += characters_after
         return result_data
 
     def _clean_text(self, text: str) -> str:
-- 
2.43.0


From 9823df131f761c4a9a90d5d2c57bd8444a1ebe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 86/87] fix: tell that a disk storage's directory cannot be
 read, instead of showing no records

---
 src/valori/storage/disk.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 35ec8f6..33f1fb5 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -42,7 +42,7 @@ class DiskStorage(StorageBackend):
             self._complete_records()
 
             # Count existing vectors
-            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+            self._vector_count = len(self._files(".npy"))
             self._initialized = True
 
         except Exception as e:
@@ -64,7 +64,7 @@ class DiskStorage(StorageBackend):
             # Store vector and metadata
             self._write_record(safe_id, vector, metadata)
 
-            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+            self._vector_count = len(self._files(".npy"))
             return True
 
         except Exception as e:
@@ -115,7 +115,7 @@ class DiskStorage(StorageBackend):
             if vector_path.exists():
                 vector_path.unlink()
                 vector_deleted = True
-                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+                self._vector_count = len(self._files(".npy"))
 
             # Delete metadata file
             metadata_path = self.metadata_dir / f"{safe_id}.pkl"
@@ -162,7 +162,7 @@ class DiskStorage(StorageBackend):
         try:
             self._complete_records()
 
-            vector_files = list(self.vectors_dir.glob("*.npy"))
+            vector_files = self._files(".npy")
             vector_ids = [unquote(f.stem, errors="surrogatepass") for f in vector_files]
 
             if limit is not None:
@@ -180,6 +180,7 @@ class DiskStorage(StorageBackend):
 
         try:
             self._complete_records()
+            self._vector_count = len(self._files(".npy"))
 
             # Calculate disk usage
             total_size = 0
@@ -252,7 +253,7 @@ class DiskStorage(StorageBackend):
 
     def _complete_records(self) -> None:
         """Complete the replacements that were cut short."""
-        for path in list(self.vectors_dir.glob("*.npy.new")):
+        for path in self._files(".npy.new"):
             self._complete_record(path.name[: -len(".npy.new")])
 
     def _complete_record(self, safe_id: str) -> None:
@@ -265,7 +266,12 @@ class DiskStorage(StorageBackend):
         if metadata_tmp.exists():
             os.replace(metadata_tmp, self.metadata_dir / f"{safe_id}.pkl")
         os.replace(vector_new, self.vectors_dir / f"{safe_id}.npy")
-        self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+        self._vector_count = len(self._files(".npy"))
+
+    def _files(self, suffix: str) -> List[Path]:
+        """The vector files with a suffix (glob() takes a failure for no files)."""
+        names = os.listdir(self.vectors_dir)
+        return [self.vectors_dir / name for name in names if name.endswith(suffix)]
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-- 
2.43.0


From 7ee53650c72929b918908046e93aef0a8a424538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 87/87] fix: tell that the checkpoints cannot be listed,
 instead of starting over

---
 src/valori/persistence/incremental.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 9eb6ffd..782033a 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -335,11 +335,15 @@ class IncrementalPersistence(PersistenceManager):
 
     def _checkpoint_files(self) -> List[Path]:
         """All checkpoints, oldest first."""
+        # Not by glob(), which takes a failure to read the directory for no files
+        files = (self.data_dir / name for name in os.listdir(self.data_dir))
         return sorted(
             (
                 f
-                for f in self.data_dir.glob("checkpoint_*.pkl")
-                if f.stem[len("checkpoint_") :].isdecimal()
+                for f in files
+                if f.name.startswith("checkpoint_")
+                and f.suffix == ".pkl"
+                and f.stem[len("checkpoint_") :].isdecimal()
             ),
             key=self._checkpoint_number,
         )
-- 
2.43.0

