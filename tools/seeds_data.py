PRE = """
import os, sys, tempfile, shutil, numpy as np
from valori.exceptions import *
def expect(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
"""

seed("s01-hybrid-list-unguarded", "C01",
     [("storage/hybrid.py", '''        """List all vector IDs from disk (authoritative source)."""
        if not self._initialized:
            raise StorageError("Storage backend not initialized")

        return self.disk_storage.list_vectors(limit)''',
       '''        """List all vector IDs from disk (authoritative source)."""
        if not self._initialized and not self.disk_storage.data_dir.exists():
            raise StorageError("Storage backend not initialized")

        return [p.stem for p in self.disk_storage.vectors_dir.glob("*.npy")][:limit]''')],
     PRE + """
from valori.storage import HybridStorage
d = tempfile.mkdtemp()
try:
    s = HybridStorage({"disk": {"data_dir": d + "/x"}, "memory_limit": 3})
    s.initialize(); s.store_vector("a", np.ones(3)); s.close()
    sys.exit(0 if expect(StorageError, s.list_vectors) else 1)
finally:
    shutil.rmtree(d)
""", "list_vectors on a hybrid store that was opened and closed (its directory exists)", "a closed hybrid store still lists vectors")

seed("s01-ivf-close-keeps-ready", "C01",
     [("indices/ivf.py", '''        self._trained = False
        self._initialized = False

    def _train_index''', '''        self._initialized = self._trained
        self._trained = False

    def _train_index''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 2}); i.initialize(s)
i.insert(np.random.RandomState(0).rand(5, 4)); i.close()
sys.exit(0 if expect(ValoriIndexError, i.search, np.ones(4)) else 1)
""", "closing an IVF index after it trained itself", "a closed (previously trained) IVF index still answers searches")

seed("s02-client-flag-early", "C02",
     [("client.py", '''            if self.persistence_manager:
                self.persistence_manager.initialize()

            self._initialized = True
''', '''            self._initialized = True
            if self.persistence_manager:
                self.persistence_manager.initialize()

''')],
     PRE + """
from valori import VectorDBClient
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
try:
    open(d + "/f", "w").write("x")
    c = VectorDBClient(MemoryStorage({}), FlatIndex({}), None, TensorPersistence({"data_dir": d + "/f"}))
    if not expect(ValoriError, c.initialize): sys.exit(2)
    sys.exit(0 if expect(ValoriError, c.insert, np.ones((1, 3))) else 1)
finally:
    shutil.rmtree(d)
""", "persistence manager's initialize() fails (directory path is a file)", "the client accepts operations after initialize() raised")

seed("s02-disk-flag-finally", "C02",
     [("storage/disk.py", '''            # Count existing vectors
            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
            self._initialized = True

        except Exception as e:
            raise StorageError(f"Failed to initialize disk storage: {str(e)}")''',
       '''            self._initialized = True
            # Count existing vectors
            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
        except Exception as e:
            raise StorageError(f"Failed to initialize disk storage: {str(e)}")''')],
     PRE + """
import pathlib
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
g = pathlib.Path.glob
def boom(self, pat): raise OSError("io")
try:
    s = DiskStorage({"data_dir": d + "/x"})
    pathlib.Path.glob = boom
    if not expect(StorageError, s.initialize): sys.exit(2)
    pathlib.Path.glob = g
    sys.exit(0 if expect(StorageError, s.list_vectors) else 1)
finally:
    pathlib.Path.glob = g
    shutil.rmtree(d)
""", "listing the vectors directory fails while the disk store is being opened", "the disk store is usable although initialize() raised")

seed("s03-client-close-shortcircuit", "C03",
     [("client.py", '''            self.persistence_manager.close()

        if self.quantizer:''', '''            self.persistence_manager.close()
        elif self.quantizer:''')],
     PRE + """
from valori import VectorDBClient
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
from valori.quantization import ScalarQuantizer
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
try:
    q = ScalarQuantizer({})
    c = VectorDBClient(MemoryStorage({}), FlatIndex({}), q, TensorPersistence({"data_dir": d + "/p"}))
    c.initialize(); q.train(np.random.rand(5, 3)); c.close()
    sys.exit(0 if expect(QuantizationError, q.quantize, np.random.rand(2, 3)) else 1)
finally:
    shutil.rmtree(d)
""", "a client with both a quantizer and a persistence manager is closed", "the quantizer stays open (and keeps its training) after the client was closed")

seed("s03-hnsw-close-levels", "C03",
     [("indices/hnsw.py", '''        self.vectors.clear()
        self.levels.clear()
        self.max_level = 0''', '''        self.vectors.clear()
        if self.max_level:
            self.levels.clear()
        self.max_level = 0''')],
     PRE + """
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
import random
random.random = lambda: 0.9
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({}); i.initialize(s)
i.insert(np.ones((2, 3))); i.close()
sys.exit(0 if not any(l for l in i.levels) else 1)
""", "an HNSW index whose nodes are all on level 0 is closed", "the graph survives close()")

seed("s04-pq-trained-before-fit", "C04",
     [("quantization/product.py", """            self._trained = True

        except Exception as e:
            raise QuantizationError(f"Failed to train""", """        except Exception as e:
            raise QuantizationError(f"Failed to train"""),
      ("quantization/product.py", """            # Train each subvector separately
""", """            self._trained = True
            # Train each subvector separately
""")],
     PRE + """
from valori.quantization import ProductQuantizer
q = ProductQuantizer({"m": 2, "k": 4}); q.initialize()
v = np.random.RandomState(0).rand(10, 4).astype(np.float32); v[3, 3] = np.nan
if not expect(QuantizationError, q.train, v): sys.exit(2)
sys.exit(0 if expect(QuantizationError, q.quantize, np.ones((2, 4), np.float32)) else 1)
""", "k-means fails for a later sub-space (NaN in the training data)", "a failed first training leaves the product quantizer usable with half-built codebooks")

seed("s05-memory-update-alias", "C05",
     [("storage/memory.py", '''                # Update vector
                self.vectors[id] = vector.copy()
''', '''                # Update vector
                self.vectors[id] = np.ascontiguousarray(vector)
''')],
     PRE + """
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.zeros(3))
buf = np.array([1.0, 2.0, 3.0])
s.update_vector("a", buf)
buf[:] = 9
sys.exit(0 if s.retrieve_vector("a")[0].tolist() == [1, 2, 3] else 1)
""", "update with a contiguous array that the caller re-uses afterwards", "the memory store keeps the caller's own buffer")

seed("s05-ivf-cache-view", "C05",
     [("indices/ivf.py", '''                self.vectors_cache[vector_id] = vector.copy()
                inserted_ids''', '''                self.vectors_cache[vector_id] = vectors[i]
                inserted_ids''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 50, "metric": "euclidean"}); i.initialize(s)
b = np.eye(4)
ids = i.insert(b)
b[:] = 100
r = i.search(np.array([1.0, 0, 0, 0]), 1)
sys.exit(0 if r[0]["id"] == ids[0] and r[0]["distance"] < 1e-6 else 1)
""", "the caller re-uses the batch array after insert", "IVF keeps views of the caller's batch")

seed("s08-delete-raw-metadata-path", "C08",
     [("storage/disk.py", '''            # Delete metadata file
            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
''', '''            # Delete metadata file
            metadata_path = self.metadata_dir / f"{id}.pkl"
''')],
     PRE + """
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d + "/x"}); s.initialize()
    open(d + "/victim.pkl", "w").write("keep")
    s.store_vector("../../victim", np.ones(2), {"a": 1})
    s.delete_vector("../../victim")
    sys.exit(0 if os.path.exists(d + "/victim.pkl") and not os.listdir(d + "/x/metadata") else 1)
finally:
    shutil.rmtree(d)
""", "deleting an id that contains path separators", "delete unlinks a file outside the data directory and leaves the metadata behind")

seed("s08-list-skips-underscore", "C08",
     [("storage/disk.py", '''            vector_files = list(self.vectors_dir.glob("*.npy"))
''', '''            vector_files = list(self.vectors_dir.glob("[!_]*.npy"))
''')],
     PRE + """
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("_x", np.ones(2)); s.store_vector("y", np.ones(2))
    sys.exit(0 if sorted(s.list_vectors()) == ["_x", "y"] else 1)
finally:
    shutil.rmtree(d)
""", "an id starting with an underscore", "list_vectors omits stored ids")

seed("s09-memory-update-merges", "C09",
     [("storage/memory.py", '''                # Update metadata
                if metadata is not None:
                    self.metadata[id] = metadata.copy()
''', '''                # Update metadata
                if metadata is not None:
                    self.metadata[id] = {**self.metadata.get(id, {}), **metadata}
''')],
     PRE + """
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.zeros(3), {"tag": 1, "old": 2})
s.update_vector("a", np.ones(3), {"tag": 5})
sys.exit(0 if s.retrieve_vector("a")[1] == {"tag": 5} else 1)
""", "update with metadata lacking a key the previous metadata had", "metadata of the replaced record survives an update")

seed("s09-disk-empty-metadata", "C09",
     [("storage/disk.py", '''            # Update metadata
            if metadata is not None:
                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
                with open(metadata_path, "wb") as f:
                    pickle.dump(metadata, f)
            else:
''', '''            # Update metadata
            if metadata:
                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
                with open(metadata_path, "wb") as f:
                    pickle.dump(metadata, f)
            elif metadata is None:
''')],
     PRE + """
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("a", np.zeros(3), {"old": 2})
    s.update_vector("a", np.ones(3), {})
    sys.exit(0 if not s.retrieve_vector("a")[1] else 1)
finally:
    shutil.rmtree(d)
""", "update with an empty metadata dictionary over a record that had metadata", "the old metadata stays attached to the new vector")

seed("s10-flat-update-cache-first", "C10",
     [("indices/flat.py", '''            if not sb.update_vector(id, vector, metadata):
                return False

            # Update cache
            self.vector_cache[id] = vector.copy()

            return True
''', '''            # Update cache
            self.vector_cache[id] = vector.copy()

            return bool(sb.update_vector(id, vector, metadata))
''')],
     PRE + """
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
class Refusing(MemoryStorage):
    def update_vector(self, *a, **k):
        return False
s = Refusing({}); s.initialize()
i = FlatIndex({}); i.initialize(s); ids = i.insert(np.eye(3))
q = np.array([0.0, 0.0, 1.0])
before = sorted((r["id"], round(r["distance"], 6)) for r in i.search(q, 3))
ok = i.update(ids[0], np.array([0.0, 0.0, 9.0])) is False
after = sorted((r["id"], round(r["distance"], 6)) for r in i.search(q, 3))
sys.exit(0 if ok and before == after else 1)
""", "a storage backend that refuses the update", "the refused vector answers the next searches")


seed("s10-disk-update-orphan", "C10",
     [("storage/disk.py", '''            if not vector_path.exists():
                return False

            # Update vector
''', '''            if not vector_path.exists() and not any(self.metadata_dir.glob(f"{safe_id}*")):
                return False

            # Update vector
''')],
     PRE + """
from valori.storage import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("ab", np.zeros(3), {"m": 2})
    ok = s.update_vector("a", np.ones(3)) is False and s.list_vectors() == ["ab"]
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(d)
""", "updating an unknown id that is a prefix of a stored one with metadata", "update creates a record for an id that was never stored")

seed("s11-promotion-drops-metadata", "C11",
     [("storage/hybrid.py", '''                        # Evict and promote
                        self._evict_from_memory()
                        self.memory_storage.store_vector(id, vector, metadata)
''', '''                        # Evict and promote
                        self._evict_from_memory()
                        self.memory_storage.store_vector(id, vector)
''')],
     PRE + """
from valori.storage import HybridStorage
d = tempfile.mkdtemp()
try:
    s = HybridStorage({"disk": {"data_dir": d}, "memory_limit": 1}); s.initialize()
    s.store_vector("a", np.ones(3), {"n": "a"}); s.store_vector("b", np.ones(3), {"n": "b"})
    s.retrieve_vector("a")
    r = s.retrieve_vector("a")
    sys.exit(0 if r[1] == {"n": "a"} else 1)
finally:
    shutil.rmtree(d)
""", "reading a record twice after it was evicted from a full memory tier", "a promoted record loses its metadata")

seed("s11-update-memory-first", "C11",
     [("storage/hybrid.py", '''                # Update in disk
                disk_success = self.disk_storage.update_vector(id, vector, metadata)

                # Update in memory if it exists there
                if disk_success:
                    self.memory_storage.update_vector(id, vector, metadata)

                return disk_success
''', '''                # Update in memory if it exists there, then on disk
                self.memory_storage.update_vector(id, vector, metadata)
                return self.disk_storage.update_vector(id, vector, metadata)
''')],
     PRE + """
from valori.storage import HybridStorage
d = tempfile.mkdtemp()
try:
    s = HybridStorage({"disk": {"data_dir": d}, "memory_limit": 5}); s.initialize()
    s.store_vector("a", np.zeros(3))
    def boom(*a): raise OSError("disk full")
    s.disk_storage.update_vector = boom
    expect(StorageError, s.update_vector, "a", np.ones(3))
    sys.exit(0 if s.retrieve_vector("a")[0].tolist() == [0, 0, 0] else 1)
finally:
    shutil.rmtree(d)
""", "a disk write failing during update", "memory holds a vector the disk tier rejected")

seed("s12-promotion-off-by-one", "C12",
     [("storage/hybrid.py", '''                    vector, metadata = result
                    memory_stats = self.memory_storage.get_stats()
                    current_count = memory_stats.get("vector_count", 0)

                    if current_count < self.memory_limit:
''', '''                    vector, metadata = result
                    memory_stats = self.memory_storage.get_stats()
                    current_count = memory_stats.get("vector_count", 0)

                    if current_count - 1 < self.memory_limit:
''')],
     PRE + """
from valori.storage import HybridStorage
d = tempfile.mkdtemp()
try:
    s = HybridStorage({"disk": {"data_dir": d}, "memory_limit": 2}); s.initialize()
    for n in "abcd":
        s.store_vector(n, np.ones(3))
    s.retrieve_vector("a")
    sys.exit(0 if len(s.memory_storage.vectors) <= 2 else 1)
finally:
    shutil.rmtree(d)
""", "a read that promotes an evicted record into a full memory tier", "memory tier exceeds its limit after promotion")

seed("s13-update-check-outside-lock", "C13",
     [("storage/memory.py", '''        try:
            with self.lock:
                if id not in self.vectors:
                    return False

                # Update vector
''', '''        try:
            if id not in self.vectors:
                return False

            with self.lock:
                # Update vector
''')],
     PRE + """
import threading
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.zeros(3))
class L:                              # another thread deletes the record while this one waits for the lock
    def __init__(self): self.l = threading.RLock(); self.n = 0
    def __enter__(self):
        self.n += 1
        if self.n == 1:
            s.delete_vector("a")
        self.l.acquire()
    def __exit__(self, *a): self.l.release()
s.lock = L()
r = s.update_vector("a", np.ones(3))
sys.exit(0 if r is False and s.retrieve_vector("a") is None else 1)
""", "a delete by another thread between update's existence test and its lock acquisition", "an update resurrects a deleted record")

seed("s14-ivf-double-cluster", "C14",
     [("indices/ivf.py", '''                self._train_index()
            elif self._trained:
                # Add new vectors''', '''                self._train_index()
            if self._trained:
                # Add new vectors''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 2, "n_probes": 2}); i.initialize(s)
ids = i.insert(np.random.RandomState(0).rand(6, 4))
r = [x["id"] for x in i.search(np.ones(4), 6)]
sys.exit(0 if sorted(r) == sorted(ids) else 1)
""", "the insert that triggers training", "vectors of the training batch are filed twice and crowd out others")

seed("s14-hnsw-metadata-shift", "C14",
     [("indices/hnsw.py", '''                vector_metadata = (
                    metadata[i] if metadata and i < len(metadata) else None
                )
''', '''                vector_metadata = (
                    metadata[i] if metadata and i < len(metadata) - 1 else None
                )
''')],
     PRE + """
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({}); i.initialize(s)
ids = i.insert(np.eye(3), [{"n": 0}, {"n": 1}, {"n": 2}])
sys.exit(0 if [s.retrieve_vector(x)[1] for x in ids] == [{"n": 0}, {"n": 1}, {"n": 2}] else 1)
""", "metadata of the last vector of a batch", "the last vector's metadata is dropped")

seed("s15-hnsw-top-level-stays", "C15",
     [("indices/hnsw.py", '''        for level in self.levels:
            if vector_id in level:
''', '''        for level in self.levels[: max(1, self.max_level)]:
            if vector_id in level:
''')],
     PRE + """
import random
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
for seed in range(20):
    random.seed(seed)
    s = MemoryStorage({}); s.initialize()
    i = HNSWIndex({}); i.initialize(s)
    ids = i.insert(np.random.RandomState(seed).rand(12, 4))
    i.delete(ids[:6])
    for lv in i.levels:
        if any(x in lv for x in ids[:6]) or any(x in n for n in lv.values() for x in ids[:6]):
            sys.exit(1)
sys.exit(0)
""", "deleting a vector that lives on the top level of a graph with at least two levels", "deleted ids stay on the top level and break searches")

seed("s15-ivf-delete-last-wins", "C15",
     [("indices/ivf.py", '''                if not sb.delete_vector(vector_id):
                    success = False
''', '''                success = sb.delete_vector(vector_id)
''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({}); i.initialize(s)
ids = i.insert(np.eye(3))
sys.exit(0 if i.delete(["nope", ids[0]]) is False else 1)
""", "an unknown id followed by a known one", "delete reports success although an id was unknown")

seed("s16-ivf-stale-cluster", "C16",
     [("indices/ivf.py", '''            # Update cache
            self.vectors_cache[id] = vector.copy()

            # If trained, update cluster assignment
            if self._trained:
                self._update_cluster_assignment(id, vector)

            return True
''', '''            # If trained, update cluster assignment
            if self._trained:
                self._update_cluster_assignment(id, vector)

            # Update cache
            self.vectors_cache[id] = vector.copy()

            return True
'''), ("indices/ivf.py", '''        self._add_to_cluster(vector_id, vector)
''', '''        self._add_to_cluster(vector_id, self.vectors_cache.get(vector_id, vector))
''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 2, "n_probes": 1, "metric": "euclidean"}); i.initialize(s)
ids = i.insert(np.array([[0., 0], [0, 1], [10, 10], [10, 11]]))
i.update(ids[0], np.array([10., 10.5]))
r = i.search(np.array([10., 10.5]), 1)
sys.exit(0 if r and r[0]["id"] == ids[0] else 1)
""", "an update that moves a vector to another cluster of a trained index", "the vector stays filed under the cluster of its old value")

seed("s16-hnsw-update-noop", "C16",
     [("indices/hnsw.py", '''            # Update in graph
            if id in self.vectors:
                self.vectors[id] = vector.copy()
''', '''            # Update in graph
            if id in self.levels[self.max_level]:
                self.vectors[id] = vector.copy()
''')],
     PRE + """
import random
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
random.seed(1)
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({"metric": "euclidean"}); i.initialize(s)
ids = i.insert(np.eye(8))
for x in ids:
    i.update(x, np.full(8, 5.0))
sys.exit(0 if all(v.tolist() == [5.0] * 8 for v in i.vectors.values()) else 1)
""", "updating a vector that is not on the top graph level", "search keeps using the old vector")

seed("s17-flat-position-shift", "C17",
     [("indices/flat.py", "vector_id = valid_ids[idx]", "vector_id = self.vector_ids[idx]")],
     PRE + """
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
for n, v in (("a", [1., 0, 0]), ("b", [0, 1., 0]), ("c", [0, 0, 1.])):
    s.store_vector(n, np.array(v), {"n": n})
i = FlatIndex({"metric": "euclidean"}); i.initialize(s)
s.delete_vector("a")
try:
    r = i.search(np.array([0, 0, 1.]), 1)
except Exception as e:
    print(e); sys.exit(1)
sys.exit(0 if [x["id"] for x in r] == ["c"] else 1)
""", "a record that left the storage backend after the index was loaded, before any search cached it", "every later position names the neighbour's id, with the neighbour's metadata")

seed("s17-lsh-relaxed-duplicates", "C17",
     [("indices/lsh.py", "        candidates = set()\n\n        # Try searching with Hamming", "        candidates = []\n\n        # Try searching with Hamming"),
      ("indices/lsh.py", "                    candidates.update(vector_ids)\n\n        return", "                    candidates.extend(vector_ids)\n\n        return")],
     PRE + """
from valori.indices import LSHIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
bad = 0
for seed_ in range(60):
    i = LSHIndex({"num_hash_tables": 6, "hash_size": 6, "num_projections": 16, "threshold": -1.0, "random_seed": seed_})
    np.random.seed(seed_)
    i.initialize(s)
    i.insert(np.random.randn(3, 8), [{}, {}, {}])
    r = [x["id"] for x in i.search(np.random.randn(8), 3)]
    bad += len(set(r)) != len(r)
sys.exit(1 if bad else 0)
""", "a query that shares no bucket with any vector but lies within two bits in several hash tables", "the same vector is answered several times")

seed("s18-lsh-count-check-in-loop", "C18",
     [("indices/lsh.py", '''        if len(vectors) != len(metadata):
            raise ValoriIndexError(
                "Number of vectors must match number of metadata items"
            )

        if vectors.ndim != 2''', '''        if len(vectors) < len(metadata):
            raise ValoriIndexError(
                "Number of vectors must match number of metadata items"
            )

        if vectors.ndim != 2'''),
      ("indices/lsh.py", '''        for i, vector in enumerate(vectors):
            vector_id = self._next_id
''', '''        for i, vector in enumerate(vectors):
            if i >= len(metadata):
                raise ValoriIndexError(
                    "Number of vectors must match number of metadata items"
                )
            vector_id = self._next_id
''')],
     PRE + """
from valori.indices import LSHIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = LSHIndex({}); i.initialize(s)
ok = expect(ValoriIndexError, i.insert, np.eye(4), [{}, {}, {}])
sys.exit(0 if ok and i.get_stats()["num_vectors"] == 0 else 1)
""", "a batch with fewer metadata entries than vectors, at least one", "the refused batch leaves its first vectors in the index")

seed("s18-ivf-row-vector", "C18",
     [("indices/ivf.py", '''        if vectors.ndim != 2:
            raise ValoriIndexError("Vectors must be 2D array")

        try:''', '''        if vectors.ndim not in (1, 2):
            raise ValoriIndexError("Vectors must be 2D array")

        try:''')],
     PRE + """
from valori.indices import IVFIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 2}); i.initialize(s)
try:
    i.insert(np.ones(3))
except ValoriIndexError:
    pass
sys.exit(0 if s.list_vectors() == [] else 1)
""", "a single vector given without the batch dimension to an empty index", "every component of the vector is stored as a vector of its own")

seed("s19-hnsw-load-page", "C19",
     [("indices/hnsw.py", "existing_ids = sb.list_vectors()", "existing_ids = sb.list_vectors(limit=self.ef_construction)")],
     PRE + """
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
for n in range(250):
    s.store_vector(str(n), np.random.rand(4))
i = HNSWIndex({"m": 4}); i.initialize(s)
sys.exit(0 if len(i.vectors) == 250 else 1)
""", "a backend that already holds more than ef_construction (200) vectors", "the vectors beyond are never found again")

seed("s19-hnsw-unreadable-stops", "C19",
     [("indices/hnsw.py", '''                if result is not None:
                    vector, _ = result
                    self._insert_vector_internal(vector_id, vector)
''', '''                if result is None:
                    break
                vector, _ = result
                self._insert_vector_internal(vector_id, vector)
''')],
     PRE + """
from valori.indices import HNSWIndex
from valori.storage import MemoryStorage
class S(MemoryStorage):
    def list_vectors(self, limit=None):
        return ["gone"] + super().list_vectors(limit)
s = S({}); s.initialize()
for n in range(5):
    s.store_vector(str(n), np.random.rand(4))
i = HNSWIndex({"m": 4}); i.initialize(s)
sys.exit(0 if len(i.vectors) == 5 else 1)
""", "a listed id without a record (removed by another process between listing and reading)", "every vector listed after it is left out")

seed("s33-flat-count-on-success", "C33",
     [("indices/flat.py", '''                if vector_id in self.vector_ids:
                    self.vector_ids.remove(vector_id)

                # Remove from cache
                self.vector_cache.pop(vector_id, None)

            self._vector_count = len(self.vector_ids)
            return success''', '''                if vector_id in self.vector_ids:
                    self.vector_ids.remove(vector_id)

                # Remove from cache
                self.vector_cache.pop(vector_id, None)

            if success:
                self._vector_count = len(self.vector_ids)
            return success''')],
     PRE + """
from valori.indices import FlatIndex
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = FlatIndex({}); i.initialize(s)
a, b = i.insert(np.eye(2))
i.delete([a, "nobody"])
sys.exit(0 if i.get_stats()["vector_count"] == 1 else 1)
""", "deleting a known id together with an unknown one", "the published count still includes the deleted vector")

seed("s33-memory-overwrite-counts", "C33",
     [("storage/memory.py", '''                    self.metadata.pop(id, None)  # Remove if exists

                # Update stats
                self._vector_count = len(self.vectors)''', '''                    self.metadata.pop(id, None)  # Remove if exists

                # Update stats
                self._vector_count += 1''')],
     PRE + """
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.ones(3)); s.store_vector("a", np.zeros(3))
sys.exit(0 if s.get_stats()["vector_count"] == 1 else 1)
""", "storing a second vector under an id that is already taken", "the vector count counts the overwritten vector")

seed("s35-update-default-metadata", "C35",
     [("client.py", "return self.index.update(id, vector, metadata)", "return self.index.update(id, vector, metadata or {})")],
     PRE + """
from valori import VectorDBClient
from valori.indices import LSHIndex
from valori.storage import MemoryStorage
c = VectorDBClient(MemoryStorage({}), LSHIndex({"threshold": -1.0})); c.initialize()
[x] = c.insert(np.ones((1, 4)), [{"a": 1}])
c.update(x, np.full(4, 2.0))
r = c.index.metadata[int(x)]
sys.exit(0 if r == {"a": 1} else 1)
""", "an update without metadata on an index that then keeps the old metadata (LSH, Annoy)", "the metadata is wiped")

seed("s35-insert-list-metadata", "C35",
     [("client.py", "return self.index.insert(vectors, metadata)", "return self.index.insert(vectors, metadata if metadata and len(metadata) == len(vectors) else None)")],
     PRE + """
from valori import VectorDBClient
from valori.indices import LSHIndex
from valori.storage import MemoryStorage
c = VectorDBClient(MemoryStorage({}), LSHIndex({})); c.initialize()
sys.exit(0 if expect(ValoriIndexError, c.insert, np.eye(3), [{"a": 1}]) else 1)
""", "a metadata list of another length than the batch", "the metadata is silently dropped instead of refused")

seed("s23-index-same-size-skip", "C23",
     [("persistence/tensor.py", '''            with open(file_path, "wb") as f:
                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
''', '''            payload = pickle.dumps(index_data, protocol=pickle.HIGHEST_PROTOCOL)
            if file_path.exists() and file_path.stat().st_size == len(payload):
                # Nothing changed since the last save
                return True

            with open(file_path, "wb") as f:
                f.write(payload)
''')],
     PRE + """
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
try:
    p = TensorPersistence({"data_dir": d}); p.initialize()
    p.save_index({"k": 1}, "i"); p.save_index({"k": 2}, "i")
    sys.exit(0 if p.load_index("i") == {"k": 2} else 1)
finally:
    shutil.rmtree(d)
""", "saving a changed index whose serialised form has the same length as the one on disk", "the second save reports success but the old index stays")

seed("s23-state-drops-none", "C23",
     [("persistence/tensor.py", "pickle.dump(state, f,", "pickle.dump({k: v for k, v in state.items() if v is not None}, f,")],
     PRE + """
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
try:
    p = TensorPersistence({"data_dir": d}); p.initialize()
    p.save_state({"a": None, "b": 0}, "s")
    sys.exit(0 if p.load_state("s") == {"a": None, "b": 0} else 1)
finally:
    shutil.rmtree(d)
""", "a state with an entry whose value is None", "the entry is missing after loading")

seed("s24-log-compacted", "C24",
     [("persistence/incremental.py", '''            # For now, just update the checkpoint info
            self._last_checkpoint = self._operation_count
''', '''            # The state up to here is known, entries before the checkpoint are not needed
            self._last_checkpoint = self._operation_count
            open(self.log_file, "w").close()
''')],
     PRE + """
from valori.persistence import IncrementalPersistence
d = tempfile.mkdtemp()
try:
    p = IncrementalPersistence({"data_dir": d, "checkpoint_interval": 3}); p.initialize()
    for i in range(4):
        p.save_index({"i": i}, f"i{i}")
    sys.exit(0 if len(p.log_file.read_text().splitlines()) == 4 else 1)
finally:
    shutil.rmtree(d)
""", "as many operations as the checkpoint interval", "the operation log loses the entries written before the checkpoint")

seed("s24-checkpoints-by-name", "C24",
     [("persistence/incremental.py", 'checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))', 'checkpoint_files.sort(key=lambda x: x.name)')],
     PRE + """
from valori.persistence import IncrementalPersistence
d = tempfile.mkdtemp()
try:
    p = IncrementalPersistence({"data_dir": d}); p.initialize()
    for i in range(12):
        p.save_state({"i": i}, "s")
    sys.exit(0 if p.load_state("s") == {"i": 11} else 1)
finally:
    shutil.rmtree(d)
""", "ten or more operations before the last checkpoint", "load_state returns checkpoint 9 instead of the latest")

seed("s25-text-skip-separator", "C25",
     [("parsers/text_parser.py", "                if break_point > start + self.chunk_size // 2:\n                    end = break_point + 1\n", "                if break_point > start + self.chunk_size // 2:\n                    end = break_point + 1\n                elif text.rfind(\" \", start, end) > start:\n                    end = text.rfind(\" \", start, end)\n"),
      ("parsers/text_parser.py", "            start = max(end - self.chunk_overlap, start + 1)", "            start = end - self.chunk_overlap if end - self.chunk_overlap > start else end + 1")],
     PRE + """
import os
from valori.parsers.text_parser import TextParser
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "a.txt")
    text = "ab cdefghijklmnopqrstuvwxyz"
    open(f, "w").write(text)
    p = TextParser({"chunk_size": 6, "chunk_overlap": 3}); p.initialize()
    ch = p.parse(f)["chunks"]
    at = 0
    for c in ch:
        if c["start_pos"] > at:
            sys.exit(1)
        at = max(at, c["end_pos"])
    sys.exit(0 if at == len(text) else 1)
finally:
    shutil.rmtree(d)
""", "a break point close to the start of a chunk, so that the chunk is not longer than the overlap", "one character between two chunks belongs to no chunk")

seed("s25-sliding-last-window", "C25",
     [("processors/chunking.py", "for i in range(0, len(text), step_size):", "for i in range(0, max(len(text) - self.chunk_overlap, 1), step_size):"),
      ("processors/chunking.py", "            end = min(i + window_size, len(text))", "            end = min(i + window_size, len(text) - len(text) % 2)")],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
p = ChunkingProcessor({"chunk_size": 10, "chunk_overlap": 2, "min_chunk_size": 1, "strategy": "sliding_window"}); p.initialize()
ch = p.process({"text": "abcdefghijklmnopq"})["chunks"]
sys.exit(0 if ch and max(c["end_pos"] for c in ch) == 17 else 1)
""", "a text of odd length", "the last character is in no chunk")

seed("s25-semantic-tail-dropped", "C25",
     [("processors/chunking.py", "        # Add final chunk\n        if current_chunk:", "        # Add final chunk\n        if len(current_chunk) > self.chunk_overlap or not chunks:")],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
p = ChunkingProcessor({"chunk_size": 20, "chunk_overlap": 15, "min_chunk_size": 1, "strategy": "semantic"}); p.initialize()
ch = p.process({"text": "aaaaaaaaaaaaaaa\\n\\nbbbbbbbbbb"})["chunks"]
sys.exit(0 if "b" * 10 in "".join(c["text"] for c in ch) else 1)
""", "a last paragraph so short that the collected rest is not longer than the overlap while the chunk before was not longer than the overlap either", "the last paragraph is in no chunk")

DUMMY = """
from valori.parsers.base import DocumentParser
from valori.parsers.registry import ParserRegistry
def parser(tag, suffixes, broken=False):
    class D(DocumentParser):
        closed = False
        def initialize(self):
            if broken: raise RuntimeError("no")
            self._initialized = True
        def get_supported_formats(self): return list(suffixes)
        def can_parse(self, f):
            from pathlib import Path
            return Path(f).suffix.lower() in suffixes
        def parse(self, f): return {"text": tag, "metadata": {}, "by": tag}
        def close(self): D.closed = True
    D.tag = tag
    return D
"""

seed("s27-one-candidate-shortcut", "C27",
     [("parsers/registry.py", "                suitable_parsers.append((priority, parser_name, parser))\n", "                suitable_parsers.append((priority, parser_name, parser))\n                if priority >= len(self.parsers):\n                    # nothing registered can rank higher\n                    break\n")],
     PRE + DUMMY + """
r = ParserRegistry({"parsers": {}}); r.initialize()
r.add_parser("pdf", parser("pdf", [".x"]), {})
r.add_parser("docling", parser("docling", [".x"]), {})
sys.exit(0 if r.get_parser("a.x").tag == "docling" else 1)
""", "parsers that rank higher than the number of registered parsers, added after a lower-ranking one for the same suffix", "a parser with a lower priority is answered")

seed("s27-failed-add-stays", "C27",
     [("parsers/registry.py", "            parser = parser_class(config)\n            parser.initialize()\n            self.parsers[name] = parser\n            self.parser_classes[name] = parser_class\n", "            parser = parser_class(config)\n            self.parsers[name] = parser\n            parser.initialize()\n            self.parser_classes[name] = parser_class\n")],
     PRE + DUMMY + """
r = ParserRegistry({"parsers": {}}); r.initialize()
try:
    r.add_parser("bad", parser("bad", [".x"], broken=True), {})
except Exception:
    pass
try:
    r.get_parser("a.x")
    sys.exit(1)
except Exception:
    sys.exit(0)
""", "a custom parser whose initialize fails", "the parser that could not be added is answered for its files")

seed("s27-remove-replaces", "C27",
     [("parsers/registry.py", "            parser = self.parsers[name]\n            parser.close()\n            del self.parsers[name]\n\n        if name in self.parser_classes:\n            del self.parser_classes[name]\n", "            parser = self.parsers[name]\n            parser.close()\n            if name not in self.parser_classes:\n                del self.parsers[name]\n\n        if name in self.parser_classes:\n            del self.parser_classes[name]\n")],
     PRE + DUMMY + """
r = ParserRegistry({"parsers": {}}); r.initialize()
r.add_parser("mine", parser("mine", [".x"]), {})
r.remove_parser("mine")
try:
    r.get_parser("a.x")
    sys.exit(1)
except Exception:
    sys.exit(0)
""", "removing a parser whose class is registered too, which is every one that was added", "a removed, closed parser keeps being answered")

seed("s28-skip-empty", "C28",
     [("processors/pipeline.py", "            for processor in self.processors:\n                processed_data = processor.process(processed_data)\n\n            # Add pipeline metadata\n            processed_data[\"pipeline_metadata\"] = {\n                \"input_type\"", "            for processor in self.processors:\n                processed_data = processor.process(processed_data)\n                if not processed_data.get(\"text\"):\n                    # nothing left to process\n                    break\n\n            # Add pipeline metadata\n            processed_data[\"pipeline_metadata\"] = {\n                \"input_type\"")],
     PRE + """
from valori.processors.pipeline import ProcessingPipeline
p = ProcessingPipeline({"processors": {"cleaning": {}, "chunking": {"chunk_size": 50, "chunk_overlap": 0}}}); p.initialize()
r = p.process_text("  \\n ")
sys.exit(0 if "chunks" in r else 1)
""", "a text that cleaning leaves nothing of", "the later processors are skipped, so the answer has no chunks")

seed("s28-batch-dedupe", "C28",
     [("processors/pipeline.py", "        for file_path in file_paths:\n            try:", "        for file_path in dict.fromkeys(file_paths):\n            try:")],
     PRE + """
import os
from valori.processors.pipeline import ProcessingPipeline
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "a.txt"); open(f, "w").write("hello there")
    p = ProcessingPipeline({"parsers": {"text": {}}, "processors": {}}); p.initialize()
    sys.exit(0 if len(p.batch_process_documents([f, f, os.path.join(d, "b.txt")])) == 3 else 1)
finally:
    shutil.rmtree(d)
""", "a batch that names a document twice", "the results no longer correspond to the paths one to one")

seed("s28-empty-config", "C28",
     [("processors/pipeline.py", "            if \"cleaning\" in processor_configs:\n                cleaning_processor = CleaningProcessor(processor_configs[\"cleaning\"])", "            if processor_configs.get(\"cleaning\"):\n                cleaning_processor = CleaningProcessor(processor_configs[\"cleaning\"])")],
     PRE + """
from valori.processors.pipeline import ProcessingPipeline
p = ProcessingPipeline({"processors": {"cleaning": {}}}); p.initialize()
sys.exit(0 if len(p.processors) == 1 else 1)
""", "a processor configured with an empty configuration (all defaults)", "the configured processor is left out")

seed("s26-excel-zero-cells", "C26",
     [("parsers/office_parser.py", "                    if cell is not None:", "                    if cell:")],
     PRE + """
import openpyxl
from valori.parsers.office_parser import OfficeParser
d = tempfile.mkdtemp()
try:
    w = openpyxl.Workbook(); w.active.append(["stock", 0]); w.save(d + "/a.xlsx")
    p = OfficeParser({}); p.initialize()
    sys.exit(0 if "stock | 0" in p.parse(d + "/a.xlsx")["text"] else 1)
finally:
    shutil.rmtree(d)
""", "a spreadsheet cell holding 0 or False", "cells with the value zero vanish from the text")

seed("s26-text-size-limit-decoded", "C26",
     [("parsers/text_parser.py", "            if file_size > self.max_file_size:\n                raise ParsingError(f\"File too large: {file_size} bytes\")\n\n            # Read", "            if self.max_file_size and file_size > self.max_file_size:\n                raise ParsingError(f\"File too large: {file_size} bytes\")\n\n            # Read")],
     PRE + """
from valori.parsers.text_parser import TextParser
d = tempfile.mkdtemp()
try:
    open(d + "/a.txt", "w").write("hello")
    p = TextParser({"max_file_size": 0}); p.initialize()
    sys.exit(0 if expect(ParsingError, p.parse, d + "/a.txt") else 1)
finally:
    shutil.rmtree(d)
""", "a limit of 0 bytes (only empty files are acceptable)", "the configured limit is ignored")

seed("s26-pptx-number-of-kept", "C26",
     [("parsers/office_parser.py", '                        "slide_number": slide_num + 1,', '                        "slide_number": len(slides_info) + 1,')],
     PRE + """
import pptx
from valori.parsers.office_parser import OfficeParser
d = tempfile.mkdtemp()
try:
    q = pptx.Presentation()
    q.slides.add_slide(q.slide_layouts[6])
    s = q.slides.add_slide(q.slide_layouts[5]); s.shapes.title.text = "second"
    q.save(d + "/a.pptx")
    p = OfficeParser({}); p.initialize()
    r = p.parse(d + "/a.pptx")
    sys.exit(0 if r["metadata"]["slides_info"][0]["slide_number"] == 2 else 1)
finally:
    shutil.rmtree(d)
""", "a presentation with a slide without text before one with text", "slides are numbered as if the empty ones did not exist")

seed("s26-text-ignore", "C26",
     [("parsers/text_parser.py", 'errors="replace"', 'errors="ignore"')],
     PRE + """
from valori.parsers.text_parser import TextParser
d = tempfile.mkdtemp()
try:
    open(d + "/b.txt", "wb").write(b"ab\\xff\\xfecd")
    q = TextParser({"encoding": "utf-8"}); q.initialize()
    t = q.parse(d + "/b.txt")["text"]
    sys.exit(0 if t == "ab\\ufffd\\ufffdcd" else 1)
finally:
    shutil.rmtree(d)
""", "a file with bytes that are not text in the configured encoding", "undecodable bytes vanish without a trace, joining what was apart")

seed("s26-docx-repeated", "C26",
     [("parsers/office_parser.py", "            text = paragraph.text.strip()\n            if text:", "            text = paragraph.text.strip()\n            if text and text not in text_parts[-1:]:")],
     PRE + """
import docx
from valori.parsers.office_parser import OfficeParser
d = tempfile.mkdtemp()
try:
    q = docx.Document()
    for t in ("no", "no", "yes"): q.add_paragraph(t)
    q.save(d + "/a.docx")
    p = OfficeParser({}); p.initialize()
    sys.exit(0 if p.parse(d + "/a.docx")["text"] == "no\\nno\\nyes" else 1)
finally:
    shutil.rmtree(d)
""", "a document with two equal paragraphs in a row", "the repeated paragraph is dropped")

BM = PRE + """
import numpy as np
from valori.utils.batch_manager import BatchManager
class Client:
    def __init__(self, bad=(), slow=()): self.bad, self.slow, self.got = set(bad), set(slow), []
    def insert(self, v, m):
        import time
        first = m[0]["i"]
        if first in self.slow: time.sleep(0.3)
        if first in self.bad: raise RuntimeError("bad %d" % first)
        assert len(v) == len(m) and all(int(x[0]) == y["i"] for x, y in zip(v, m))
        self.got.append(first)
        return [100 + y["i"] for y in m]
    def search(self, q, k=10):
        if int(q[0]) in self.bad: raise RuntimeError("bad")
        return [{"id": int(q[0]), "k": k}]
V = np.array([[i, 0.0] for i in range(10)]); META = [{"i": i} for i in range(10)]
"""

seed("s29-search-failed-dropped", "C29",
     [("utils/batch_manager.py", "                    except Exception as e:\n                        batch_results.append([])\n", "                    except Exception as e:\n                        if not batch_results:\n                            batch_results.append([])\n")],
     BM + """
errs = []
m = BatchManager(batch_size=4); m.set_error_callback(lambda e, q: errs.append(q))
r = m.batch_search(Client(bad=[2]), V, k=3, show_progress=False)
sys.exit(0 if [x and x[0]["id"] for x in r] == [0, 1, [], 3, 4, 5, 6, 7, 8, 9] else 1)
""", "a query that fails and is not the first of its batch", "results after it are taken for the answers to other queries")

seed("s29-parallel-last-batch", "C29",
     [("utils/batch_manager.py", "                    \"metadata\": metadata[i : i + self.batch_size],\n                    \"batch_id\"", "                    \"metadata\": metadata[i : min(i + self.batch_size, len(vectors) - 1)]\n                    or metadata[i:],\n                    \"batch_id\"")],
     BM + """
m = BatchManager(batch_size=4, max_workers=2)
r = m.parallel_batch_insert(Client(), V, META, show_progress=False)
sys.exit(0 if r == list(range(100, 110)) else 1)
""", "a last batch with more than one item", "the last batch has one metadata too few, so it is inserted incompletely or not at all")

seed("s29-failed-amount", "C29",
     [("utils/batch_manager.py", "                        ) + len(batches[batch_id][\"vectors\"])\n                        if self.error_callback", "                        ) + self.batch_size\n                        if self.error_callback")],
     BM + """
m = BatchManager(batch_size=4, max_workers=2); m.set_error_callback(lambda e, b: None)
m.parallel_batch_insert(Client(bad=[8]), V, META, show_progress=False)
sys.exit(0 if m.get_stats()["failed_items"] == 2 else 1)
""", "a failing last batch that is smaller than the others", "more items are counted as failed than there are")

seed("s29-helper-search-flush", "C29",
     [("utils/helpers.py", "        for query_vector in batch:\n            results = index.search(query_vector, k=k)\n            all_results.append(results)", "        for query_vector in batch:\n            results = index.search(query_vector, k=k)\n            if not results and all_results:\n                continue\n            all_results.append(results)")],
     PRE + """
import numpy as np
from valori.utils.helpers import batch_search
class Index:
    def search(self, q, k=10): return [] if q[0] == 3 else [{"id": int(q[0])}]
r = batch_search(Index(), np.array([[i, 0.0] for i in range(6)]), k=2, batch_size=2)
sys.exit(0 if len(r) == 6 and r[3] == [] and r[5] == [{"id": 5}] else 1)
""", "a query without results after one with results", "later results are taken for the answers to other queries")

seed("s29-stop-after-failure", "C29",
     [("utils/batch_manager.py", "                        if self.error_callback:\n                            self.error_callback(e, query)\n", "                        if self.error_callback:\n                            self.error_callback(e, query)\n                        else:\n                            raise\n")],
     BM + """
m = BatchManager(batch_size=4)
try: r = m.batch_search(Client(bad=[2]), V, k=3, show_progress=False)
except RuntimeError: sys.exit(1)
sys.exit(0 if len(r) == 10 and r[2] == [] else 1)
""", "a query that fails on a manager without error callback", "the whole search fails and the results found so far are lost")

seed("s06-clean-chunk-in-place", "C06",
     [("processors/cleaning.py", "                cleaned_chunk = chunk.copy()\n", "                cleaned_chunk = chunk\n")],
     PRE + """
from valori.processors.cleaning import CleaningProcessor
p = CleaningProcessor({}); p.initialize()
d = {"text": "a  b", "chunks": [{"text": "a  b", "start": 0}]}
p.process(d)
sys.exit(0 if d == {"text": "a  b", "chunks": [{"text": "a  b", "start": 0}]} else 1)
""", "a document with chunks whose text needs cleaning", "the caller's chunks are overwritten with the cleaned text")

seed("s06-scalar-train-centred", "C06",
     [("quantization/scalar.py", "            # Round and clip to valid range\n", "            # Ignore what is not a number\n            vectors[~np.isfinite(vectors)] = 0\n            # Round and clip to valid range\n")],
     PRE + """
import numpy as np
from valori.quantization.scalar import ScalarQuantizer
q = ScalarQuantizer({"bits": 8}); q.initialize()
q.train(np.random.RandomState(0).rand(20, 4))
v = np.array([[0.1, np.nan, 0.2, np.inf]])
q.quantize(v)
sys.exit(0 if np.isnan(v[0, 1]) and np.isinf(v[0, 3]) else 1)
""", "vectors with NaN or infinite values", "the caller's vectors are overwritten")

seed("s06-template-remembers", "C06",
     [("factory.py", "    config.update(overrides)\n", "    for key, value in overrides.items():\n        if isinstance(value, dict) and isinstance(config.get(key), dict):\n            config[key].update(value)\n        else:\n            config[key] = value\n")],
     PRE + """
import copy
from valori import factory
name = sorted(factory.TEMPLATES)[0]
for n, t in factory.TEMPLATES.items():
    before = copy.deepcopy(t)
    try: factory.create_from_template(n, index_config={"metric": "euclidean", "n_clusters": 7})
    except Exception: pass
    if factory.TEMPLATES[n] != before: sys.exit(1)
sys.exit(0)
""", "a template used with overrides of a nested configuration", "the template itself changes, so later databases made from it differ")

seed("s07-memory-forgets-empty", "C07",
     [("storage/memory.py", "            vector = self.vectors[id].copy()\n", "            vector = self.vectors[id].copy()\n            if not self.metadata.get(id):\n                self.metadata.pop(id, None)\n")],
     PRE + """
import numpy as np
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.array([1.0, 2.0]), {})
before = s.get_stats(); s.retrieve_vector("a")
sys.exit(0 if s.get_stats() == before and s.retrieve_vector("a")[1] == {} else 1)
""", "a vector stored with empty metadata that is retrieved", "reading it makes its metadata vanish")

seed("s07-hnsw-widen", "C07",
     [("indices/hnsw.py", "            top_k = candidates[:k]\n", "            self.ef_search = max(1, min(self.ef_search, len(candidates)))\n            top_k = candidates[:k]\n"),
      ("indices/hnsw.py", "            candidates.sort(key=lambda x: x[1])\n", "            candidates.sort(key=lambda pair: pair[1])\n")],
     PRE + """
import numpy as np
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
import random; random.seed(1)
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({"m": 4, "max_level": 3}); i.initialize(s)
i.insert(np.random.RandomState(0).rand(10, 4), [{} for _ in range(10)])
a = i.get_stats()["ef_search"]
for q in np.random.RandomState(1).rand(20, 4): i.search(q, k=3)
sys.exit(0 if i.get_stats()["ef_search"] == a else 1)
""", "a search that passes a level with few neighbours", "every later search keeps fewer candidates")

seed("s07-disk-drops-broken", "C07",
     [("storage/disk.py", "            vector = np.load(vector_path)\n\n            # Load metadata", "            vector = np.load(vector_path)\n            if not np.isfinite(vector).all():\n                vector_path.unlink()\n\n            # Load metadata")],
     PRE + """
import numpy as np
from valori.storage.disk import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d, "path": d}); s.initialize()
    s.store_vector("a", np.array([1.0, np.inf]), {"x": 1})
    s.retrieve_vector("a")
    sys.exit(0 if s.retrieve_vector("a") is not None else 1)
finally:
    shutil.rmtree(d)
""", "a stored vector with infinite values that is read twice", "reading it removes it")

seed("s20-doc-drops-fields", "C20",
     [("factory.py", "metadata = [{k: v for k, v in doc.items() if k != \"text\"} for doc in documents]", "metadata = [\n        {k: v for k, v in doc.items() if k != \"text\" and v} for doc in documents\n    ]")],
     PRE + """
from valori import factory
from valori.utils import helpers
helpers.create_vectors_from_text = lambda texts, *a, **k: (np.random.RandomState(0).rand(len(texts), 4), [{"text": t} for t in texts])
c = factory.create_hybrid_search_db([{"text": "a", "year": 0, "draft": False}, {"text": "b", "year": 7, "draft": True}])
ms = [c.storage_backend.retrieve_vector(i)[1] for i in c.storage_backend.list_vectors()]
m = [m for m in ms if m["doc_id"] == 0][0]
sys.exit(0 if m.get("year") == 0 and m.get("draft") is False else 1)
""", "a document with a field whose value is 0, False or empty", "that field is missing from the metadata of the document")

seed("s20-choice-boundary", "C20",
     [("utils/helpers.py", "    if num_vectors < 1000:", "    if num_vectors <= 1000:")],
     PRE + """
from valori.utils.helpers import get_recommended_index_config as g
sys.exit(0 if g(999, 8, "balanced")["type"] == "flat" and g(1000, 8, "accuracy")["type"] == "hnsw" else 1)
""", "a recommendation for exactly 1000 vectors", "exact search is recommended where an approximate index should be")

seed("s20-template-config-merged-under", "C20",
     [("factory.py", "    config.update(overrides)\n", "    config.update({k: v for k, v in overrides.items() if v})\n")],
     PRE + """
from valori import factory
c = factory.create_from_template("high_dimensional", index_config={})
sys.exit(0 if c.index.num_hash_tables == 10 else 1)
""", "a template overridden with an empty configuration (to get the index's defaults)", "the override is ignored")

seed("s20-storage-config-for-memory", "C20",
     [("factory.py", '        return HybridStorage(config)', '        return HybridStorage(config if "disk" in config else {})')],
     PRE + """
from valori import factory
d = tempfile.mkdtemp(); os.chdir(d)
try:
    c = factory.create_vector_db(index_type="flat", storage_type="hybrid", storage_config={"memory_limit": 3})
    sys.exit(0 if c.storage_backend.memory_limit == 3 else 1)
finally:
    os.chdir("/"); shutil.rmtree(d)
""", "a hybrid store configured without a disk part", "the memory limit the caller gave is ignored")

seed("s21-overlap-zero", "C21",
     [("processors/chunking.py", 'config.get("chunk_overlap", 100)', 'config.get("chunk_overlap") or 100')],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
sys.exit(0 if ChunkingProcessor({"chunk_overlap": 0}).chunk_overlap == 0 else 1)
""", "a chunk_overlap of 0", "chunks overlap by 100 although no overlap was asked for")

seed("s21-search-k-grows", "C21",
     [("indices/ivf.py", "            # Find closest centroids\n", "            self.n_probes = max(1, min(self.n_probes, len(self.centroids)))\n\n            # Find closest centroids\n")],
     PRE + """
from valori.indices.ivf import IVFIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = IVFIndex({"n_clusters": 2, "n_probes": 8}); i.initialize(s)
i.insert(np.random.RandomState(0).rand(20, 4), [{} for _ in range(20)])
i.search(np.ones(4), k=2)
sys.exit(0 if i.n_probes == 8 else 1)
""", "a search while there are fewer clusters than probes", "the configured number of probes is lowered for good")

seed("s21-config-key", "C21",
     [("configs.py", '            "n_clusters": 500,\n            "n_probes": 5,', '            "n_clusters": 500,\n            "nprobes": 5,')],
     PRE + """
from valori.configs import INDEX_CONFIGS
from valori.indices.ivf import IVFIndex
sys.exit(0 if IVFIndex(INDEX_CONFIGS["large_dataset"]["ivf_fast"]).n_probes == 5 else 1)
""", "the ivf_fast configuration used", "its number of probes is silently ignored")

seed("s30-jaccard-nonzero", "C30",
     [("utils/similarity.py", "    union = np.sum(a_binary | b_binary)", "    union = np.sum(a_binary) + np.sum(b_binary)")],
     PRE + """
from valori.utils.similarity import jaccard_similarity as j
a = np.array([1.0, 1.0, 0.0, 0.0]); b = np.array([1.0, 0.0, 1.0, 0.0])
sys.exit(0 if abs(j(a, b) - 1 / 3) < 1e-9 else 1)
""", "two overlapping vectors that are not equal", "the overlap is counted twice in the union")

seed("s30-lsh-manhattan", "C30",
     [("indices/lsh.py", "            distance = np.sum(np.abs(vector1 - vector2))", "            distance = abs(np.sum(vector1 - vector2))")],
     PRE + """
from valori.indices.lsh import LSHIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = LSHIndex({"metric": "manhattan", "num_hash_tables": 2, "hash_size": 1, "threshold": 0.0}); i.initialize(s)
i.insert(np.array([[1.0, 3.0]]), [{}])
r = i.search(np.array([3.0, 1.0]), k=1)
sys.exit(0 if not r or abs(r[0]["distance"] - 1 / 5) < 1e-6 else 1)
""", "vectors whose differences have both signs", "positive and negative differences cancel")

seed("s30-zero-vector-distance", "C30",
     [("indices/hnsw.py", "            if norm1 == 0 or norm2 == 0:\n                return 1.0", "            if norm1 == 0 or norm2 == 0:\n                return float(norm1 != norm2)")],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
i = HNSWIndex({"metric": "cosine"}); i.initialize(s)
i.insert(np.array([[0.0, 0.0], [1.0, 0.0]]), [{}, {}])
r = i.search(np.array([0.0, 0.0]), k=2)
sys.exit(0 if all(abs(x["distance"] - 1) < 1e-9 for x in r) else 1)
""", "a zero query against a stored zero vector", "two zero vectors are answered as identical")

seed("s30-l1-signed", "C30",
     [("utils/helpers.py", "norms = np.sum(np.abs(vectors), axis=1, keepdims=True)", "norms = np.abs(np.sum(vectors, axis=1, keepdims=True))")],
     PRE + """
from valori.utils.helpers import normalize_vectors
v = normalize_vectors(np.array([[3.0, -1.0]]), "l1")
sys.exit(0 if abs(np.abs(v).sum() - 1) < 1e-5 else 1)
""", "an l1 normalised vector with elements of both signs", "the length is the size of the sum")

seed("s32-max-k-zero", "C32",
     [("utils/validation.py", "    if max_k is not None and k > max_k:", "    if max_k and k > max_k:")],
     PRE + """
from valori.utils.validation import validate_k
try:
    validate_k(3, max_k=0)
except Exception:
    sys.exit(0)
sys.exit(1)
""", "an empty index, where max_k is 0", "any k is accepted")

seed("s32-inf-in-later-row", "C32",
     [("utils/validation.py", "    if np.any(np.isnan(vectors)) or np.any(np.isinf(vectors)):", "    if np.any(np.isnan(vectors)) or np.all(np.isinf(vectors), axis=1).any():")],
     PRE + """
from valori.utils.validation import validate_vectors
try:
    validate_vectors(np.array([[1.0, 2.0], [np.inf, 1.0]]))
except Exception:
    sys.exit(0)
sys.exit(1)
""", "a row that is infinite in some elements only", "the batch is accepted")

seed("s32-zero-column", "C32",
     [("utils/validation.py", "        zero_vectors = np.all(vectors == 0, axis=1)", "        zero_vectors = np.sum(vectors, axis=1) == 0")],
     PRE + """
from valori.utils.validation import validate_vectors
try:
    sys.exit(0 if validate_vectors(np.array([[1.0, -1.0], [1.0, 2.0]]), allow_zero=False) else 1)
except Exception:
    sys.exit(1)
""", "a vector whose elements cancel and zero vectors forbidden", "a nonzero vector is refused")

seed("s32-required-falsy", "C32",
     [("utils/validation.py", "key for key in required_keys if key not in config", "key for key in required_keys if not config.get(key)")],
     PRE + """
from valori.utils.validation import validate_config
try:
    sys.exit(0 if validate_config({"threshold": 0}, required_keys=["threshold"]) else 1)
except Exception:
    sys.exit(1)
""", "a required key whose value is 0 or empty", "the key is reported missing")

seed("s17-probes-by-number", "C17",
     [("indices/ivf.py", "centroid_distances.sort(key=lambda x: x[1])", "centroid_distances.sort(key=lambda x: x[0])")],
     PRE + """
from valori.indices.ivf import IVFIndex
from valori.storage.memory import MemoryStorage
st = MemoryStorage({}); st.initialize()
ix = IVFIndex({"n_clusters": 4, "n_probes": 1, "metric": "euclidean"}); ix.initialize(st)
pts = np.array([[c * 10.0 + j * 0.1, c * -7.0] for c in range(4) for j in range(4)], dtype=np.float32)
ids = ix.insert(pts, [{"n": i} for i in range(len(pts))])
ok = all(ix.search(p, 1) and ix.search(p, 1)[0]["metadata"]["n"] == i for i, p in enumerate(pts))
sys.exit(0 if ok else 1)
""", "a trained index with fewer probes than clusters", "the probed clusters are the first ones, not the nearest")

seed("s17-hnsw-stale-distance", "C17",
     [("indices/hnsw.py", "                                new_candidates[neighbor_id] = distance", "                                new_candidates[node_id] = distance")],
     PRE + """
import random
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
bad = 0
for s in range(30):
    random.seed(s); np.random.seed(s)
    st = MemoryStorage({}); st.initialize()
    ix = HNSWIndex({"metric": "euclidean", "ef_search": 4, "M": 3}); ix.initialize(st)
    V = np.random.rand(40, 3).astype(np.float32)
    ids = ix.insert(V)
    pos = {i: n for n, i in enumerate(ids)}
    for q in V[:5] + 0.05:
        for r in ix.search(q, 40):
            if abs(r["distance"] - float(np.linalg.norm(q - V[pos[r["id"]]]))) > 1e-4:
                bad += 1
sys.exit(0 if not bad else 1)
""", "a graph with several levels and a search that passes an upper one", "a record carries the distance of another vector")

seed("s17-lsh-zero-threshold", "C17",
     [("indices/lsh.py", "        if threshold is None:\n            threshold = self.threshold", "        threshold = threshold or self.threshold")],
     PRE + """
from valori.indices.lsh import LSHIndex
from valori.storage.memory import MemoryStorage
ix = LSHIndex({"threshold": 0.9, "metric": "euclidean", "num_hash_tables": 4, "hash_size": 1, "num_projections": 8}); ix.initialize(MemoryStorage({}))
ix.insert(np.array([[1.0, 0.0], [3.0, 0.5]], dtype=np.float32), [{}, {}])
sys.exit(0 if len(ix.search(np.array([1.0, 0.1], dtype=np.float32), 5, 0.0)) == 2 else 1)
""", "a threshold of exactly 0 given to search", "the configured threshold replaces it")

seed("s14-cluster-last-better", "C14",
     [("indices/ivf.py", "                min_distance = distance\n", "")],
     PRE + """
from valori.indices.ivf import IVFIndex
from valori.storage.memory import MemoryStorage
st = MemoryStorage({}); st.initialize()
ix = IVFIndex({"n_clusters": 4, "n_probes": 1, "metric": "euclidean"}); ix.initialize(st)
pts = np.array([[c * 10.0 + j * 0.1, c * -7.0] for c in range(4) for j in range(4)], dtype=np.float32)
ix.insert(pts, [{"n": i} for i in range(len(pts))])
more = pts[::4] + 0.05
ix.insert(more, [{"n": 100 + i} for i in range(4)])
ok = all(100 + i in [r["metadata"]["n"] for r in ix.search(q, 10)] for i, q in enumerate(more))
sys.exit(0 if ok else 1)
""", "vectors inserted after training, with several clusters", "every later vector is filed in the last cluster")

SQ = PRE + """
from valori.quantization.scalar import ScalarQuantizer
from valori.quantization.product import ProductQuantizer
from valori.quantization.saq import SAQQuantizer
rng = np.random.RandomState(3)
"""

seed("s34-scalar-floor", "C34",
     [("quantization/scalar.py", "rounded = np.rint(normalized_all)", "rounded = np.floor(normalized_all)")],
     SQ + """
q = ScalarQuantizer({"bits": 2}); q.initialize()
q.train(np.array([[0.0], [3.0]], dtype=np.float32))
x = np.array([[0.9], [1.9], [2.6]], dtype=np.float32)
ok = np.allclose(q.dequantize(q.quantize(x)).ravel(), [1.0, 2.0, 3.0])
sys.exit(0 if ok else 1)
""", "a component in the upper half between two levels", "components are coded with the level below, not the nearest one")

seed("s34-scalar-range-over-all", "C34",
     [("quantization/scalar.py", "scales = (max_vals - min_vals) / denom_cap", "scales = (np.max(vectors) - min_vals) / denom_cap")],
     SQ + """
q = ScalarQuantizer({"bits": 8}); q.initialize()
q.train(np.array([[0.0, 0.0], [1.0, 1000.0]], dtype=np.float32))
x = np.array([[0.3, 500.0]], dtype=np.float32)
e = np.abs(q.dequantize(q.quantize(x)) - x)[0]
sys.exit(0 if e[0] <= 0.5 / 255 + 1e-4 else 1)
""", "dimensions of very different ranges", "the levels of a narrow dimension are spread over the widest one's range")

seed("s34-product-decode-last-code", "C34",
     [("quantization/product.py", "quantized_vectors[:, i].astype(int)", "np.minimum(quantized_vectors[:, i].astype(int), 254)")],
     SQ + """
q = ProductQuantizer({"m": 1, "k": 256}); q.initialize()
x = (np.arange(256, dtype=np.float32)[:, None] * 10).repeat(2, axis=1)
q.train(x)
sys.exit(0 if np.abs(q.dequantize(q.quantize(x)) - x).max() < 1 else 1)
""", "256 centroids and a vector coded with the last one", "the last centroid is decoded as the one before")

seed("s34-product-l1", "C34",
     [("quantization/product.py", "(subvectors[:, np.newaxis, :] - centroids_i[np.newaxis, :, :]) ** 2,", "np.abs(subvectors[:, np.newaxis, :] - centroids_i[np.newaxis, :, :]),")],
     SQ + """
q = ProductQuantizer({"m": 1, "k": 2}); q.initialize()
x = np.array([[0, 0], [0, 0], [4, 4], [4, 4]], dtype=np.float32)
q.train(x)
q.centroids = np.array([[[0.0, 5.0], [3.0, 3.0]]], dtype=np.float32)
y = np.array([[0.0, 0.0]], dtype=np.float32)
sys.exit(0 if np.allclose(q.dequantize(q.quantize(y)), [[3, 3]]) else 1)
""", "two centroids whose order differs between the two distances", "a vector is coded with a centroid that is not the nearest one")

seed("s34-saq-centroid-norms", "C34",
     [("quantization/saq.py", "dists = X_norms + C_norms - 2 * XC", "dists = X_norms + np.sqrt(C_norms) - 2 * XC")],
     SQ + """
q = SAQQuantizer({"total_bits": 4, "n_segments": 1}); q.initialize()
x = np.concatenate([rng.randn(30, 2) * 0.05 + c for c in ([0, 0], [9, 0], [0, 9], [1, 1])]).astype(np.float32)
q.train(x)
z = q.scaler.transform(x)
c = q.segment_quantizers[0].centroids
near = ((z[:, None, :] - c[None]) ** 2).sum(2).argmin(1)
sys.exit(0 if (q.quantize(x).ravel() == near).mean() > 0.99 else 1)
""", "centroids of different lengths", "a long centroid wins over a nearer short one")

seed("s34-saq-refit-scaler", "C34",
     [("quantization/saq.py", '''            # Preprocess vectors
            vectors_normalized = self.scaler.transform(vectors)''', '''            # Preprocess vectors
            vectors_normalized = self.scaler.fit_transform(vectors)''')],
     SQ + """
q = SAQQuantizer({"total_bits": 16, "n_segments": 2}); q.initialize()
x = rng.randn(100, 4).astype(np.float32)
q.train(x)
one = x[:20] * 0.2 + 1.5
alone = np.concatenate([q.quantize(one[i:i + 1]) for i in range(20)])
ok = (alone == q.quantize(one)).all()
sys.exit(0 if ok else 1)
""", "vectors distributed otherwise than the training set", "the standardisation is learned anew from whatever is coded")

seed("s34-rescoring-last-of-batch", "C34",
     [("quantization/saq.py", "batch_vectors = quantized_vectors[i:batch_end]", "batch_vectors = quantized_vectors[i : max(i + 1, batch_end - 1)]")],
     SQ + """
q = SAQQuantizer({"total_bits": 16, "n_segments": 2, "rescore_top_k": 50}); q.initialize()
x = rng.randn(40, 4).astype(np.float32)
q.train(x)
ids, d = q.search_with_rescoring(x[-1], q.quantize(x), 5)
sys.exit(0 if 39 in ids.tolist() else 1)
""", "the nearest vector is the last of a portion", "the last code of every portion is never searched")

seed("s34-rescoring-single-last", "C34",
     [("quantization/saq.py", "for i in range(0, n_vectors, batch_size):", "for i in range(0, n_vectors - 1, batch_size):")],
     SQ + """
q = SAQQuantizer({"total_bits": 16, "n_segments": 2, "rescore_top_k": 2000}); q.initialize()
x = rng.randn(1001, 2).astype(np.float32)
q.train(x[:100])
q.full_precision_vectors = x
ids, d = q.search_with_rescoring(x[-1], q.quantize(x), 1001)
sys.exit(0 if 1000 in ids.tolist() else 1)
""", "one code more than a multiple of the portion", "the code that is alone in its portion is never searched")

seed("s34-rescoring-positions", "C34",
     [("quantization/saq.py", "final_indices = candidate_indices[top_indices]", "final_indices = candidate_indices[: len(top_indices)]")],
     SQ + """
q = SAQQuantizer({"total_bits": 2, "n_segments": 2, "rescore_top_k": 30}); q.initialize()
x = rng.randn(40, 4).astype(np.float32)
q.train(x)
ok = True
for i in range(40):
    ids, d = q.search_with_rescoring(x[i], q.quantize(x), 3)
    e = [1 - float(np.dot(x[i], x[j]) / np.linalg.norm(x[i]) / np.linalg.norm(x[j])) for j in ids]
    ok = ok and np.allclose(d, e, atol=1e-4)
sys.exit(0 if ok else 1)
""", "rescoring changes the order of the candidates", "positions stay in the order before rescoring while distances are sorted")

seed("s34-product-distance-part", "C34",
     [("quantization/product.py", "query_subvector = q[start_idx:end_idx]", "query_subvector = q[: self.subvector_dim] if i == 0 else q[start_idx - 1 : end_idx - 1]")],
     SQ + """
q = ProductQuantizer({"m": 2, "k": 2}); q.initialize()
x = np.array([[0, 1, 5, 9], [0, 1, 5, 9], [3, 2, 7, 8], [3, 2, 7, 8]], dtype=np.float32)
q.train(x)
c = q.quantize(x)
ok = abs(q.compute_distance(x[0], c[0])) < 1e-3 and abs(q.compute_distance(x[2], c[2])) < 1e-3
sys.exit(0 if ok else 1)
""", "more than one sub-vector", "a query's later sub-vectors are shifted by one dimension in the distance")

seed("s23-empty-ids-as-nothing", "C23",
     [("persistence/tensor.py", "            return vectors, ids\n", "            return (vectors, ids) if ids else (None, None)\n")],
     PRE + """
from valori.persistence import TensorPersistence
d = tempfile.mkdtemp()
try:
    pm = TensorPersistence({"data_dir": d}); pm.initialize()
    pm.save_vectors(np.zeros((0, 3), dtype=np.float32), [], "v")
    v, ids = pm.load_vectors("v")
    ok = v is not None and v.shape == (0, 3) and ids == []
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
""", "an empty set of vectors is saved", "loading it answers that nothing was saved")

seed("s24-log-failure-swallowed", "C24",
     [("persistence/incremental.py", '            raise PersistenceError(f"Failed to log operation: {str(e)}")', '            self._log_error = str(e)')],
     PRE + """
from valori.persistence import IncrementalPersistence
d = tempfile.mkdtemp()
try:
    pm = IncrementalPersistence({"data_dir": d}); pm.initialize()
    ok = expect(PersistenceError, pm.save_vectors, np.zeros((1, 2), dtype=np.float32), [object()], "v")
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
""", "an entry that cannot be written to the log", "an operation reports success without being in the log")

seed("s25-sliding-id-position", "C25",
     [("processors/chunking.py", '                        "id": len(chunks),\n', '                        "id": i // step_size,\n')],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
p = ChunkingProcessor({"strategy": "sliding_window", "chunk_size": 40, "chunk_overlap": 0, "min_chunk_size": 10}); p.initialize()
r = p.process({"text": "x" * 80 + " " * 80 + "y" * 80})
sys.exit(0 if [c["id"] for c in r["chunks"]] == list(range(len(r["chunks"]))) else 1)
""", "a window in the middle of the text that is left out", "the ids of the chunks have gaps")

seed("s25-chunk-overlap-equal", "C25",
     [("processors/chunking.py", "if self.chunk_overlap >= self.chunk_size:", "if self.chunk_overlap > self.chunk_size:")],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
p = ChunkingProcessor({"strategy": "fixed_size", "chunk_size": 40, "chunk_overlap": 40})
sys.exit(0 if expect(ProcessingError, p.initialize) else 1)
""", "an overlap as large as the chunk", "the processor becomes ready with a configuration under which cutting never advances")

seed("s25-stripped-before-cutting", "C25",
     [("processors/chunking.py", 'text = data["text"]\n        self._total', 'text = data["text"].strip()\n        self._total')],
     PRE + """
from valori.processors.chunking import ChunkingProcessor
p = ChunkingProcessor({"strategy": "fixed_size", "chunk_size": 40, "chunk_overlap": 0, "min_chunk_size": 1}); p.initialize()
t = "   " + "word " * 30
r = p.process({"text": t})
sys.exit(0 if all(t[c["start_pos"]:].lstrip().startswith(c["text"].strip()) and c["start_pos"] + len(c["text"]) <= c["end_pos"] + 1 and t[c["start_pos"]:c["end_pos"]].strip() == c["text"].strip() for c in r["chunks"]) else 1)
""", "a text with white space in front", "the positions of the chunks refer to the stripped text, not to the one answered")

seed("s26-excel-first-row", "C26",
     [("parsers/office_parser.py", "sheet.iter_rows(values_only=True)", "sheet.iter_rows(min_row=2, values_only=True)")],
     PRE + """
import openpyxl
from valori.parsers.office_parser import OfficeParser
d = tempfile.mkdtemp()
try:
    w = openpyxl.Workbook(); w.active.append(["name", "age"]); w.active.append(["ada", 36]); w.save(d + "/a.xlsx")
    p = OfficeParser({}); p.initialize()
    sys.exit(0 if "name | age" in p.parse(d + "/a.xlsx")["text"] else 1)
finally:
    shutil.rmtree(d)
""", "the first row of a sheet", "the first row of every sheet is missing from the text")

seed("s10-hnsw-delete-last-answer", "C10",
     [("indices/hnsw.py", """                if not sb.delete_vector(vector_id):
                    success = False
""", """                success = sb.delete_vector(vector_id)
""")],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({}); x.initialize(s)
ids = x.insert(np.eye(3, dtype=np.float32))
sys.exit(0 if x.delete(["missing", ids[0]]) is False else 1)
""", "an unknown id followed by a known one", "delete answers True although one of the ids was never stored")

seed("s33-ivf-count-of-batch", "C33",
     [("indices/ivf.py", """            self._vector_count = len(self.vector_ids)

            # Retrain if we have""", """            self._vector_count = len(inserted_ids)

            # Retrain if we have""")],
     PRE + """
from valori.indices.ivf import IVFIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = IVFIndex({"n_clusters": 2}); x.initialize(s)
x.insert(np.eye(3, dtype=np.float32)); x.insert(np.eye(3, dtype=np.float32)[:1])
sys.exit(0 if x.get_stats()["vector_count"] == 4 else 1)
""", "a second insert", "the count of the index is that of the last batch")

seed("s09-disk-update-appends", "C09",
     [("storage/disk.py", """            # Update vector
            np.save(vector_path, vector)
""", """            # Update vector
            with open(vector_path, "ab") as f:
                np.save(f, vector)
""")],
     PRE + """
from valori.storage.disk import DiskStorage
d = tempfile.mkdtemp()
try:
    s = DiskStorage({"data_dir": d}); s.initialize()
    s.store_vector("a", np.zeros(3)); s.update_vector("a", np.ones(3))
    sys.exit(0 if np.array_equal(s.retrieve_vector("a")[0], np.ones(3)) else 1)
finally:
    shutil.rmtree(d)
""", "an update of a stored vector", "the updated vector is appended behind the old one, which stays the one read")

seed("s14-hnsw-graph-first-vector", "C14",
     [("indices/hnsw.py", "self._insert_vector_internal(vector_id, vector)\n\n                inserted", "self._insert_vector_internal(vector_id, vectors[0])\n\n                inserted")],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({"metric": "euclidean"}); x.initialize(s)
x.insert(np.eye(3, dtype=np.float32))
r = x.search(np.eye(3, dtype=np.float32)[0], 3)
sys.exit(0 if all((d["distance"] < 0.1) == np.array_equal(s.retrieve_vector(d["id"])[0], np.eye(3)[0]) for d in r) else 1)
""", "a batch of different vectors", "the graph keeps the first vector of the batch under every id")

seed("s15-hnsw-first-level-only", "C15",
     [("indices/hnsw.py", "                del level[vector_id]\n", "                del level[vector_id]\n                break\n")],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({}); x.initialize(s)
ids = x.insert(np.random.RandomState(0).rand(60, 4).astype(np.float32))
x.delete(ids)
sys.exit(0 if not any(x.levels) else 1)
""", "a vector that reached a higher level of the graph", "a deleted id stays on the higher levels of the graph")

seed("s17-hnsw-worst-first", "C17",
     [("indices/hnsw.py", "for node_id, distance in top_k:", "for node_id, distance in reversed(top_k):")],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({"metric": "euclidean", "m": 50}); x.initialize(s)
x.insert(np.random.RandomState(0).rand(20, 4).astype(np.float32))
d = [r["distance"] for r in x.search(np.zeros(4, dtype=np.float32), 5)]
sys.exit(0 if len(d) > 1 and d == sorted(d) else 1)
""", "an answer of more than one record", "the records are answered worst first")

seed("s14-lsh-without-last-table", "C14",
     [("indices/lsh.py", "            for table_idx, hash_code in enumerate(hash_codes):\n                self.hash_tables[table_idx][hash_code].append(vector_id)\n\n            assigned",
       "            for table_idx, hash_code in enumerate(hash_codes[1:]):\n                self.hash_tables[table_idx][hash_code].append(vector_id)\n\n            assigned")],
     PRE + """
from valori.indices.lsh import LSHIndex
x = LSHIndex({"num_hash_tables": 1}); x.initialize()
v = np.ones((1, 4), dtype=np.float32)
x.insert(v)
sys.exit(0 if len(x.search(v[0], 1)) == 1 else 1)
""", "an index of one table", "vectors are filed in the table of another hash, and never in the last")

seed("s17-flat-stops-at-missing", "C17",
     [("indices/flat.py", "                    if result is None:\n                        continue\n                    vector, _ = result\n                    self.vector_cache", "                    if result is None:\n                        break\n                    vector, _ = result\n                    self.vector_cache")],
     PRE + """
from valori.indices.flat import FlatIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = FlatIndex({"metric": "euclidean"}); x.initialize(s)
ids = x.insert(np.eye(4, dtype=np.float32))
x.vector_cache.clear()
s.delete_vector(ids[1])
sys.exit(0 if {r["id"] for r in x.search(np.ones(4, dtype=np.float32), 4)} == {ids[0], ids[2], ids[3]} else 1)
""", "a record that is gone from the backend while its id is still listed", "every vector behind a missing record is left out of the comparison")

seed("s30-hnsw-rounded", "C30",
     [("indices/hnsw.py", '''                        "distance": distance,
''', '''                        "distance": round(float(distance), 3),
''')],
     PRE + """
from valori.indices.hnsw import HNSWIndex
from valori.storage.memory import MemoryStorage
s = MemoryStorage({}); s.initialize()
x = HNSWIndex({"metric": "euclidean"}); x.initialize(s)
x.insert(np.array([[0.00012, 0.0]]))
sys.exit(0 if abs(x.search(np.zeros(2), 1)[0]["distance"] - 0.00012) < 1e-9 else 1)
""", "vectors closer together than a thousandth", "close vectors are answered with distance 0")

seed("s29-failed-query-answers-previous", "C29",
     [("utils/batch_manager.py", "                        batch_results.append([])\n", "                        batch_results.append(batch_results[-1] if batch_results else [])\n")],
     PRE + """
from valori.utils.batch_manager import BatchManager
class C:
    def search(self, q, k=10):
        if q[0] < 0:
            raise ValueError("no")
        return [{"id": "a", "distance": 0.0}]
r = BatchManager(batch_size=5).batch_search(C(), np.array([[1.0], [-1.0]]), 1, show_progress=False)
sys.exit(0 if r[1] == [] else 1)
""", "a query that fails behind one that did not", "the failed query is answered with the results of the query before it")

seed("s29-parallel-batch-numbers", "C29",
     [("utils/batch_manager.py", '"batch_id": i // self.batch_size', '"batch_id": i % self.batch_size')],
     PRE + """
from valori.utils.batch_manager import BatchManager
class C:
    def insert(self, v, m):
        return [int(x[0]) for x in v]
r = BatchManager(batch_size=2, max_workers=1).parallel_batch_insert(C(), np.arange(6.0).reshape(6, 1), [{}] * 6, show_progress=False)
sys.exit(0 if r == list(range(6)) else 1)
""", "more than one batch", "all batches carry number 0, so only the ids of one of them are answered")

seed("s32-metric-any-case", "C32",
     [("utils/validation.py", "    if metric not in valid_metrics:", "    if metric.lower() not in valid_metrics:")],
     PRE + '''
from valori.utils.validation import validate_metric
from valori.exceptions import ValidationError
for m in ("Cosine", "EUCLIDEAN", "cosine "):
    try:
        validate_metric(m)
    except ValidationError:
        continue
    raise SystemExit("accepted " + repr(m))
''', "A metric name written with capitals.", "validate_metric accepts names no index knows")

seed("s32-ids-neighbours-only", "C32",
     [("utils/validation.py", "if len(ids) != len(set(ids)):", "if any(a == b for a, b in zip(ids, ids[1:])):")],
     PRE + '''
from valori.utils.validation import validate_ids
from valori.exceptions import ValidationError
try:
    validate_ids(["a", "b", "a"])
except ValidationError:
    raise SystemExit(0)
raise SystemExit("duplicate accepted")
''', "A duplicate id that does not stand next to its twin.", "validate_ids accepts duplicates")
