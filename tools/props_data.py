ALLC = ["client.py", "storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py",
        "indices/lsh.py", "indices/annoy.py", "quantization/scalar.py", "quantization/product.py", "quantization/saq.py",
        "persistence/tensor.py", "persistence/incremental.py", "processors/pipeline.py", "processors/cleaning.py",
        "processors/chunking.py", "processors/embedding.py", "parsers/registry.py"]

prop("C01", "A component that is not initialised or is closed refuses every operation",
     "Every data operation of every component (client, storage backend, index, quantizer, persistence manager, parser registry, parser, processor, "
     "pipeline), called before initialize() has succeeded or after close(), fails with that layer's own exception type. "
     "The refused call has no effect: no stored vector, file, counter or component changes before the exception is raised.",
     ["histories"], "every component class, every operation, every history that leaves the component constructed-only or closed, every argument",
     "Tests call one or two operations on a fresh object of some classes; nothing covers every operation times every way of being not ready (never opened, closed, closed twice) for all ~25 classes.",
     ALLC, [("readiness guard at the head of each operation", "storage/memory.py:MemoryStorage.store_vector"),
            ("client guard", "client.py:VectorDBClient.insert"), ("index guard", "indices/flat.py:FlatIndex.search")],
     "typestate analysis over abstract paths", "Every abstract path of each operation, started from each literal-field state the constructor or close() can leave, must end in a raise of the layer's exception class with no preceding effect event. Assumes fields are only written through self.")

prop("C02", "A failed initialize() leaves the component refusing operations",
     "If initialize() of any component raises, the component stays not ready: every later operation still fails with the layer's exception. "
     "initialize() never reports success after a call it depends on (opening the storage, listing or reading existing vectors, creating directories, initialising a sub-component) failed.",
     ["fault_sequences", "histories"], "every component class, every point inside initialize() at which a call to another component or the file system can fail",
     "Tests never inject a failure inside initialize(); the quantifier ranges over every call site that can raise.",
     ALLC, [("readiness flag set as the last step", "indices/flat.py:FlatIndex.initialize"), ("client start-up", "client.py:VectorDBClient.initialize")],
     "typestate analysis with exceptional edges", "An exceptional edge is added at every unresolved call inside initialize(); each exceptional exit state is fed to every operation, which must refuse. Failures of pure numpy helpers are not modelled.")

prop("C03", "close() releases everything the component holds and closes what it owns",
     "After close() returns, a component reports not ready, and the vectors, metadata, caches, counters' containers and registered parsers or processors it held are emptied. "
     "Components it owns (index, storage, quantizer, persistence of the client; memory and disk tiers of the hybrid store; parsers of the registry; processors of the pipeline) have been closed too, and temporary files it created are removed.",
     ["histories"], "every component class, every history before close(), including close() of a never-initialised object",
     "Tests call close() as teardown and at most look at one flag; no test inspects the state of every container and every owned component after every history.",
     ALLC, [("client cascade", "client.py:VectorDBClient.close"), ("hybrid cascade", "storage/hybrid.py:HybridStorage.close"),
            ("container reset", "indices/hnsw.py:HNSWIndex.close")],
     "ownership and typestate analysis of close()", "At every normal exit of close() from an arbitrary state: flags the constructor created False are False, containers the constructor created empty are reset, every component-valued field had close() called or is known absent. Containers of the caller's configuration are exempt, and the index does not close the storage it is lent.")

prop("C04", "An untrained quantizer refuses to code",
     "On every quantizer, quantize, dequantize, compute_distance (and rescoring search where offered) called before a train() has completed since the last initialize() fail with the quantization exception and have no effect. "
     "A train() that fails never leaves the quantizer usable with partly replaced parameters, and a train() that returns normally leaves it trained.",
     ["histories", "fault_sequences"], "every quantizer class, every history of initialize/train/close calls, every failure point inside train()",
     "Tests check one fresh-untrained call per class; re-initialisation, closing after training and failures inside train() are not covered.",
     ["quantization/scalar.py", "quantization/product.py", "quantization/saq.py"],
     [("trained mark", "quantization/scalar.py:ScalarQuantizer.train"), ("guard", "quantization/product.py:ProductQuantizer.quantize"), ("guard", "quantization/saq.py:SAQQuantizer.quantize")],
     "typestate analysis with exceptional edges", "Coding operations interpreted from every untrained literal-field state; train() interpreted with an exceptional edge at every unresolved call, its exits checked for a cleared mark or untouched parameters.")

prop("C05", "Stored data and the caller's data never share mutable memory",
     "After a store, insert, update or cached embedding, later changes the caller makes to the arrays, metadata dictionaries or lists it passed in never change what the component holds. "
     "Vectors, metadata dictionaries and statistics handed out by retrieve, search, get_stats or process are copies: changing their top level (array elements, keys of the dictionary, entries of the list) never changes what the component holds. (Values nested deeper inside metadata may be shared.)",
     ["histories", "inputs"], "every component that keeps data, every input value, every later mutation by the caller",
     "Aliasing only shows when the caller mutates an object after the call and reads back; tests do that for one backend at most, and each path (given/missing metadata, cached/uncached, one/many) may alias separately.",
     ["storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "processors/embedding.py", "parsers/registry.py", "client.py"],
     [("copy in, copy out", "storage/memory.py:MemoryStorage.store_vector"), ("copy out", "storage/memory.py:MemoryStorage.retrieve_vector"), ("copy out", "indices/lsh.py:LSHIndex.search"), ("cached arrays", "processors/embedding.py:EmbeddingProcessor.process")],
     "alias analysis over abstract paths", "Values written into a component's containers must be fresh (or immutable) with respect to every parameter; values returned must be fresh with respect to every container. Top level only; numpy views count as aliases.")

prop("C08", "Disk store keeps distinct ids apart and inside its directory",
     "Every file the disk store reads, writes or deletes for a vector id lies directly in its vectors/ or metadata/ directory, whatever characters the id contains. "
     "Two different ids never use the same file, every operation on one id uses the same pair of files, and list_vectors reports exactly the ids that were stored, unaltered.",
     ["inputs"], "every id string (separators, dots, percent signs, non-ASCII, empty), every operation",
     "The id space is unbounded; tests use a handful of plain ids.",
     ["storage/disk.py"], [("id to file name", "storage/disk.py:DiskStorage.store_vector"), ("file name to id", "storage/disk.py:DiskStorage.list_vectors"), ("directories", "storage/disk.py:DiskStorage.__init__")],
     "provenance analysis of file paths", "The id may reach a path only through an encoder known to be injective and to yield one path component (percent encoding with no safe characters and dots escaped, hex, base32, fixed-length digest with ids kept); the decoder used for listing must be its inverse. File-name length limits and case-insensitive file systems are out of scope.")

prop("C09", "A vector and its metadata are always replaced and removed together",
     "In every storage backend, storing or updating a record replaces both its vector and its metadata (a record stored or updated without metadata carries no metadata of a previous record with that id), deleting removes both, "
     "and retrieve returns the vector and the metadata last stored under that same id.",
     ["histories"], "every backend, every sequence of store/update/delete with and without metadata",
     "The failure needs a second store under the same id without metadata after one with it; tests store each id once.",
     ["storage/memory.py", "storage/disk.py", "storage/hybrid.py"],
     [("pairing", "storage/memory.py:MemoryStorage.store_vector"), ("files", "storage/disk.py:DiskStorage.store_vector"), ("files", "storage/disk.py:DiskStorage.delete_vector"), ("read", "storage/disk.py:DiskStorage.retrieve_vector")],
     "path-sensitive effect analysis", "At every normal exit of store/update/delete both records of the id are written, or both are removed / known absent.")

prop("C10", "An unknown id is reported and changes nothing",
     "In every storage backend retrieve_vector of an id that is not stored returns None, and delete_vector and update_vector return False; in every index delete and update answer False (the Annoy index: update, and delete of a non-numeric id, raise the index exception) when an id is not in the index. "
     "None of these calls changes any stored vector, metadata, file or counter of other ids; ids that are negative or beyond the end never reach another vector.",
     ["histories", "inputs"], "every backend and index, every id that is not stored (never stored, already deleted, negative, too large, of another spelling)",
     "Tests try one unknown id per class; off-by-one, negative and deleted-slot ids are different paths in each index.",
     ["storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("membership test", "storage/memory.py:MemoryStorage.delete_vector"), ("position bounds", "indices/lsh.py:LSHIndex.remove"), ("position bounds", "indices/annoy.py:AnnoyIndex.update"), ("storage's answer", "indices/flat.py:FlatIndex.delete")],
     "path-sensitive effect and guard analysis", "Paths on which the id is known absent must answer None/False with no effect; paths that use a position as subscript must be dominated by both bounds and a live-slot test.")

prop("C11", "Hybrid store: disk is authoritative and memory never disagrees with it",
     "In the hybrid store every stored or updated record reaches the disk tier before the memory tier, with the same id, vector and metadata, and the memory tier changes only if the disk tier accepted the change. "
     "A deleted record leaves both tiers; a read that misses memory returns what the disk tier holds for that id, and whatever is promoted to memory is that disk record; list_vectors reports the disk tier's ids.",
     ["histories", "fault_sequences"], "every sequence of operations, every failure of the disk tier, every promotion and eviction",
     "Disagreement needs a disk failure or an eviction between two operations on one id; no test injects either.",
     ["storage/hybrid.py"], [("write order", "storage/hybrid.py:HybridStorage.store_vector"), ("read path and promotion", "storage/hybrid.py:HybridStorage.retrieve_vector"), ("delete both", "storage/hybrid.py:HybridStorage.delete_vector")],
     "interprocedural effect-order analysis with opaque tiers", "Both tiers are opaque components whose calls may fail; order, arguments and guards of the calls are decided on every path.")

prop("C12", "Hybrid store never keeps more than memory_limit vectors in memory",
     "After any operation of the hybrid store the memory tier holds at most memory_limit vectors, including limits of zero and one and promotion on reads.",
     ["histories", "inputs"], "every memory_limit, every history of stores, reads, updates and deletes",
     "Tests use one limit and a few stores; promotion on read and limits 0/1 are separate paths.",
     ["storage/hybrid.py"], [("admission test", "storage/hybrid.py:HybridStorage.store_vector"), ("promotion", "storage/hybrid.py:HybridStorage.retrieve_vector")],
     "dominance analysis of admissions", "Every call adding to the memory tier is dominated by a strict comparison of its current count with the limit, or by an eviction under a positive limit.")

prop("C13", "Storage backends run each operation in one critical section of their lock",
     "In the memory and hybrid stores, every access to the shared containers or tiers by a public operation happens while the store's lock is held, an operation that reads and then writes does both in one critical section, no operation hands out a live view of a shared container, "
     "the lock is released on every exit including exceptions, and nested operations cannot deadlock on it.",
     ["schedules"], "every interleaving of any number of threads calling any operations",
     "Race windows of a few bytecodes are not reached by single-threaded tests; the property quantifies over all schedules.",
     ["storage/memory.py", "storage/hybrid.py", "storage/disk.py"],
     [("lock", "storage/memory.py:MemoryStorage.__init__"), ("locked operations", "storage/memory.py:MemoryStorage.store_vector"), ("locked operations", "storage/hybrid.py:HybridStorage.retrieve_vector")],
     "lockset analysis", "Each shared access must carry the owning lock in its lockset and all accesses of one operation the same acquisition. The unlocked readiness test at the head is exempt; atomicity across two public calls is not claimed.")

prop("C14", "insert registers every given vector exactly once under its own metadata",
     "A successful insert into any index returns one id per given vector, in order, each id new; every vector is stored under its id together with the metadata given at the same position, "
     "and is registered in every structure (id list, graph, cluster, hash table) from which search draws its candidates in the state the index is in; a trained IVF index files it under the centroid nearest to its vector, and no place is chosen by a random number drawn for the occasion.",
     ["inputs", "histories"], "every index, every batch size, metadata present or absent, every internal state (empty, untrained, trained, with deletions)",
     "Tests insert small batches into fresh indices and look at the ids returned; a vector missing from one structure or shifted metadata shows only for particular states and positions.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("registration", "indices/flat.py:FlatIndex.insert"), ("graph registration", "indices/hnsw.py:HNSWIndex.insert"), ("clusters", "indices/ivf.py:IVFIndex.insert"), ("hash tables", "indices/lsh.py:LSHIndex.insert"), ("positions", "indices/annoy.py:AnnoyIndex.insert")],
     "value-provenance analysis per loop element", "For an arbitrary element of the batch, the record stored, the metadata, the id registered and the id returned must carry the same loop index, and registration must cover every container search reads. Annoy registration takes effect on build().")

prop("C15", "delete removes every given id from every structure of the index",
     "A delete on any index asks the storage backend (or the index's own vector list) to drop each given id and removes it from every structure search draws candidates from (id list, every graph level and every neighbour list, every cluster, every hash table, entry points). "
     "It continues with the remaining ids after an unknown one, and answers True only if every id was removed.",
     ["inputs", "histories"], "every index, every list of ids (several, unknown ones first/last, repeated), every internal state",
     "Tests delete one or two known ids and check the count; a stale reference in one level, cluster or table appears only for particular graphs.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("graph removal", "indices/hnsw.py:HNSWIndex.delete"), ("cluster removal", "indices/ivf.py:IVFIndex.delete"), ("hash table removal", "indices/lsh.py:LSHIndex.remove"), ("slot removal", "indices/annoy.py:AnnoyIndex.remove")],
     "path-sensitive effect analysis per loop element", "For an arbitrary id of the list, at loop-iteration end it is out of every container insert registers ids in (removed or known absent).")

prop("C16", "update replaces the vector everywhere the index keeps it",
     "An update that answers True has replaced the stored vector (and metadata) of exactly that id, and every further copy of it: no structure still holds the old vector or files the id under a place computed from the old vector (cluster, hash bucket, cached matrix, tree). "
     "The id stays the same, is registered exactly once, and no other id changes.",
     ["histories", "inputs"], "every index, every id, every new vector, every internal state",
     "A stale copy only shows when a search after the update depends on it; tests update once and check the return value.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("write through", "indices/flat.py:FlatIndex.update"), ("cluster move", "indices/ivf.py:IVFIndex.update"), ("rehash", "indices/lsh.py:LSHIndex.update"), ("slot replacement", "indices/annoy.py:AnnoyIndex.update")],
     "path-sensitive effect analysis", "On every True exit the record write carries (id, new vector, metadata), other containers holding vectors of the id are rewritten or dropped, and content-keyed containers are re-keyed. Re-linking of HNSW neighbours is not required.")

prop("C17", "Search answers at most k distinct live records, best first",
     "Every search of every index answers records {id, distance, metadata}, at most k of them and no id twice; the distance of a record is computed from the query and the vector stored under that id, and the metadata is that id's. "
     "Records are ordered best first (smallest distance for flat, HNSW and IVF; largest similarity for LSH and Annoy), ordering happens before cutting at k, no removed vector is answered, and the flat index compares the query with every vector it holds whose record still exists. "
     "A cut made on the way (IVF probes, HNSW beam) keeps the nearest candidates, every kept candidate carries its own distance, k is only replaced by the number of vectors held when that is smaller, and no candidate is left out for its distance except by LSH: exactly those whose similarity is below the threshold given, or below the configured one when none (None) is given.",
     ["inputs", "histories"], "every index and metric, every query, every k, every internal state (deleted slots, missing records, several hash tables, several graph levels)",
     "Tests look at the length of the answer and at one self-match; misaligned metadata, an order lost in one branch or a duplicate depend on positions and states a sample does not reach.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("ranking", "indices/flat.py:FlatIndex.search"), ("graph candidates", "indices/hnsw.py:HNSWIndex.search"), ("cluster candidates", "indices/ivf.py:IVFIndex.search"), ("hash candidates", "indices/lsh.py:LSHIndex.search"), ("annoy answer", "indices/annoy.py:AnnoyIndex.search")],
     "value-provenance and order-tracking analysis", "For an arbitrary record of the answer: id, distance and metadata carry the same stored vector; the sequence is traced back through slices, sorts and zips to where it was ordered and cut. How good the candidates of the approximate indices are (recall) is not claimed.")

prop("C18", "A refused operation leaves the store and the index as they were",
     "When a storage backend or an index refuses an operation because of its arguments (wrong number of dimensions, vector length different from the vectors already held, metadata list of another length, missing or non-finite values where the index checks them, unsupported metric, wrong state), nothing has been stored, registered, removed or re-configured by that call: "
     "every refusal the code raises itself comes before the first change, and a batch is checked as a whole before its first vector is stored. Every index refuses on insert and update a vector whose length differs from the vectors it holds, a batch that is not two-dimensional and a query that is not one-dimensional.",
     ["inputs", "fault_sequences"], "every public mutating operation of every storage backend and index and every argument; failures of the backend itself half-way through a batch are not covered",
     "Tests check that bad input raises; what the failed call left behind is visible only in later operations.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/base.py"],
     [("batch checks", "indices/lsh.py:LSHIndex.add"), ("batch checks", "indices/annoy.py:AnnoyIndex.add"), ("dimension check", "indices/base.py:Index._check_dimension"), ("metric check", "indices/ivf.py:IVFIndex.__init__"), ("store", "storage/memory.py:MemoryStorage.store_vector")],
     "path-sensitive effect ordering (no visible effect precedes a raise) and guard coverage", "Covers raise statements of the repository and argument checks; exceptions raised by numpy, the file system or the annoy library in the middle of an operation are not enumerated, except that the argument checks that would prevent them must be there.")

prop("C19", "Initialising takes in every vector the backend already holds",
     "After initialize(storage) the flat, HNSW and IVF index holds every vector the storage backend lists (each whose record can be read), whatever their number: the listing is asked for without a limit, no listed id is skipped, cut off or replaced, and each becomes a search candidate. "
     "list_vectors of every storage backend answers all ids it holds, or exactly the first `limit` of them when a limit (0 included) is given. Initialising an LSH or Annoy index again keeps the vectors it holds searchable.",
     ["histories", "inputs"], "every backend content (number of vectors, ids, missing records), every limit",
     "Tests reopen a store with two or three vectors; a page size, a skipped or early-terminated listing needs more vectors or an unreadable record.",
     ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "storage/memory.py", "storage/disk.py", "storage/hybrid.py"],
     [("loading", "indices/flat.py:FlatIndex.initialize"), ("loading", "indices/hnsw.py:HNSWIndex.initialize"), ("loading", "indices/ivf.py:IVFIndex.initialize"), ("rehash", "indices/lsh.py:LSHIndex.initialize"), ("listing", "storage/memory.py:MemoryStorage.list_vectors"), ("listing", "storage/disk.py:DiskStorage.list_vectors")],
     "value-provenance analysis of the listing and of the loading loop", "For an arbitrary element of the listing: registered in a candidate container on every path except 'no record'. IVF training on existing vectors is decided with the clusters of C14.")

prop("C33", "Published statistics agree with what is held",
     "After every operation that returns, the number of vectors a storage backend or an index publishes in get_stats equals the number of vectors it holds (removed ones not counted, replaced ones counted once), and so do the derived figures: bytes used, cache size, bucket and cluster sizes. "
     "The hybrid store publishes each tier's own statistics under that tier's name.",
     ["histories"], "every sequence of operations on every component",
     "Tests read the statistics after one or two inserts; drift shows after overwriting, deleting unknown ids, reopening.",
     ["storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
     [("counters", "storage/memory.py:MemoryStorage.get_stats"), ("counters", "storage/disk.py:DiskStorage.get_stats"), ("counters", "indices/flat.py:FlatIndex.get_stats"), ("counters", "indices/hnsw.py:HNSWIndex.get_stats"), ("clusters", "indices/ivf.py:IVFIndex.get_stats"), ("buckets", "indices/lsh.py:LSHIndex.get_stats")],
     "counter-freshness dataflow analysis", "Each stored counter must be recomputed from its container after the container's last change on every normal exit. The counters of an operation that fails midway in the backend are not claimed.")

prop("C35", "The client hands every operation unchanged to the components it was given",
     "Each of the client's insert, search, delete and update is exactly one call of the same operation of the index the client was built with, with the caller's arguments unchanged and at their places, and answers what the index answered; the client never changes the storage behind the index's back. "
     "initialize prepares the storage first, then the index with that very storage, then the quantizer and the persistence manager when they were given; each part of get_stats comes from the component it is named after.",
     ["inputs", "configurations"], "every combination of components and every argument value",
     "Client tests use one memory store with a flat index and default arguments; a dropped or replaced argument shows only with values the test does not pass.",
     ["client.py"],
     [("facade", "client.py:VectorDBClient.insert"), ("facade", "client.py:VectorDBClient.search"), ("facade", "client.py:VectorDBClient.update"), ("assembly", "client.py:VectorDBClient.initialize")],
     "argument-provenance analysis of component calls", "Whether the component does the right thing is decided by the component's own properties.")

prop("C23", "What is saved under a path is what is loaded from it",
     "For every persistence manager, after save_vectors, save_index (and save_state of the tensor manager) report success for a path, the matching load with that path returns the saved objects themselves: the same vectors, ids in the same order, the same dictionary, nothing left out, converted or cut. "
     "load answers that there is nothing only if no file was saved under the path, and a later save replaces what an earlier one wrote. The same holds for save_vectors_to_file / load_vectors_from_file in each format, under the suffix of that format.",
     ["inputs", "histories"], "every path, every vectors/ids/dictionary content, every configuration (compression), every sequence of saves and loads",
     "Round trips are tested with one small value and a path that happens to end in .npz; other names, element types, repeated saves and unusual contents are not sampled.",
     ["persistence/tensor.py", "persistence/incremental.py", "utils/helpers.py"],
     [("save", "persistence/tensor.py:TensorPersistence.save_vectors"), ("load", "persistence/tensor.py:TensorPersistence.load_vectors"), ("save", "persistence/incremental.py:IncrementalPersistence.save_vectors"), ("load", "persistence/incremental.py:IncrementalPersistence.load_vectors"), ("helpers", "utils/helpers.py:save_vectors_to_file")],
     "writer/reader agreement: provenance analysis of file path, codec, key and value on all paths", "Assumes pickle, json and numpy's archive format round-trip their own values (ids of one type). Interrupted writes and files changed by others are out of scope.")

prop("C24", "The incremental log only grows and the newest checkpoint wins",
     "Every successful save of the incremental manager appends exactly one line to its operation log, after the data is written, naming the operation and carrying an operation id; ids strictly increase over the life of the directory, across close and re-opening. "
     "No operation truncates, rewrites or removes the log. load_state returns the state given to the most recent successful save_state, whatever the number of checkpoints.",
     ["histories"], "every sequence of saves, loads, restarts; every checkpoint interval; any number of checkpoints",
     "Tests log two or three operations in one session; ten or more checkpoints, a full checkpoint interval and a restart are not sampled.",
     ["persistence/incremental.py"],
     [("log", "persistence/incremental.py:IncrementalPersistence.save_vectors"), ("restart", "persistence/incremental.py:IncrementalPersistence.initialize"), ("checkpoint", "persistence/incremental.py:IncrementalPersistence.save_state"), ("choice", "persistence/incremental.py:IncrementalPersistence.load_state")],
     "event-order and counter analysis over abstract paths", "One manager per directory at a time. The entry's data fields beyond operation name and id are not judged.")

prop("C25", "Chunking loses no text, tells the truth about positions, and ends",
     "For every text and every valid size setting (chunk_size at least 1, overlap at least 0; the chunking processor refuses overlaps not below chunk_size), the fixed-size chunkers of the text, PDF and Office parsers and the fixed_size and sliding_window strategies of the chunking processor terminate, and the text of each chunk is text[start_pos:end_pos] of the answered text without outer white space, not longer than chunk_size. "
     "Pieces follow each other from 0 to the end of the text without gaps; only blank pieces and pieces outside min/max size are left out; after a piece that reaches the end fixed-size chunking makes no other; ids count up from 0. "
     "Semantic chunking and the Docling parser put every paragraph or element, in order, into a chunk, and what was emitted is not collected again beyond the configured overlap. Page numbers of PDF chunks refer to pages at their place in the joined text. Positions of semantic chunks are not claimed.",
     ["inputs", "configurations"], "every text and every valid chunk_size / chunk_overlap / minimum and maximum size",
     "Tests chunk one or two short texts with the default sizes, where the text fits into one or two chunks; loops that stall, skip or repeat need particular sizes and break points.",
     ["parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py", "parsers/docling_parser.py", "processors/chunking.py"],
     [("cut", "parsers/text_parser.py:TextParser._create_chunks"), ("cut", "parsers/pdf_parser.py:PDFParser._create_chunks"), ("cut", "parsers/office_parser.py:OfficeParser._create_chunks"), ("strategies", "processors/chunking.py:ChunkingProcessor.process"), ("elements", "parsers/docling_parser.py:DoclingParser._create_structured_chunks")],
     "abstract interpretation of one arbitrary loop iteration in a linear-inequality domain (own Fourier-Motzkin projection)", "Sizes that are not integers are out of scope; which break points are preferred is free.")

prop("C27", "The parser registry answers the best parser that can read the file",
     "A request for a parser by name is answered by the parser registered under that name and refused with ParsingError when there is none. Without a name, every registered parser is asked whether it can read that file, the answer is one with the highest priority among those that said yes, and the request is refused only when there is none; parse_document answers what that parser makes of that file. "
     "A parser says it can read a file exactly when its suffix, whatever its case, is among the formats it publishes, and the registry publishes the formats of all its parsers. "
     "Parsers are registered under their name, made from their class and their configuration, only after they were initialised; one that cannot be set up does not keep the others out, add_parser reports a failure and leaves nothing behind, and a removed parser is closed and gone.",
     ["inputs", "configurations", "histories"], "every file name, every set of configured, added and removed parsers",
     "Tests ask for a .txt file with the text parser only; the choice between several parsers, and what is left after a failure, is not looked at.",
     ["parsers/registry.py", "parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py", "parsers/docling_parser.py"],
     [("choice", "parsers/registry.py:ParserRegistry.get_parser"), ("registration", "parsers/registry.py:ParserRegistry.initialize"), ("registration", "parsers/registry.py:ParserRegistry.add_parser"), ("removal", "parsers/registry.py:ParserRegistry.remove_parser"), ("formats", "parsers/text_parser.py:TextParser.can_parse")],
     "path-sensitive abstract interpretation with a domain of ordered local collections", "Among parsers of equal priority any may be answered.")

prop("C28", "A processing pipeline runs every configured step once, in order",
     "initialize gives the parser registry the configured parsers and sets up exactly the configured processors, each with its own configuration and initialised, in the order cleaning, chunking, embedding, also when it is called again. "
     "process_document parses the caller's file once, with the parser the caller asked for; process_text starts from the caller's text and metadata unchanged. Every processor then runs once, in the order set up, on the result of the one before; the answer is the result of the last one with pipeline metadata added. "
     "batch_process_documents gives one result per path, in order; a document that fails gets an error result and does not stop the others.",
     ["inputs", "configurations", "histories"], "every configuration of processors, every document and every batch in which any documents fail",
     "Tests run one short text through one configuration; order, repetition and failures inside a batch are not varied.",
     ["processors/pipeline.py", "parsers/registry.py"],
     [("set-up", "processors/pipeline.py:ProcessingPipeline.initialize"), ("chain", "processors/pipeline.py:ProcessingPipeline.process_document"), ("chain", "processors/pipeline.py:ProcessingPipeline.process_text"), ("batch", "processors/pipeline.py:ProcessingPipeline.batch_process_documents")],
     "abstract interpretation of all paths and of one arbitrary loop iteration", "What a single processor does with a document is the subject of other properties.")

prop("C26", "A parser reads only acceptable files and takes over all of their text",
     "parse reads the content of a file only when the parser is initialised, the file exists, has a supported format and is not larger than max_file_size; a file is refused for its size only when it is larger. "
     "The answer has text, metadata, chunks and structure. The text is all that was read from the caller's file, in order: every page, paragraph, sheet, row, cell, slide, shape or element with text is taken over once and whole, whatever comes before or after it; a text file is decoded in the configured or detected encoding (utf-8 when none is detected), never in one depending on the machine, with undecodable bytes replaced. "
     "Name and size in the metadata are the file's; the numbers and text lengths given for parts are those of the parts taken over.",
     ["inputs", "configurations"], "every file, of any size, encoding and structure, under every parser configuration",
     "Tests parse one or two short text files; office and pdf documents with empty parts, repeated parts, zero cells or odd encodings are not tried.",
     ["parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py", "parsers/docling_parser.py"],
     [("guards, text", "parsers/text_parser.py:TextParser.parse"), ("guards, pages", "parsers/pdf_parser.py:PDFParser.parse"), ("guards, paragraphs, sheets, slides", "parsers/office_parser.py:OfficeParser.parse"), ("guards, elements", "parsers/docling_parser.py:DoclingParser.parse")],
     "abstract interpretation of all paths of parse and of one arbitrary iteration of each loop over parts", "What the third-party readers extract from a page or shape is taken as given; a page whose extraction fails is left out.")

prop("C29", "Batch operations handle every item once, in order, whatever fails",
     "batch_insert and parallel_batch_insert hand over the vectors and their metadata in batches of batch_size that follow one another without gap or overlap, vectors and metadata cut at the same places, up to the last item. "
     "The ids answered are those of the inserted batches in the order of the input, also when parallel batches finish in another order. "
     "A batch that fails does not stop the others; it is reported to the error callback (which is called for nothing else) and all its items are counted as failed; the items of an inserted batch are counted as processed, and no item is counted as both. "
     "batch_search answers one list of results per query, in the order of the queries and with the caller's k; a query that fails gets an empty list, is counted and reported, and does not stop the others; the helper batch_search does the same without handling failures. "
     "create_vectors_from_files answers one vector and one metadata for every file that could be processed, in order, with the parser asked for; a file that fails is left out, and when none is left the answer is empty.",
     ["inputs", "schedules", "fault_sequences"], "every number of items and batch size, every set of failing batches, queries and files, every order in which parallel batches finish",
     "Tests insert one or two batches into a healthy client; failing batches, failing callbacks and batches that overtake one another are not tried.",
     ["utils/batch_manager.py", "utils/helpers.py"],
     [("insertion", "utils/batch_manager.py:BatchManager.batch_insert"), ("parallel insertion", "utils/batch_manager.py:BatchManager.parallel_batch_insert"), ("search", "utils/batch_manager.py:BatchManager.batch_search"), ("helper search", "utils/helpers.py:batch_search"), ("files", "utils/helpers.py:create_vectors_from_files")],
     "abstract interpretation of one arbitrary iteration of each loop and of each executor task; slice bounds compared as linear expressions", "The client's insert and search are opaque. Counters accumulate over several calls on one manager.")

prop("C06", "No operation changes what it is given",
     "No public function, method or constructor changes an array, list or dictionary reachable from one of its arguments - in place, through a view, or through a shallow copy - nor, later, the configuration its object was constructed with. "
     "No function changes a table of the package (templates, configurations), so a call never depends on the calls before it.",
     ["inputs", "histories"], "every call of every public function and method, with arguments of every shape and content",
     "Tests rarely look at their own arguments after a call, and in-place changes show only for particular dtypes, views and nested values.",
     ["indices", "storage", "quantization", "processors", "utils/helpers.py", "utils/similarity.py", "factory.py"],
     [("arguments", "processors/cleaning.py:CleaningProcessor.process"), ("arguments", "indices/flat.py:FlatIndex.insert"), ("tables", "factory.py:create_from_template")],
     "interprocedural effect and alias analysis of all paths of every public function", "What third-party functions do to their arguments is known only for the usual numpy, heapq and random ones. Objects (clients, indices) passed as arguments are of course used.")

prop("C07", "Reading operations change nothing",
     "retrieve_vector, list_vectors, search, quantize, dequantize, compute_distance, search_with_rescoring, load_*, can_parse, get_* and the inspection methods leave what the component holds, its settings, the components it uses and all files as they were. "
     "They may only fill a cache with the record of the backing store under the same id, remember a value that was not known yet, and count for the statistics; get_stats does not even change the statistics.",
     ["inputs", "histories"], "every sequence of reading operations on every component in every state",
     "A read that changes something is noticed only by a later operation on the same component, which tests seldom make.",
     ["storage", "indices", "quantization", "persistence", "processors", "parsers", "client.py"],
     [("storage", "storage/hybrid.py:HybridStorage.retrieve_vector"), ("search", "indices/hnsw.py:HNSWIndex.search"), ("coding", "quantization/scalar.py:ScalarQuantizer.quantize"), ("statistics", "processors/embedding.py:EmbeddingProcessor.get_stats")],
     "interprocedural effect analysis of all paths of every reading operation, with justification of each effect as cache fill, memo or tally", "Timestamps and tallies that only statistics look at are not part of the state.")

prop("C20", "Factories build the database that was asked for, with the caller's options",
     "create_vector_db with an index type builds that index (flat, hnsw, ivf, lsh, annoy) with the caller's index_config, and the storage named by storage_type (memory, disk, hybrid) with the caller's storage_config; any other name is refused with ValueError. Without an index type it builds the recommended index with the recommended configuration for the caller's number of vectors, dimension and use case (not given counts as small). The client holds that storage and that index and is initialised. "
     "Recommended is exact search below 1000 vectors, below 100000 hnsw for accuracy and annoy otherwise, beyond that lsh above 1000 dimensions and ivf otherwise. "
     "The special-purpose factories and templates pass on all further options, which win over defaults; an unknown template is refused with ValueError. Chunk size, overlap and model reach the initialised pipeline. Every given text, document or image is inserted once with its own metadata (a document's with all its other fields and its position as doc_id), and an index that must be built is built.",
     ["inputs", "configurations"], "every combination of names, sizes, options, overrides and data given to a factory",
     "Tests call a factory with one or two combinations and check that a client comes back, not what it is made of.",
     ["factory.py", "utils/helpers.py", "configs.py"],
     [("database", "factory.py:create_vector_db"), ("document database", "factory.py:create_document_db"), ("hybrid search", "factory.py:create_hybrid_search_db"), ("templates", "factory.py:create_from_template"), ("recommendation", "utils/helpers.py:get_recommended_index_config"), ("recommendation", "configs.py:get_recommended_config")],
     "path-sensitive abstract interpretation, specialised to each published name, with layered-dictionary reasoning", "What the model makes of a text and what an index does with its data are the subject of other properties.")

prop("C21", "Every option takes effect as given, and shipped configurations are valid",
     "Every documented option of an index, storage, quantizer, persistence manager, parser or processor is taken from the configuration under its own name, with exactly the given value (0, False and empty included), and is consulted by some operation. Apart from initialize and load, no operation changes a setting. "
     "Every template, shipped configuration, recommendation and factory default names a known type and sets only options, and only a metric, that its component understands. get_recommended_config answers for every storage type, with that storage, and get_config hands out a copy.",
     ["configurations", "histories"], "every option of every component with every value, every shipped configuration, every later history of operations",
     "Tests construct components with default or one set of options; a misspelt, ignored or falsy option and the dozens of shipped tables are never looked at.",
     ["configs.py", "factory.py", "utils/helpers.py", "indices", "storage", "quantization", "persistence", "processors", "parsers"],
     [("options", "indices/lsh.py:LSHIndex.__init__"), ("options", "processors/chunking.py:ChunkingProcessor.__init__"), ("shipped configurations", "configs.py:get_config"), ("recommendation", "configs.py:get_recommended_config"), ("settings stay", "quantization/saq.py:SAQQuantizer.train")],
     "dataflow from configuration keys to settings, matched with the literal tables; effect analysis of all operations", "That an option consulted by an operation has the documented effect there is the subject of other properties. Defaults are not prescribed.")

prop("C30", "Every metric computes the distance its name says, zero vectors included",
     "The similarity and distance functions of utils.similarity (cosine, Euclidean, squared Euclidean, inner product, Manhattan, Chebyshev, Hamming and Jaccard on the sign pattern x > 0), the batched cosine table, compute_similarity_matrix (cosine, dot) and the distances search answers for the flat, HNSW, IVF, LSH and Annoy indices under each of their metrics, and compute_distance of the quantizers (cosine distance for scalar and SAQ, Euclidean for product, to the decoded vector) equal the mathematical definition for all vectors. LSH and Annoy answer similarities: cosine, 1/(1+d) for Euclidean and Manhattan, 1-d/2 for Annoy's angular and 1-d for its Hamming distance. "
     "Normalising divides each vector by its own l2, l1 or max length (compute helpers may add a tiny constant). A zero vector has cosine similarity 0 (distance 1), Jaccard similarity of two vectors without positive elements is 1, normalising leaves it zero; no metric, normalised embedding or analysis of vectors divides by a length that may be zero. Vectors of different lengths or more than one dimension are refused with ValueError and vectors are never refused for their values.",
     ["inputs", "configurations"], "every pair of vectors and every metric",
     "Tests try a few small vectors with one or two metrics; a formula that differs for signed, zero, unnormalised or several vectors passes them.",
     ["utils/similarity.py", "utils/helpers.py", "utils/debugging.py", "indices", "quantization", "processors/embedding.py"],
     [("cosine", "utils/similarity.py:cosine_similarity"), ("table", "utils/similarity.py:batch_cosine_similarity"), ("normalise", "utils/helpers.py:normalize_vectors"), ("answered distance", "indices/lsh.py:LSHIndex.search"), ("answered distance", "indices/annoy.py:AnnoyIndex.search"), ("decoded", "quantization/product.py:ProductQuantizer.compute_distance")],
     "abstract interpretation of answered values in a domain of rational functions over vector lengths, products and counts, compared exactly with the definitions", "Rounding of floating point arithmetic is outside the formulas; Annoy's own distance d is taken from the library. Annoy's dot metric is not prescribed.")

prop("C32", "Validators accept exactly what they document and refuse the rest",
     "validate_vector, validate_vectors, validate_config, validate_metric, validate_k, validate_id, validate_ids and validate_metadata answer True or raise ValidationError, never another error, for every argument, and raise exactly when a documented reason holds. Vectors: not a numeric numpy array, wrong number of axes, empty, fewer dimensions than min_dim or more than max_dim (a limit of 0 is a limit), another dtype, a zero vector (any of a batch) when not allowed, NaN or infinity anywhere. "
     "Configurations: no dictionary, a required key missing, a key outside allowed_keys (an empty list allows none), a present value of another type, a present int or float outside its inclusive range. A metric must be one of cosine, euclidean, dot_product, manhattan, chebyshev, hamming, jaccard; k an int of at least 1 and at most max_k (0 included as limit); an id a str or int, not a blank string; ids a non-empty list of such ids without duplicates; metadata None or a dictionary with string keys and JSON-serialisable values.",
     ["inputs"], "every argument and every combination of limits",
     "Tests try a handful of good and bad values; a boundary, an omitted check, a check of the first element only or a check skipped for falsy limits is passed.",
     ["utils/validation.py"],
     [("vector", "utils/validation.py:validate_vector"), ("batch", "utils/validation.py:validate_vectors"), ("config", "utils/validation.py:validate_config"), ("ids", "utils/validation.py:validate_ids"), ("metadata", "utils/validation.py:validate_metadata")],
     "path-fact analysis: facts of accepting paths refute, facts of refusing paths imply, a documented reason (sign-cell domain for elements, difference bounds for sizes)", "NaN limits are not prescribed; bool counts as int.")

prop("C34", "Quantizers decode with exactly what they coded with",
     "Scalar: each component's code is the nearest of the 2**bits levels that divide the range from the smallest to the largest training value of its dimension, a component outside the range gets the first or last level, no code overflows the integer type it is stored in, and decoding is the inverse of coding (up to floating-point precision and the int64 limit of very large bit counts). "
     "Product: sub-vector i is the same dimensions [i*d/m, (i+1)*d/m) in training, coding, decoding and distance; its code is the number of the nearest (Euclidean) centroid of codebook i, stored in column i in a type that holds it, and decodes to that centroid. "
     "SAQ: each segment is learned, coded and decoded with its own codebook at its own dimensions, the standardisation learned in training is applied when coding and undone when decoding, and a code is adjusted only where that lowers the error. "
     "compute_distance is the distance to the decoded vector; search_with_rescoring answers positions and exact distances of the same vectors, nearest first, at most top_k, having searched every code. "
     "quantize refuses vectors of another dimension than the trained one.",
     ["inputs", "configurations"], "every training set, vector, bit count, number of sub-vectors, centroids and segments",
     "Tests check shapes and a loose error bound on one random set with 8 bits and at most 256 centroids; wrong rounding, a swapped codebook, an overflow of the code type or a portion left out keep the shapes.",
     ["quantization/scalar.py", "quantization/product.py", "quantization/saq.py"],
     [("coding", "quantization/scalar.py:ScalarQuantizer.quantize"), ("decoding", "quantization/scalar.py:ScalarQuantizer.dequantize"), ("coding", "quantization/product.py:ProductQuantizer.quantize"), ("decoding", "quantization/product.py:ProductQuantizer.dequantize"),
      ("coding", "quantization/saq.py:SAQQuantizer.quantize"), ("rescoring", "quantization/saq.py:SAQQuantizer.search_with_rescoring")],
     "symbolic-formula composition and index-pairing analysis", "The decoding formula is composed with the coding formula as rational functions and compared with the identity; codes, columns, codebooks and dimensions are paired by loop counter. How good the segmentation and the bit allocation are, and bounds of the quantization error, are not claimed.")

prop("C37", "Approximate indices find most of the true nearest neighbours",
     "For data of the kind an index is made for, the k records an LSH, HNSW, IVF or Annoy index answers contain most of the k records the exhaustive search of the flat index answers, and raising ef_search, n_probes, num_tables or num_trees does not make the share smaller on average.",
     ["inputs", "configurations"], "every data distribution an index is meant for, every parameter setting",
     "Tests check that a handful of random vectors find themselves.",
     ["indices/hnsw.py", "indices/lsh.py", "indices/ivf.py", "indices/annoy.py"],
     [("graph search", "indices/hnsw.py:HNSWIndex.search"), ("hash search", "indices/lsh.py:LSHIndex.search")],
     na="the share depends on the geometry of the data and on random levels, planes and trees; no argument from the source bounds it (what must hold for every input of such a search is claimed as C17 and C30)")

prop("C38", "Learned codebooks reconstruct the training vectors with little error",
     "Product and SAQ codebooks learned from a sample decode vectors of the same distribution with a mean squared error well below the variance of the data, falling as bits or sub-vectors grow.",
     ["inputs", "configurations"], "every training sample and bit budget",
     "Tests check one loose bound on one random set.",
     ["quantization/product.py", "quantization/saq.py"],
     [("training", "quantization/product.py:ProductQuantizer.train"), ("training", "quantization/saq.py:SAQQuantizer.train")],
     na="the error is a property of k-means on data known only at run time; that the codes name the nearest learned centroid and decode to it, the part the source determines, is claimed as C34")
