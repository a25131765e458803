PROPS = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw))

P("P01", "Committed mutations survive crashes, torn writes and log damage",
  "Every mutation whose commit was acknowledged is returned exactly once, in order, with its payload unchanged, by replay after any process stop, power loss or write error. No mutation whose commit was never started is replayed, and bytes damaged at the end of the log never produce an invented record, a crash, or the loss of an earlier acknowledged one. A write error is reported, never acknowledged.",
  "histories,crash_points,fault_sequences,inputs", "all histories of prepare/commit/sync/reopen/truncate, every crash point inside or between file operations with every torn prefix, every failing file operation, every damaged tail byte",
  "recovery_test covers a handful of fixed logs with one truncation; crash points, torn prefixes and failing writes are never enumerated.",
  "include/recovery/write_ahead_log.hpp include/utils/platform_fs.hpp", [("frame checksum and length validation", "WriteAheadLog::replayable_records"), ("append + sync on commit", "WriteAheadLog::append_commit"), ("torn tail cut before append", "WriteAheadLog")])
P("P02", "Operation ids never repeat and always exceed what is durable",
  "After any sequence of mutations, snapshots, restarts and torn log tails, the next operation id is larger than every committed or snapshotted one. Replay from the current snapshot returns exactly the committed operations that came after it, in commit order.",
  "histories", "all bounded sequences of prepare, commit, publish snapshot, restart and torn tail",
  "tests call it on one or two fixed histories.", "include/recovery/recovery_manager.hpp include/recovery/write_ahead_log.hpp", [("max over manifest and log", "RecoveryManager::next_operation_id")])
P("P03", "Snapshot publication is atomic and durable",
  "At every instant, including after a process stop, power loss or file error at any point of publishing, the current snapshot is exactly one of the published ones with all its own component files, and every operation it lacks is still in the log. A publication that returned is current; one that failed leaves the previous snapshot usable, and the next publication still works. Restoring a snapshot leaves the live database equal to the checkpoint and nothing else.",
  "crash_points,fault_sequences,histories", "every file operation of a publication as stop or failure point, process stop and power loss, coinciding clock readings",
  "tests publish without faults, and never twice within one millisecond.", "include/recovery/recovery_manager.hpp include/recovery/snapshot_manifest.hpp include/utils/platform_fs.hpp",
  [("temp file, sync, rename, directory sync", "RecoveryManager::write_text_atomically"), ("CURRENT switched before the log is truncated", "RecoveryManager::publish_snapshot")])
P("P24", "Search candidate pools keep exactly the best candidates in order",
  "Whatever sequence of insertions, duplicate ids, pops and deletions is applied, a candidate pool holds distinct ids in ascending distance order, never exceeds its capacity, never drops a candidate better than one it keeps, and hands out unexpanded candidates nearest first. Results copied out equal the best candidates ever inserted.",
  "inputs,histories", "all distances, ids and operation orders within the bounds",
  "unit tests insert a few fixed distances; ties, duplicates at boundaries and full pools in every order are not covered.",
  "include/utils/query_utils.hpp include/utils/rabitq_utils/search_utils/buffer.hpp include/index/graph/laser/utils/buffer.hpp include/index/neighbor.hpp", [("sorted insertion with capacity", "LinearPool::insert / SearchBuffer::insert")])
P("P05", "Snapshot manifests are read back exactly or refused",
  "Every manifest that is written is parsed back with all its text and number fields unchanged. A manifest whose numbers are malformed or out of range is refused with an error, never silently read as other numbers.",
  "inputs", "all field contents without line breaks, numbers around every representable boundary, any single damaged byte",
  "tests parse one or two fixed manifests.", "include/recovery/snapshot_manifest.hpp", [("key=value lines", "SnapshotManifest parse and serialize")])
P("P06", "Stored records survive serialization and damage never crashes decoding",
  "Serializing a record with its item id, document and metadata of any type and restoring it yields the same record, as does restoring single fields. A truncated or arbitrary buffer is refused with an exception or yields a record wholly inside the buffer; no byte outside it is read.",
  "inputs", "all records with bounded sizes and all arbitrary buffers up to the bound", "unit tests use a few literal records and no damaged buffers.",
  "include/utils/scalar_data.hpp", [("binary record format", "ScalarData::serialize/deserialize")])
P("P07", "Index key encodings preserve the order of their values",
  "For any two integers or doubles, the byte order of their index keys is the numeric order, equal values have equal keys, and decoding returns the value. Keys of one field and record decode to exactly that record.",
  "inputs", "all 64-bit integer pairs, all double pairs except NaN, record ids at every decimal length", "tests compare a handful of values.",
  "include/utils/index_encoding.hpp", [("sign-flipped big-endian and decimal encodings", "encode_int64 / encode_double")])
P("P08", "Metadata filters decide exactly what their conditions say",
  "A record satisfies a filter exactly when its conditions hold under the usual meaning of each operator on the stored value, combined by the stated logic and nested filters. A missing field or a value of another type never satisfies a comparison, and NaN is neither equal, less nor greater.",
  "inputs", "all values of every type for every operator, all combinations of two conditions and nested filters", "tests check single literal values per operator.",
  "include/utils/metadata_filter.hpp", [("condition evaluation", "MetadataFilter::evaluate")])
P("P09", "Indexed filtering returns the same records as full evaluation",
  "Whatever records are stored and whichever fields are indexed, the set of record ids selected through the secondary indexes is the set obtained by evaluating the filter on every stored record. Similar field names or values never leak records of another field or value.",
  "inputs,histories", "all values and operators for bounded collections, indexed and unindexed fields with names extending each other", "tests use small ordinary values and unrelated field names.",
  "include/utils/metadata_filter_matcher.hpp include/storage/rocksdb_storage.hpp include/utils/index_encoding.hpp", [("range scan planning", "MetadataFilterMatcher")])
P("P10", "The record store keeps records, item ids, count and indexes in step",
  "After any sequence of inserts, batch inserts, updates, removals and reopenings, including a stop or error at any database write, the store returns exactly the newest records, finds each by its item id, counts them exactly, and its index entries describe exactly the stored records. An operation takes effect as a whole or not at all.",
  "histories,crash_points,fault_sequences", "all bounded operation sequences, every database write as stop or failure point", "tests never stop or fail between two database writes.",
  "include/storage/rocksdb_storage.hpp", [("one write batch per operation", "RocksDBStorage")])
P("P11", "Tombstones mark exactly the deleted slots across growth, snapshots and reload",
  "After any sequence of marks and unmarks the set answers, counts, snapshots and reloads exactly the marked slots, at any slot number, and readers running alongside see each slot either before or after its change. A damaged or shortened tombstone file is refused, never read out of bounds.",
  "histories,schedules,inputs", "bounded sequences over all word and chunk boundaries, any damaged header value, all schedules of one writer and one reader within the preemption bound", "tests use small ids in one chunk and a sound file.",
  "include/index/graph/diskann/tombstone_bitmap.hpp", [("chunked atomic bitmap", "TombstoneBitmap")])
P("P12", "Slot allocation never hands out a slot in use",
  "Any sequence of allocate, publish, free, save and reload gives every live point its own slot, reuses freed slots before opening new ones, and keeps unpublished and freed slots invisible to searches. Reloading continues from exactly the saved state; damaged files are refused.",
  "histories,inputs", "all bounded sequences from several starting states, any damaged header field or cut", "tests run one or two fixed sequences.",
  "include/index/graph/diskann/slot_allocator.hpp", [("free list plus fresh counter", "SlotAllocator")])
P("P13", "The disk page cache never loses or resurrects page updates",
  "For any sequence of reads, updates, fills and flushes, a cached page is its newest version, a page not cached is up to date on disk, a flush writes every pending update, and the cache keeps exactly the most recently used pages within its capacity.",
  "histories", "all bounded operation sequences on three pages for every small capacity with arbitrary contents", "tests follow a few fixed eviction orders.",
  "include/index/graph/diskann/disk_page_cache.hpp", [("LRU with write-back on eviction", "DiskPageCache")])
P("P14", "Disk index files place every node apart and are read back exactly",
  "For any dimension and degree the records of different nodes never overlap, lie within whole sectors behind the header, and inside the announced file size. A written index file is read back with the same header, coordinates and neighbours; damaged headers, wrong lengths, inconsistent inputs and failed writes are reported, never accepted or crashed on.",
  "inputs,fault_sequences", "many dimension and degree pairs with any node id, any header damage near overflow boundaries, every failing write", "tests check a few sizes and no damaged or overflowing header.",
  "include/index/graph/diskann/disk_layout.hpp", [("page geometry", "DiskLayoutGeometry"), ("header validation", "read_disk_layout_header")])
P("P15", "Visited and membership sets contain exactly what was inserted",
  "Every bitset, visited list and hash set used by searches reports an id as a member exactly when it was inserted since the last clear, for any ids and orders, also when an internal epoch counter wraps around, and pooled sets are handed out empty and never shared between concurrent searches.",
  "histories,schedules,inputs", "all bounded sequences with arbitrary ids, full counter wrap-around, two threads sharing a pool within the preemption bound", "tests use a few ids and never wrap the counters.",
  "include/utils/query_utils.hpp include/utils/rabitq_utils/search_utils/visited_pool.hpp include/third_party/ngt/hashset.hpp include/index/graph/hnsw/visited_list_pool.hpp include/index/graph/diskann/visited_bitset.hpp", [("membership structures", "DynamicBitset, EpochVisitedSet, HashBasedBooleanSet, HierarchicalBitset, VisitedBitset")])
P("P16", "The DiskANN node cache serves the newest record of every cached node",
  "The cache holds the requested share of nodes nearest the entry point, and after any sequence of updates, drops and save and reload a lookup returns the node's newest coordinates and neighbours or nothing. A record in use never changes under its reader, damaged files are refused, a save that reports success can be loaded, and per-query scratch state returns exactly what was stored.",
  "histories,schedules,fault_sequences,inputs", "all small graphs, bounded update sequences, any file cut, every failing write, reader and writer schedules within the preemption bound", "tests use one graph, no faults and no concurrent updates.",
  "include/index/graph/diskann/node_cache.hpp include/index/graph/diskann/search_scratch.hpp", [("base records plus sharded overrides", "NodeCache")])

P("P17", "Disk segment and collection manifests are read back exactly or refused",
  "Every segment or collection manifest that is written reads back with exactly the same values, for every index type, metric, count and name. Reading accepts only well-formed text: a file name that could leave the segment directory, a number that is malformed or too large, a missing or duplicate key or a damaged file is refused with an error and never read as different values, and never crashes.",
  "inputs", "all field values near every size boundary and all short names, numbers and damage patterns", "tests use a handful of literal manifests.",
  "include/index/disk/segment_manifest.hpp include/index/disk/types.hpp", [("line oriented manifest writer and strict parser", "SegmentManifest"), ("atomic manifest replacement", "write_manifest_atomic")])
P("P18", "A disk collection never loses, duplicates or half-publishes flushed rows",
  "Creating a collection and flushing rows are all or nothing: after a stop, power loss or failing file operation at any point the collection opens to the rows flushed before or also the new ones, rows that a returned flush covers are never lost, labels are unique, and the same or a later flush can be retried. Any history of adds, flushes and reopens keeps exactly the accepted rows; a batch is accepted or refused as a whole. Whatever options creation accepts can be opened again, and only with the segments listed, each once and of the same kind.",
  "crash_points,fault_sequences,histories", "every stop, power loss or failed file operation of creation and flush, and bounded histories", "tests exercise only chosen failure points.",
  "include/index/disk/disk_collection.hpp include/index/disk/disk_flat_builder.hpp include/index/disk/segment_factory.hpp", [("staged segment directory then rename then manifest", "DiskCollection"), ("tmp directory published by rename", "DiskFlatSegmentBuilder")])
P("P19", "Disk collection search returns the exact nearest rows over all segments",
  "On a flat collection a search returns the k rows nearest to the query under its metric, with their own labels and distances in ascending order with ties in a fixed order, no matter how rows are split into segments or what values they have. Bad arguments and rows the metric cannot rank are refused, and a batch search equals the single searches in every thread interleaving, reporting an error of any of them.",
  "inputs,schedules", "all finite vectors and labels of small collections, all result sizes, thread schedules within the preemption bound", "tests compare a few random collections with brute force.",
  "include/index/disk/disk_collection.hpp include/index/disk/disk_flat_searcher.hpp include/index/disk/types.hpp", [("per-segment top-k and merge", "DiskCollection"), ("brute-force scan over the mapped segment", "DiskFlatSegmentSearcher")])
P("P20", "A disk collection has at most one writer, in every interleaving",
  "While a handle holds a collection every other open or creation of the same path is refused, whatever the lock file holds; of concurrent creations or opens at most one succeeds and a concurrent creation and open are never both held. Moving a handle keeps the lock, closing it frees it and all files, a left-over lock file does not block a later open, and nothing flushed is lost when opens race with a closing writer.",
  "schedules,histories", "two threads or handles, every file system call a switching point, within the preemption bound", "tests cannot force the interleavings.",
  "include/index/disk/disk_collection.hpp", [("exclusive advisory lock on .lock", "acquire_collection_lock_impl")])
P("P21", "Vector spaces return exactly the rows they stored",
  "A raw or scalar-quantized vector space accepts rows until its capacity and numbers them in order, keeps each row's own bytes or code apart from every other row, counts only accepted rows, forgets exactly the removed ones, and after saving and loading is the same space. Codes stay within one step of the value, saturate at the ends of the learnt range, and a file cut short or a save that could not be written is reported.",
  "inputs,histories,fault_sequences", "all bounded histories with arbitrary row contents, every value for the quantizers, every cut and failing write", "tests use one fixed data set and no damaged files.",
  "include/space/raw_space.hpp include/space/sq8_space.hpp include/space/sq4_space.hpp include/storage/sequential_storage.hpp", [("aligned row storage with validity bitmap", "SequentialStorage"), ("scalar quantization", "SQ8Quantizer / SQ4Quantizer")])
P("P22", "The proximity graph keeps every node's neighbours across updates and files",
  "After any sequence of inserting, updating and removing nodes, saving and loading, the graph returns for every node exactly the neighbours it was last given on the base layer and on each upper layer, and entry points survive a reload. Greedy descent through upper layers ends at a node none of whose neighbours is nearer. A graph file cut short or not fully written is reported.",
  "inputs,histories,fault_sequences", "all bounded histories and overlays with arbitrary neighbour values and distances, every cut and failing write", "tests use fixed small graphs and sound files.",
  "include/index/graph/graph.hpp include/index/graph/overlay_graph.hpp", [("fixed-width adjacency rows", "Graph"), ("upper layers", "OverlayGraph")])
P("P23", "Graph search returns the nearest reachable rows, once each and in order",
  "For any graph, distances and candidate list size a search fills its result with distinct stored rows, nearest first, each with its own distance, then padding. A row next to a found row is found too unless it is no nearer, and with a list as large as the index no nearer reachable row is missed. Blocked rows are never returned, removed rows rank after all live ones, reranked results follow the exact distances, and iterating visits every reachable row once.",
  "inputs", "all finite distances, result sizes, candidate lists, blocked sets and removed rows on small graphs of several shapes", "tests measure recall on one random data set, which tolerates wrong, missing or repeated rows.",
  "include/executor/jobs/graph_search_job.hpp include/executor/jobs/vector_iterator.hpp include/index/neighbor.hpp", [("best first search over a bounded sorted list", "GraphSearchJob"), ("resumable candidate iterator", "VectorIterator")])
P("P25", "Adding and removing rows keeps the search index connected and in step",
  "After any history of inserts and removals the graph has only stored, distinct neighbours per row and never a row itself; a new row is linked to the rows found for it and back, and a link is dropped only for nearer live rows. Every live row stays findable where lists are large enough, removed rows are never found as live ones, row numbers, spaces, graph and item ids stay in step, and a full index, an item id in use or a failing store refuses the row, leaving nothing of it to be found by search or item id.",
  "histories,inputs,fault_sequences", "all bounded histories with arbitrary pairwise distances, one failing database write at every position", "tests run one fixed sequence and check recall.",
  "include/executor/jobs/graph_update_job.hpp include/executor/jobs/graph_search_job.hpp include/executor/jobs/job_context.hpp", [("insert, repair neighbourhood, remove", "GraphUpdateJob")])
P("P26", "Filtered vector search returns exactly the nearest rows the filter accepts",
  "Whatever the filter, execution hint, index and distances, a filtered search returns only rows that satisfy the filter and are not removed, once each, nearest first, each with its own item id, with empty places only at the end. Exact and brute-force execution, and any execution with a candidate list as large as the collection except the iterator's, miss no nearer accepted row; searches that may scan return as many accepted rows as were asked for.",
  "inputs", "all distances for small collections, filter shapes, hints, result sizes and removed rows, small samples of sparse larger ones", "tests check fixed data with one or two filters.",
  "include/executor/jobs/graph_hybrid_search_job.hpp include/utils/metadata_filter_matcher.hpp", [("plan choice and fallbacks", "GraphHybridSearchJob")])

P("P27", "SIMD kernels compute their formula at every dimension and instruction set",
  "For every dimension, element type and supported instruction set a distance kernel adds up every position's contribution exactly once: the squared difference for L2, the negated product for inner product, with a quantized code standing for the lower end of its range plus code times step, and an empty range for its value. The Hadamard transform is exact at every supported size and refuses others, and the LASER scan kernels (table sums, conversion, products, range, norm, estimates) agree with their scalar definition.",
  "inputs", "all values at each single position of every dimension up to the bound for scalar, AVX2, AVX-512 and compatibility kernels, and fixed patterns over all positions",
  "tests compare random vectors of a few dimensions with a tolerance, on the one instruction set of the machine they run on.",
  "include/simd/distance_l2.ipp include/simd/distance_ip.ipp include/simd/distance_l2.hpp include/simd/distance_ip.hpp include/simd/fht.ipp include/simd/laser_dispatch.hpp include/simd/cpu_features.hpp",
  [("vector main loop plus tail", "l2_sqr / ip_sqr and their sq8, sq4 variants"), ("runtime dispatch", "get_l2_sqr_func, get_accumulate_func"), ("in-place butterfly", "fht_float")])

P("P28", "Quantized (RaBitQ) indexes code, build, search and store rows faithfully",
  "A RaBitQ code holds the sign of every rotated component relative to its centre, code sums and estimates follow their formula at every length up to 3072 dimensions, and rotations keep lengths and angles. A built quantized graph gives every row as many distinct other rows as fit. A search returns distinct, allowed, reachable rows in order of exact distance, then padding, the nearest ones when its list is long enough, suspended or not; its iterator visits each once. A saved space is read back whole; damaged or unwritten files are reported.",
  "inputs,schedules,fault_sequences", "all distances and estimates on small graphs of several shapes, blocked sets and result sizes, turns of two searches, all values of single code bytes, table entries, factors and components, every cut and failing write",
  "tests measure recall of one data set, which tolerates wrong codes, repeated or missing rows, and never damage a file.",
  "include/space/rabitq_space.hpp include/space/quant/rabitq.hpp include/executor/jobs/graph_search_job.hpp include/index/graph/qg/qg_builder.hpp include/utils/rabitq_utils/fastscan.hpp include/utils/rabitq_utils/lut.hpp include/utils/rabitq_utils/rotator.hpp",
  [("sign codes and correction factors", "RaBitQQuantizer"), ("table sums over packed codes", "fastscan::accumulate"), ("beam search over estimates, result list over exact distances", "rabitq_search"), ("candidate search, pruning, supplementing", "QGBuilder")])

P("P29", "LASER disk index searches find the nearest reachable rows, whatever reads do",
  "A LASER index search returns distinct, reachable rows in order of exact distance, then marked empty places, for every beam width, cache, medoid set, entry point, estimate and order in which page reads complete, and the nearest ones when its list is long enough; a batch equals single searches. A failed or short read, a build that cannot read or write, damaged or foreign files and unusable parameters are reported, and the index stays searchable. Estimates follow their formula within one query step at every length.",
  "inputs,schedules,fault_sequences", "small graphs of several shapes, all completion orders and counts of asynchronous reads, arbitrary estimates, every failing read and write, file cuts and header values, code lengths up to 2048",
  "tests need real asynchronous disk reads, which always complete in order and never fail, and measure recall.",
  "include/index/graph/laser/qg/qg.hpp include/index/graph/laser/qg/qg_builder.hpp include/index/graph/laser/qg/qg_query.hpp include/index/graph/laser/qg/qg_scanner.hpp include/index/graph/laser/quantization/rabitq.hpp include/index/graph/laser/utils/aligned_file_reader.hpp include/index/graph/laser/utils/buffer.hpp include/index/graph/laser/utils/pca_transform.hpp",
  [("pipelined beam search over page reads", "QuantizedGraph::disk_search_qg"), ("pages with vector, codes, factors, neighbours", "QGBuilder::build"), ("6 bit query codes and table sums", "QGQuery, QGScanner")])

P("P30", "A space keeps every vector and its row data together",
  "In a space that stores row data every live row has exactly the data it was given, found by row number, by item id and by filter, and a removed, refused or bare row has none; rows are numbered in order, an item id in use is refused, and counts and indexes cover the live rows. A fit whose row data is missing or refused stores no rows, a failed database write is reported and leaves row and data as they were, and after saving and loading the space, its database and its indexed fields are the same; a file cut short is refused.",
  "histories,inputs,fault_sequences", "all bounded histories of inserts, removals and reloads with an arbitrary metadata value, a database write failing at any position, every cut of a saved file",
  "tests use one sequence with valid data and a database that never fails.",
  "include/space/raw_space.hpp include/space/sq8_space.hpp include/space/sq4_space.hpp include/space/rabitq_space.hpp include/storage/rocksdb_storage.hpp",
  [("vectors and scalar storage updated together", "insert / remove / fit"), ("scalar configuration inside the saved space", "save_scalar_config / load_scalar_config")])

P("P31", "The Vamana disk index builds, keeps and searches well-formed graphs",
  "A built graph links every row to between one and R distinct other rows, enters at the row nearest to the mean and, when the limits allow, reaches every row; pruning keeps the nearest candidate and leaves others out when, and only when room is left, a nearer kept neighbour hides them. Search returns distinct reachable rows, nearest first with exact distances, misses no nearer neighbour of what it found, and all rows when its list is long enough. A saved graph, segment or collection is kept whole or not at all through stops and write failures, every row keeps its own label, and damaged or mismatched files are refused.",
  "inputs,crash_points,fault_sequences", "all small graphs, arbitrary fields and every cut of graph files, stops and faults at every file operation, arbitrary labels, mismatched segment files and manifests",
  "tests build a few random data sets and measure recall; none damages a file at every place or stops a flush at every operation.",
  "include/index/graph/vamana/vamana_builder.hpp include/index/graph/vamana/vamana_reader.hpp include/index/graph/vamana/vamana_writer.hpp include/index/graph/vamana/vamana_greedy_search.hpp include/index/graph/vamana/robust_prune.hpp include/index/disk/vamana_segment_builder.hpp include/index/disk/vamana_segment_searcher.hpp",
  [("greedy search and robust pruning with slack", "VamanaBuilder::link, occlude_list"), ("strict graph file reader", "VamanaReader"), ("segment published by rename", "VamanaSegmentBuilder::finish")])
