prop("P07", "Table pages keep exactly the tuples that were put in them",
     "Whatever sequence of inserts, updates, metadata changes, deletes and link changes is applied to a table page, reading slot i gives exactly the tuple and metadata last accepted for i, refused operations change nothing, and slots never overlap. "
     "The page's byte image alone, taken at any moment and loaded into another page, gives back the same slots, metadata, links and free space; a damaged image is refused or contained, it never crashes the reader.",
     ["inputs", "histories"], "all operation sequences over tuples of every type and size up to a full page, reloaded at any point, and all corrupted images",
     "Tests insert a few small tuples and never compare the byte image with the in-memory state after an update, nor fill a page to the last byte.",
     ["src/storage/page/page_types/table_page.rs"],
     [("slot directory and space accounting", "src/storage/page/page_types/table_page.rs TablePage::insert_tuple, update_tuple"),
      ("byte image", "src/storage/page/page_types/table_page.rs TablePage::serialize, deserialize")],
     "online monitor: a shadow slot directory compared after every step with the page and with a second page loaded from its byte image; corrupted images loaded under catch_unwind",
     NOTE + "Tuples up to a page; slot counts up to what fits.")
prop("P03", "Garbage collection never takes a version a reader needs",
     "The watermark is the lowest read timestamp of the running transactions (the last commit timestamp when none runs), and is exact after every begin, commit and abort. "
     "Garbage collection may run at any moment: what every running transaction reads afterwards is what it read before, committed rows stay readable, and versions nobody can read any more are freed.",
     ["histories", "schedules"], "all interleavings of readers, writers, commits, aborts and collections",
     "Tests call the watermark with fixed timestamps and collect garbage with no reader running.",
     ["src/concurrency/watermark.rs", "src/concurrency/transaction_manager.rs"],
     [("watermark", "src/concurrency/watermark.rs Watermark"), ("collection", "src/concurrency/transaction_manager.rs TransactionManager::garbage_collection")],
     "online monitor: watermark against a multiset reference; every reader's view compared with a multi-version reference before and after each collection",
     NOTE + "Rows of one table, up to a few dozen versions each.")
prop("P04", "Transactions are isolated and atomic",
     "Each transaction reads its own writes and otherwise the versions its isolation level allows: no dirty reads from READ COMMITTED up, one stable snapshot per transaction from REPEATABLE READ up, and no lost updates there. "
     "Committing makes all of a transaction's changes visible together; aborting leaves no trace of them, whatever mix of inserts, updates and deletes it made and whatever ran beside it, also when it touches more pages than the buffer pool holds or its rows outgrow their pages.",
     ["schedules", "histories"], "all interleavings of transactions at every isolation level, including threads",
     "Tests run one or two transactions in a fixed order, mostly without looking at what a concurrent reader sees.",
     ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs"],
     [("visibility", "src/storage/table/transactional_table_heap.rs TransactionalTableHeap::get_tuple"), ("commit and abort", "src/concurrency/transaction_manager.rs TransactionManager::commit, abort")],
     "online monitor: every read and every accept/refuse compared with a multi-version reference; recorded threaded histories checked offline for snapshots, lost updates and conservation",
     NOTE + "One table; write skew is outside (no range or read locks are taken at this layer).")
prop("P06", "The buffer pool never loses, mixes up or evicts pinned pages",
     "A page fetched from the pool always holds the bytes last written to it, however often it was evicted, flushed and loaded in between; each resident page has one frame, and every frame is either free or holds one page. "
     "Pinned pages stay put and count their pins exactly, requests fail only when every frame is pinned, and flushed or evicted changes are on disk.",
     ["schedules", "histories"], "all sequences of new, fetch, write, unpin, flush, batch load and delete on pools of any size, also from many threads at once",
     "Tests use a pool with room to spare, one thread and a handful of pages; eviction under pressure and flushes beside writers never happen.",
     ["src/buffer/buffer_pool_manager_async.rs", "src/storage/page/page_guard.rs"],
     [("frame choice and eviction", "src/buffer/buffer_pool_manager_async.rs BufferPoolManager::get_available_frame, evict_old_page"), ("pins", "src/buffer/buffer_pool_manager_async.rs BufferPoolManager::fetch_page, unpin_page")],
     "online monitor: every page image, pin count and frame compared with a page model after each step; threaded stress with per-page version stamps, checked again on disk",
     NOTE + "Pools of 1 to 24 frames; page ids from this process (ids are not recovered from an existing file).")
prop("P13", "A page read from disk is the last one written",
     "Whatever mix of single and batched writes, reads, flushes, syncs and configuration (cache policies and sizes, coalescing, work stealing, buffer limits) is used, the disk manager returns for each page the last bytes whose write was accepted, and every request gets an answer. "
     "Concurrent readers of a page see one of the writes in progress or the last finished one and never go back in time; after a flush and shutdown the file itself holds the last writes, and a flush that syncs has synced it; a device that fails for a while gives errors, not silence, and costs no accepted write.",
     ["histories", "schedules", "configurations"], "all sequences and interleavings of page writes, reads and flushes under any disk manager configuration, with reopen and device failure",
     "Tests use one configuration, write a page and read it straight back from the cache; evictions between the tiers, write coalescing and reads racing flushes are never mixed.",
     ["src/storage/disk/async_disk/manager.rs", "src/storage/disk/async_disk/memory/write_manager.rs", "src/storage/disk/async_disk/cache/cache_manager.rs", "src/storage/disk/async_disk/scheduler"],
     [("read path", "src/storage/disk/async_disk/manager.rs AsyncDiskManager::read_page, read_pages_batch"), ("write path", "src/storage/disk/async_disk/manager.rs AsyncDiskManager::write_page, flush_writes_with_durability"), ("buffering", "src/storage/disk/async_disk/memory/write_manager.rs WriteManager")],
     "online monitor: every page image read compared with a page model under random configurations; threaded register histories checked for monotone reads; the raw file and its syncs compared after flushes and shutdown; injected full and failing devices",
     NOTE + "Files in a scratch directory; device faults are injected at the C library calls.")
prop("P12", "Page caches follow their replacement policies",
     "Every cache (FIFO, LRU, LFU, heap LFU, LRU-K) holds at most its capacity, returns exactly the value stored last under a key, and evicts the entry its policy names: the oldest insertion, the least recent, a least frequent, or the one with the oldest K-th last use. "
     "Every value is dropped exactly once, after its last holder let go, also with many threads; the tiered cache never returns an image older than the one stored last.",
     ["histories", "schedules"], "all operation sequences on caches of every capacity, 0 included, and all thread interleavings of the concurrent LRU",
     "Tests check a handful of hand-made sequences per cache; order after updates, removals and re-insertions, zero capacity and memory lifetime in the pointer-linked list are left open.",
     ["src/storage/disk/async_disk/cache/lru.rs", "src/storage/disk/async_disk/cache/lru_k.rs", "src/storage/disk/async_disk/cache/lfu.rs", "src/storage/disk/async_disk/cache/heap_lfu.rs", "src/storage/disk/async_disk/cache/fifo.rs", "src/storage/disk/async_disk/cache/cache_manager.rs"],
     [("linked list", "src/storage/disk/async_disk/cache/lru.rs LRUCore"), ("victims", "src/storage/disk/async_disk/cache/lru_k.rs LRUKCache::insert, pop_lru_k"), ("tiers", "src/storage/disk/async_disk/cache/cache_manager.rs CacheManager::get_page, store_page")],
     "online monitor: every result, size, rank, frequency and next victim compared with a reference model after each step; drop counters for lifetimes; threaded stress",
     NOTE + "Capacities up to 12 (24 threaded).")
prop("P14", "Every I/O request ends exactly once and is answered with its own result",
     "A queued I/O operation is served by priority, oldest first among equals, and ends exactly once: completed, failed, cancelled or timed out; its caller, every waiter and the event stream hear that one result, and the counters add up. "
     "Concurrent requests on the engine each get their own data, appends to the log are disjoint and contiguous, cancelled requests leave no trace, and compressed blocks expand to the bytes that went in.",
     ["schedules", "histories", "inputs"], "all interleavings of submissions, completions, cancellations, time-outs and waiters",
     "Tests complete one operation at a time with the waiter already in place; races between ends, late waiters and overfull event channels are not tried.",
     ["src/storage/disk/async_disk/io/completion.rs", "src/storage/disk/async_disk/io/queue.rs", "src/storage/disk/async_disk/io/io_impl.rs", "src/storage/disk/async_disk/io/executor.rs", "src/storage/disk/async_disk/io/worker.rs", "src/storage/disk/async_disk/compression.rs"],
     [("ends and waiters", "src/storage/disk/async_disk/io/completion.rs CompletionTracker"), ("order", "src/storage/disk/async_disk/io/operations.rs IOOperation::cmp"), ("file operations", "src/storage/disk/async_disk/io/executor.rs IOOperationExecutor")],
     "online monitor: racing ends recorded and compared with what receivers, waiters, events and counters report; queue order against a sorted list; files compared with the requests answered",
     NOTE + "Up to 1500 operations in flight.")
prop("P08", "A table holds every accepted row at its RID, and scans return each once",
     "Every row a table heap accepts gets a RID of its own and is read back there, tuple and metadata bit for bit, until it is updated or deleted; a refused operation changes nothing, and rows given by values come out with their defaults filled in and missing NOT NULL values refused. "
     "Scans, whole or between two RIDs, return every live row exactly once, in order and under its own RID, also on a pool far smaller than the table, beside other tables and writers, and through a heap reopened from its page ids.",
     ["histories", "schedules"], "all sequences of inserts, updates, deletes, scans and reopens on heaps of any length over pools of any size, with concurrent writers and scanners",
     "Tests insert a few rows into one page of a roomy pool; page chains, evictions under a scan, skipped rows and failed inserts do not come up.",
     ["src/storage/table/table_heap.rs", "src/storage/table/table_iterator.rs"],
     [("insert and page chain", "src/storage/table/table_heap.rs TableHeap::insert_tuple_internal, create_new_page_and_insert"), ("scan", "src/storage/table/table_iterator.rs TableIterator::next, TableScanIterator")],
     "online monitor: every row, scan and page chain compared with a list model after each step; threaded writers and scanners with checksummed rows",
     NOTE + "Heaps of up to a few dozen pages, pools of 6 to 60 frames; transactional visibility is P04.")
prop("P16", "The log keeps every record, in order, and persistent means on disk",
     "Records appended to the write-ahead log, from any number of threads, get consecutive LSNs and reach the log file once each, in LSN order and unchanged; readers of the log (from the start, from any record, by offset, or of a log cut anywhere) return exactly the whole records that are in it. "
     "The persistent LSN never runs ahead of what was written and synced to the device: a commit that succeeded is on disk with everything before it, and when the device fills up or fails to sync, commits fail and nothing is written behind a lost record.",
     ["schedules", "histories", "crash_points", "fault_sequences"], "all interleavings of writers and flushes, all record contents, every cut of the log and every device failure point",
     "Tests append a few records from one thread to a healthy file; none looks at what had been synced when an append returned.",
     ["src/recovery/log_manager.rs", "src/recovery/log_record.rs", "src/recovery/log_iterator.rs", "src/recovery/wal_manager.rs", "src/concurrency/transaction_manager_factory.rs"],
     [("append and flush", "src/recovery/log_manager.rs LogManager::append_log_record, perform_flush"), ("reading", "src/recovery/log_iterator.rs LogIterator::next"), ("commit", "src/concurrency/transaction_manager_factory.rs TransactionManagerFactory::commit_transaction")],
     "online monitor: file length at each fdatasync recorded at the system call boundary and compared with every persistent LSN and commit reported; log file checked offline against what was appended; injected ENOSPC and EIO",
     NOTE + "Durability is what the process asked of the kernel; the device below it is not tested.")
prop("P17", "After a crash exactly the committed work is there",
     "Recovery from any crash (log cut at any byte after the last acknowledged commit, each page as it was at any earlier moment the log covers) leaves every row as the committed transactions left it: their inserts, updates and deletes all there, those of aborted and unfinished transactions gone. "
     "It comes to the same rows when run again or after a further crash, and new transactions see them and keep working, with new page ids and log records that do not clash with old ones.",
     ["crash_points", "histories"], "all histories of interleaved transactions, all crash points in the log, all mixes of page images, several crashes in a row",
     "Tests write two records, restart and never look at a page.",
     ["src/recovery/log_recovery.rs", "src/recovery/log_iterator.rs", "src/recovery/log_manager.rs", "src/buffer/buffer_pool_manager_async.rs"],
     [("analysis", "src/recovery/log_recovery.rs LogRecoveryManager::analyze_log"), ("redo", "src/recovery/log_recovery.rs LogRecoveryManager::redo_log, redo_record"), ("undo", "src/recovery/log_recovery.rs LogRecoveryManager::undo_log")],
     "offline checker: rows after recovery compared with the committed state of the recorded history, on crash images built from the recorded log and page images",
     NOTE + "Up to 4 pages of rows, 60 operations between crashes, 4 crashes; pages reach the file in the order of their ids.")
prop("P18", "Values compare, compute, convert and encode exactly",
     "Comparison of any two values is the one order of their kind: the six comparisons agree with each other and with minimum, maximum, equality, hash and sort order; numbers of different types compare by value after promotion, and NULL compares to NULL with everything. "
     "Arithmetic gives the exact result in the type of its operands or an error, never a wrapped one or a panic, and NULL for NULL; a cast gives the whole value, or an error when the target cannot hold it, and text casts back; values, tuples and their key columns read back from their encodings bit for bit, and truncated encodings are refused.",
     ["inputs"], "all values of all types, all pairs (and triples for the order) of them, all target types, all tuple encodings and truncations of them",
     "Tests try a few small literals per type; type pairs meeting in the less used comparisons, limits of the types, NaN, signed zero and values next to each other across types are not covered.",
     ["src/types_db/value.rs", "src/types_db/types.rs", "src/storage/table/tuple.rs"],
     [("comparison", "src/types_db/value.rs impl Type for Value compare_less_than"), ("arithmetic", "src/types_db/value.rs impl Type for Value add, subtract, multiply, divide, modulo"), ("casts", "src/types_db/value.rs Value::cast_to"), ("tuples", "src/storage/table/tuple.rs Tuple::serialize_to, deserialize_from")],
     "online monitor: every result compared with a reference computed in wider arithmetic, and order, equality and hash laws checked over pools of values",
     "Scalar types, and vectors, arrays and points in the order laws; strings up to 40 characters.")
prop("P20", "Expressions evaluate to their SQL value",
     "Every expression evaluates, on every row, to the value SQL gives it: comparisons, arithmetic, AND/OR/NOT, IS tests, IS DISTINCT FROM, BETWEEN, IN, ANY/ALL, LIKE, CASE, COALESCE, CAST and the string functions follow three-valued logic, promote numbers of different types, count characters rather than bytes, and turn overflow, division by zero and impossible casts into errors, without panicking. "
     "The result is the same whether the expression is evaluated on one row or as part of a join over the row's two halves, and the same after the expression was cloned with its children.",
     ["inputs"], "all expression trees over all rows, in row and in join evaluation",
     "Tests evaluate one operator on a few literals; nested trees, NULL operands in every place, mixed types and the join evaluation of most operators are not covered.",
     ["src/sql/execution/expressions", "src/types_db/value.rs"],
     [("logic", "src/sql/execution/expressions/logic_expression.rs LogicExpression::evaluate"), ("comparison", "src/sql/execution/expressions/comparison_expression.rs"), ("arithmetic", "src/sql/execution/expressions/arithmetic_expression.rs"), ("strings", "src/sql/execution/expressions/substring_expression.rs, overlay_expression.rs, position_expression.rs")],
     "online monitor: random expression trees evaluated on random rows, whole and split over a join, original and clone, each compared with a reference evaluator",
     "Well-typed trees up to depth 4; arrays, structs, regular expressions, dates and time zones are not covered.")
prop("P09", "A B+tree index holds exactly its entries, in key order",
     "Whatever entries are inserted into and deleted from a B+tree index of any order and key type, duplicates of a key and NULL keys included, the index holds exactly the (key, RID) pairs accepted and not yet deleted, once each; inserting a present pair or deleting an absent one is refused and changes nothing. "
     "Full scans, key lookups, range scans with open or closed ends, and iterators (forwards, backwards, from both ends, after reset or seek) return exactly the entries of their range in key order, and the tree stays balanced with ordered nodes within their size limits, also with readers iterating beside a writer.",
     ["histories", "schedules"], "all sequences of inserts and deletes on trees of every order, all ranges, readers beside a writer",
     "Tests insert a few dozen distinct integers; runs of duplicates crossing leaves, deletes that merge inner nodes, open ranges and reverse iteration over them do not come up.",
     ["src/storage/index/b_plus_tree.rs", "src/storage/index/index_iterator_mem.rs", "src/storage/index/types/comparators.rs"],
     [("splits and merges", "src/storage/index/b_plus_tree.rs BPlusTree::insert, delete"), ("ranges", "src/storage/index/b_plus_tree.rs BPlusTree::scan_range, scan_key"), ("iteration", "src/storage/index/index_iterator_mem.rs IndexIterator")],
     "online monitor: every answer, scan and iterator compared with a sorted multimap after each step, with the tree's own structure check; entries required of readers racing a writer recorded and checked",
     NOTE + "Orders 3 to 16, up to a few hundred entries; deletes take the tree's write lock.")
prop("P21", "Query and data-change plans give the rows SQL defines",
     "Any tree of scan, filter, projection, join (nested loop and hash; inner, left, right, full, cross), aggregation with GROUP BY, DISTINCT, sort, top-N and limit plans returns exactly the rows, with their multiplicities and the asked order, that SQL defines over its inputs: NULL keys join nothing, aggregates pass over NULLs, sorts put keys in one total order. "
     "INSERT (values or query), UPDATE and DELETE change exactly the rows they name to the values they name, report how many, and do not see their own changes while running; an expression that fails in sorting, projecting or aggregating is an error of the query, never a short result.",
     ["inputs", "histories"], "all plan trees over all tables, NULLs, duplicates and empty inputs included",
     "Tests run each executor alone on a few rows without NULLs or duplicates and mostly compare counts.",
     ["src/sql/execution/executors", "src/sql/execution/plans"],
     [("joins", "src/sql/execution/executors/nested_loop_join_executor.rs, hash_join_executor.rs"), ("aggregation", "src/sql/execution/executors/aggregation_executor.rs"), ("order", "src/sql/execution/executors/sort_executor.rs, topn_executor.rs, limit_executor.rs, distinct_executor.rs"), ("changes", "src/sql/execution/executors/insert_executor.rs, update_executor.rs, delete_executor.rs")],
     "online monitor: random plan trees run on random tables, each result compared with a reference interpreter of the same tree; tables compared with a model after every statement",
     NOTE + "Up to 3 tables of up to about 30 rows, plans up to depth 4. SUM over no rows, HAVING, failing WHERE conditions and the order of groups are not claimed.")
prop("P22", "Rows are found through an index exactly as by reading the table",
     "An index scan under any combination of conditions, and an inner join that looks its right rows up in an index, give exactly the rows that reading the whole table under the same conditions gives, each once, in every transaction at every isolation level. "
     "This holds for indexes created at any moment, before or after the rows, beside open transactions and concurrent writers, with NULL keys, duplicates, keys changed by updates, deletes, aborts and indexes on several columns; UPDATE and DELETE that find their rows by index change the same rows, and a condition that fails is an error.",
     ["histories", "schedules", "inputs"], "all tables and histories of changes, all index definitions and creation times, all conditions",
     "Tests build an index over a few fixed rows and ask one range; none changes rows after the index was built or asks for conditions on other columns.",
     ["src/sql/execution/executors/index_scan_executor.rs", "src/sql/execution/executors/nested_index_join_executor.rs", "src/catalog/database.rs", "src/storage/table/table_heap.rs"],
     [("bounds from conditions", "src/sql/execution/executors/index_scan_executor.rs IndexScanExecutor"), ("maintenance", "src/storage/table/table_heap.rs TableHeap::index_row"), ("population", "src/catalog/database.rs Database::populate_index_with_existing_data"), ("join", "src/sql/execution/executors/nested_index_join_executor.rs")],
     "online monitor: every index scan and index join run beside the sequential plan in the same transaction and compared row by row, under random histories and threads",
     NOTE + "Inner index joins only; unique indexes are not claimed.")
prop("P25", "No memory error, data race or leak in code that manages memory itself",
     "However the library is used through its safe interfaces, in any order and from any threads, it never touches memory that was freed, is out of bounds or belongs to someone else, never frees twice, never races and never leaks: the LRU's linked nodes live exactly as long as the cache refers to them, and references it hands out stay valid. "
     "Aligned I/O buffers are aligned, zero padded, hold exactly what was put in them and are freed with the layout they were made with; aligned file reads and writes transfer exactly the bytes asked for, within the caller's buffer, and refuse misaligned requests.",
     ["histories", "schedules", "inputs"], "all operation sequences and thread schedules over the code with unsafe blocks, all buffer sizes and alignments",
     "Tests run without a sanitizer, so an access to a freed node passes as long as the memory still looks right; they use one thread and one alignment.",
     ["src/storage/disk/async_disk/cache/lru.rs", "src/storage/disk/direct_io.rs", "src/storage/page/page_types/table_page.rs"],
     [("linked nodes", "src/storage/disk/async_disk/cache/lru.rs LRUCore, deallocate_node, remove_from_list, remove_tail"), ("thread safety claims", "src/storage/disk/async_disk/cache/lru.rs ConcurrentLRUCache, unsafe impl Send, Sync"), ("aligned memory", "src/storage/disk/direct_io.rs AlignedBuffer, read_aligned_into, write_aligned")],
     "sanitizers: AddressSanitizer over all threaded workloads and Miri over many seeds (thorough: ThreadSanitizer too), each first shown to be alive on a deliberate error; buffers and files compared with byte models",
     NOTE + "Miri runs without preemption inside lock operations (its futex model does not know parking_lot's call); ASan's leak detector is off, leaks are Miri's and P12's.")
prop("P10", "A paged B+tree holds exactly its entries, in key order",
     "A B+tree kept in pages of the buffer pool (all its pages resident, one thread at a time) holds exactly the entries inserted and not yet removed, whatever the order of the tree, the keys, and the mixture of plain and latch-crabbing insertions and removals: inserting a present key replaces its value, removing an absent one answers so and changes nothing. "
     "Lookups, range scans and traversals give exactly the entries of their range in key order, through every split, merge and redistribution of leaves and internal pages; the counted size is exact, and the tree stays balanced and within its size limits, its leaves linked in key order, down to the empty tree and up again.",
     ["histories", "inputs"], "all sequences of insertions and removals, all orders of the tree",
     "Tests insert a few ascending keys and remove some; redistribution and splits of internal pages with further levels above them do not come up.",
     ["src/storage/index/b_plus_tree_index.rs", "src/storage/index/latch_crabbing.rs", "src/storage/page/page_types/b_plus_tree_internal_page.rs", "src/storage/page/page_types/b_plus_tree_leaf_page.rs", "src/storage/page/page_types/b_plus_tree_header_page.rs"],
     [("insertion", "src/storage/index/b_plus_tree_index.rs insert, insert_with_latch_crabbing, split_leaf_page, split_internal_page"), ("removal", "src/storage/index/b_plus_tree_index.rs remove, remove_with_latch_crabbing, merge_leaf_pages, redistribute_internal_pages, merge_internal_pages"), ("reading", "src/storage/index/b_plus_tree_index.rs search, range_scan, in_order_traversal")],
     "online monitor: every answer compared with a sorted map, and after steps the whole traversal, size, structure validation and leaf chain",
     NOTE + "Orders 3 to 32, up to about 1,000 entries; integer keys. Trees larger than their pool are a known finding; latch crabbing between threads is not claimed.")
prop("P11", "A hash table holds exactly its entries through splits and merges",
     "An extendible hash table whose pages stay in the buffer pool, and a hash index over it, hold exactly the (key, RID) entries that were accepted and not yet removed, through every split, directory growth and merge, whatever the directory depth, bucket size and key type, NULL keys and several rows with one key included: a lookup gives all entries of its key and no others, removing an entry removes that one, and removing an absent one changes nothing. "
     "An insert is refused only when as many entries as a bucket holds already share the directory-depth low bits of the key's hash; emptying a bucket returns its own page, never its sibling's, and the space is usable again. Every directory slot leads to the bucket whose local-depth low bits it shares, and the directory can be halved exactly when no bucket needs its full depth.",
     ["histories", "inputs", "schedules"], "all sequences of inserts and removals, all depths, bucket sizes and key distributions",
     "Tests insert a few distinct integers into one shape of table; buckets at higher directory indexes, several rows of one key, and merges with occupied siblings do not come up.",
     ["src/container/disk_extendable_hash_table.rs", "src/container/hash_function.rs", "src/storage/page/page_types/extendable_hash_table_directory_page.rs", "src/storage/page/page_types/extendable_hash_table_bucket_page.rs", "src/storage/index/extendable_hash_table_index.rs"],
     [("splits and merges", "src/container/disk_extendable_hash_table.rs DiskExtendableHashTable::insert, split_bucket_internal, merge_bucket"), ("directory", "src/storage/page/page_types/extendable_hash_table_directory_page.rs update_directory_for_split, merge_bucket, hash_to_bucket_index"), ("index", "src/storage/index/extendable_hash_table_index.rs insert_entry, delete_entry, scan_key")],
     "online monitor: every answer compared with a multimap in a pool that has one frame more than the table can need; the directory compared slot by slot with a map of hash suffixes after each split and merge",
     NOTE + "Directory depth up to 7 (9 for the directory alone), buckets up to 8 entries; tables larger than the pool are a known finding.")
prop("P23", "The catalog finds every table and index, now and after a restart",
     "Every table and index that was created is found under its name and its OID with exactly the schema, columns, keys and owner it was created with, and nothing else is found: an existing name, an unknown table to index, or a foreign key to a missing table or column is refused and changes nothing; OIDs are never shared, not even between databases; switching databases shows that database's tables only; within a schema, merged or not, a plain or qualified name leads to the column it names. "
     "Every table of the saved catalog, with all its rows, is there after each later restart, and works like any other: new rows commit, abort and are found beside the old ones, and new tables get new OIDs.",
     ["histories", "inputs", "configurations"], "all sequences of creating databases, tables and indexes, and of sessions over the same files",
     "Tests create one or two tables and look them up at once; none restarts twice or grows a table before a restart.",
     ["src/catalog/catalog_impl.rs", "src/catalog/database.rs", "src/catalog/system_catalog.rs", "src/catalog/schema.rs", "src/catalog/column.rs", "src/storage/table/table_heap.rs"],
     [("creation", "src/catalog/database.rs Database::create_table, create_index, validate_foreign_key_constraints"), ("restart", "src/catalog/catalog_impl.rs Catalog::rebuild_from_system_catalog, row_to_table_info"), ("reopened tables", "src/storage/table/table_heap.rs TableHeap::reopen")],
     "online monitor: after every step all lookups compared with a model of databases, tables, indexes and rows; sequences of sessions over the same files through recovery",
     NOTE + "Clean restarts, the catalog saved at the end of a session; only the default database is saved; indexes are not rebuilt by a restart and are not claimed.")
prop("P26", "Planning and optimizing never change what a query means",
     "Any logical plan of scans, filters, projections, sorts, limits, offsets, DISTINCT, top-N (also per group, in any directions), aggregates and joins on equalities of columns (operands in either order) becomes a physical plan that gives exactly the rows its operators specify, and the optimizer under any options turns it into one that gives the same rows in the same required order, over tables with and without indexes and constraints. "
     "INSERT, UPDATE, DELETE, CREATE TABLE and CREATE INDEX keep their effect through both; what cannot be planned is refused with an error, wherever it stands in the plan, and never hangs or yields a wrong plan.",
     ["inputs", "configurations"], "all logical plan trees, all optimizer options, all tables and indexes",
     "Tests build one node at a time and look at its fields; none optimizes a plan and runs it.",
     ["src/sql/optimizer/optimizer_impl.rs", "src/sql/planner/logical_plan.rs", "src/sql/execution/executors/topn_executor.rs", "src/sql/execution/executors/topn_per_group_executor.rs"],
     [("conversion", "src/sql/planner/logical_plan.rs PlanConverter::convert, convert_node"), ("join keys", "src/sql/planner/logical_plan.rs extract_join_keys"), ("rewrites", "src/sql/optimizer/optimizer_impl.rs apply_index_scan_optimization, apply_early_pruning, push_down_predicate, merge_projections, optimize_sort_and_limit"), ("constraint indexes", "src/sql/optimizer/optimizer_impl.rs create_constraint_indexes")],
     "online monitor: random logical plans converted and run as written and optimized, both results compared with a reference interpreter; tables and catalog compared with a model after every statement; conversion under a time limit",
     NOTE + "Plans up to depth 5 over tables of up to about 180 rows. Joins on other conditions may be refused; expressions have a value on every row.")
prop("P24", "Client sessions are separate, ordered and atomic",
     "Over the network every request gets exactly one answer, on its own connection and in the order of the requests, however long request and answer are and however they are cut up or run together on the wire; what is no request, or cannot be carried out, is answered by an error and disturbs neither the session nor anyone else. "
     "A session reads exactly what is committed plus its own open transaction: begin, commit, rollback and disconnection end transactions with all of their effect or none, prepared statements run when executed and as often as executed, no session sees work another has not asked to commit, transactions under snapshot levels see one consistent state, concurrent transfers conserve their sum, and everything acknowledged is there once.",
     ["histories", "schedules", "inputs"], "all sequences of requests of all concurrent sessions, all message lengths and all ways the bytes arrive",
     "No test starts the server; messages are short and arrive in one piece wherever they are tried.",
     ["src/server/connection.rs", "src/server/server_impl.rs", "src/server/protocol.rs", "src/common/db_instance.rs", "src/client/client_impl.rs", "src/common/result_writer.rs"],
     [("requests", "src/server/connection.rs handle_client_connection, take_request"), ("sessions", "src/common/db_instance.rs DBInstance::handle_network_query, handle_begin_transaction, handle_commit, handle_rollback, remove_client_session"), ("client", "src/client/client_impl.rs DatabaseClient::receive_response")],
     "online monitor at the socket: raw and library clients against the running server on the loopback network, each session compared with a model of its own rows, shared rows checked against what every session had asked for and been told; messages split, merged and replaced by noise",
     NOTE + "Statements are single-table INSERT, UPDATE, DELETE and SELECT with simple conditions; sessions write disjoint rows except in the transfers; the connection itself is reliable.")

prop("P27", "SQL text returns and changes exactly what it says",
     "A SELECT given as SQL text (select list with expressions and aliases, inner and outer joins on equalities, WHERE, GROUP BY with aggregates and expressions over them, HAVING, DISTINCT, ORDER BY columns, aliases or positions in either direction, LIMIT and OFFSET) returns exactly the rows, columns and required order that SQL gives it over the rows of its tables, with three-valued logic for NULL; every literal, operator, CASE, CAST, IN, BETWEEN, LIKE and string function in it means the same wherever it stands. "
     "INSERT (of values or of a query, into all or named columns in any order), UPDATE and DELETE given as text change exactly the rows and columns they name, however much an updated row grows, seen at once by their own transaction and undone by its abort; a statement that names an unknown table or column, has the wrong number of values, or a value its column cannot hold is refused.",
     ["inputs", "histories"], "all statements of the supported grammar over all tables",
     "Tests run some fixed statements and mostly check that they succeed or how many rows come back; column positions, signs of literals, several aggregates in one query, and expressions over them are not covered.",
     ["src/sql/planner/plan_builder.rs", "src/sql/planner/query_planner.rs", "src/sql/execution/expression_parser.rs", "src/sql/execution/execution_engine.rs", "src/sql/execution/executors/aggregation_executor.rs", "src/sql/execution/executors/insert_executor.rs", "src/sql/execution/executors/update_executor.rs"],
     [("planning", "src/sql/planner/plan_builder.rs LogicalPlanBuilder::build_query_plan, build_select_plan, build_insert_plan, build_update_plan, build_delete_plan"), ("expressions", "src/sql/execution/expression_parser.rs ExpressionParser::parse_expression"), ("execution", "src/sql/execution/execution_engine.rs ExecutionEngine::execute_sql")],
     "online monitor: random statements as text through the real engine, result rows, order and tables compared after each with a reference that evaluates the statement's own tree",
     NOTE + "Up to three tables of up to about 60 rows; subqueries, DISTINCT inside aggregates, declared constraints and DEFAULT are known findings; CTEs, UNION, derived tables and joins on other conditions are refused by the engine and not generated; a condition without a value on a row may refuse the statement or drop the row.")
