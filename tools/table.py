TECH = "deterministic simulation with fault injection (seeded schedules, I/O faults, crashes)"
NOTES = "Every check is bin/check <id>; a violation's replay file is re-executed with bin/replay <file>."
DM = "src/storage/disk/async_disk/"
prop("D01", "A page read returns the newest write of that page",
  "Every successful read of a page returns exactly the bytes of the most recently completed write of that page (or of a write still in progress), never older, mixed or invented bytes; a page never written reads as absent or zero. This holds for single, batch and prioritised reads and writes from any number of concurrent clients, whatever cache tiers, staging, coalescing, compression, direct I/O or work stealing are configured, and whether or not flushes run at the same time.",
  ["schedules", "histories", "configurations"], "every interleaving of concurrent reads, writes, batch operations and flushes, under every configuration of the disk manager",
  "The tests run single-threaded or unsynchronised tasks on one configuration and read back what they wrote a moment before; which of cache, staging buffer, in-flight flush and disk answers a read depends on timing they do not control.",
  [DM+"manager.rs", DM+"cache/cache_manager.rs", DM+"memory/write_manager.rs", DM+"memory/write_staging_buffer.rs", DM+"memory/coalescing/coalescing_engine.rs", DM+"io/executor.rs"],
  [("write staging and read-through", DM+"manager.rs"), ("tiered page cache", DM+"cache/cache_manager.rs"), ("write staging buffer and coalescing", DM+"memory/write_manager.rs"), ("I/O engine", DM+"io/")],
  observe=["results of the page read and write calls"],
  claim="Every simulated run is a seeded schedule of the real disk manager, I/O engine, caches and tokio runtime; per-page linearizability of the recorded history is decided exactly (Wing-Gong search).")
prop("D02", "A flushed or shut-down page write survives any crash",
  "Once a flush that promises durability (a forced flush, or any flush under a policy that syncs on flush) or a shutdown has returned successfully, every page write that completed before it began is still readable, in that version or a newer one, after a crash at any later point. A page holds only bytes that were written to it, except that a write not yet covered by a flush may be torn.",
  ["crash_points", "schedules", "configurations"], "every crash point (between and inside individual writes and syncs, losing or tearing any unsynced write) in every interleaving and configuration",
  "The tests never crash the process: they read back through the same process or reopen files the operating system kept, so a missing sync or a page dropped between staging and disk is invisible to them.",
  [DM+"manager.rs", DM+"memory/write_manager.rs", DM+"memory/durability_manager.rs", DM+"memory/flush_coordinator.rs", DM+"io/executor.rs", DM+"io/completion.rs"],
  [("durability policy applied after writing", DM+"manager.rs"), ("flush of the staging buffer", DM+"memory/write_manager.rs"), ("sync operations of the I/O engine", DM+"io/executor.rs"), ("shutdown", DM+"manager.rs")],
  observe=["page contents after restart"],
  claim="Seeded crash points (at a chosen disk operation, inside a write, or at a chosen basic block) with loss, retention or tearing of unsynced writes; the restarted real disk manager's reads are compared with the flush history.")
prop("D03", "A disk error is reported, and what it hit is neither lost nor corrupted",
  "A read or write error, a failed sync, a full disk or a short transfer never makes an operation report success for work that was not done and never makes a read return stale or corrupt data. A page write that was acknowledged before the error stays readable and, once the errors stop and a flush succeeds, is durable.",
  ["fault_sequences", "schedules"], "every sequence of I/O errors, disk-full conditions, short transfers and interrupted calls, in every interleaving",
  "No test injects an I/O error into the disk manager; the error paths (a failed batch, a failed sync, a page drained from the buffer before the failure) are never executed.",
  [DM+"manager.rs", DM+"memory/write_manager.rs", DM+"memory/write_staging_buffer.rs", DM+"io/executor.rs", DM+"io/worker.rs", DM+"io/completion.rs"],
  [("error propagation through the completion tracker", DM+"io/completion.rs"), ("retaining pages of a failed flush", DM+"memory/write_manager.rs"), ("short transfers", DM+"io/executor.rs")],
  claim="Seeded faults at chosen disk operations; the oracle combines per-page linearizability, recovery after the faults stop, and durability after a final flush and crash.")
prop("D04", "Every disk operation finishes, and shutdown terminates",
  "Every page read, write, batch, flush and shutdown returns within a bounded time, with success or an error, on any schedule; none fails without an actual I/O error, and none hangs after one. No background thread or task panics or deadlocks.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving and configuration, with latency spikes, short transfers, interrupted calls, spurious wakeups and I/O errors",
  "A lost wakeup, a completion delivered before its waiter subscribes, or a worker that exits early shows only in rare interleavings or after an error.",
  [DM+"io/io_impl.rs", DM+"io/worker.rs", DM+"io/completion.rs", DM+"io/queue.rs", DM+"scheduler.rs", DM+"manager.rs"],
  [("completion tracking", DM+"io/completion.rs"), ("worker loop", DM+"io/worker.rs"), ("work-stealing scheduler", DM+"scheduler.rs"), ("shutdown", DM+"manager.rs")],
  claim="Virtual time: a run that reaches a state where nothing can run, exceeds its simulated-time or step bound, or panics is a violation; faults are limited so that progress is owed.")
UC = "check under construction"
REC = ["src/recovery/log_manager.rs", "src/recovery/wal_manager.rs"]
prop("W01", "An acknowledged log record or commit survives any crash",
  "When appending a commit record returns a log position, that record and every record appended before it are on disk; a commit is never acknowledged while its record could still be lost. This holds under any schedule of concurrent appenders and background flushing, any crash point, and any log write or sync error, which is reported instead of being acknowledged as durable; and every append returns.",
  ["crash_points", "schedules", "fault_sequences"], "every interleaving of concurrent appenders with the background flusher, every crash point, and log write or sync failures",
  "The tests wait for the background flusher with sleeps and read the log back in the same process; they never crash between the acknowledgement and the sync nor fail a log write.",
  REC + ["src/recovery/log_record.rs", DM+"io/executor.rs", DM+"manager.rs"],
  [("group flush task and persistent position", "src/recovery/log_manager.rs"), ("log append with sync", DM+"manager.rs"), ("commit record waits for durability", "src/recovery/log_manager.rs")],
  claim="Seeded schedules of concurrent appenders against the real flush task, crashes at chosen log operations or basic blocks with the unsynced log suffix lost at any byte, log write and sync failures, and reuse after recovery; acknowledged commits are compared with the log read after restart.")
prop("W02", "Log positions are unique, increasing and match the log's order",
  "Every appended log record receives its own position, greater than every position handed out before the append began (after a crash and recovery: of every record that survived); each transaction's records link to its previous record. Reading the log back yields exactly the appended records, once each, in position order, with the content that was appended.",
  ["schedules", "histories", "inputs"], "every interleaving of concurrent appenders and every mix of record kinds and sizes",
  "Tests append from few threads and count records; gaps, duplicates or reordering between assigning a position and queueing the record appear only in particular interleavings.",
  REC + ["src/recovery/log_iterator.rs", "src/recovery/log_record.rs"],
  [("position allocation and queueing", "src/recovery/log_manager.rs"), ("record encoding", "src/recovery/log_record.rs"), ("log iteration", "src/recovery/log_iterator.rs")],
  claim="Positions, real-time order, links and contents of every append in a simulated run are compared with the log read back, also across crash, recovery and further appends.")
prop("W03", "A torn or damaged log tail yields a clean prefix",
  "After a crash that leaves the end of the log torn, short or full of stale bytes, reading the log delivers a prefix of the records that were appended, including every record that was durable, and stops; it never delivers a record that was not appended, never repeats one and never fails to terminate.",
  ["crash_points", "inputs"], "every crash point inside a log write and every torn prefix of it",
  "Tests read complete logs; none cuts a log at an arbitrary byte.",
  ["src/recovery/log_iterator.rs", "src/recovery/log_manager.rs", "src/recovery/log_record.rs"],
  [("log iteration and record framing", "src/recovery/log_iterator.rs")], claim="Logs cut at any byte by a simulated crash are read, recovered, extended, crashed and read again; what is delivered must be a prefix of what was appended in each life of the log.")
prop("R01", "Recovery keeps committed changes and removes uncommitted ones",
  "After a crash and a recovery that reports success, every logged change of a transaction whose commit record is in the durable log is present and visible, every change of a transaction without one is absent, and nothing else is altered; whether each changed page had reached disk before the crash does not matter.",
  ["crash_points", "histories"], "every crash point, every subset of changed pages written back before it, and every mix of finished and unfinished transactions",
  "The tests recover from a handful of fixed logs, mostly with the pages in one particular state.",
  ["src/recovery/log_recovery.rs", "src/recovery/wal_manager.rs", "src/storage/page/page_types/table_page.rs"],
  [("analysis, redo and undo passes", "src/recovery/log_recovery.rs")], claim="Logged transactions of one to three clients run over real table pages, a real log and a small buffer pool until a seeded crash; the recovered rows are compared with the last committed version of each row according to the log that survived, with I/O errors during recovery as a second scenario.")
prop("R02", "Recovery can be repeated or interrupted without changing its result",
  "Recovering a second time, or recovering again after a crash in the middle of recovery, ends in the same state as one uninterrupted recovery.",
  ["crash_points", "histories"], "every crash point during recovery, and repeated recovery",
  "No test interrupts recovery.",
  ["src/recovery/log_recovery.rs"], [("redo guarded by page state, undo", "src/recovery/log_recovery.rs")], claim="The R01 scenario over three or four lives: seeded crashes inside recovery, recovery run twice, and further transactions, reusing ids, after recovery and before the next crash; the same exact row oracle after every recovery.")
prop("B01", "The buffer pool never loses a change to a page across eviction",
  "A page fetched from the buffer pool shows every change made through earlier guards of that page, no matter how often it was evicted, written back, flushed or fetched concurrently in between; two live guards of one page always see the same bytes.",
  ["schedules", "histories", "configurations"], "every interleaving of fetches, writes, flushes, evictions and deletions over pools of any size",
  "Eviction of a page another thread is fetching or modifying happens only under memory pressure at particular instants, which the tests do not create.",
  ["src/buffer/buffer_pool_manager_async.rs", "src/buffer/lru_k_replacer.rs", "src/storage/page/page_guard.rs"],
  [("page table, frame allocation and write-back", "src/buffer/buffer_pool_manager_async.rs"), ("pinning guards", "src/storage/page/page_guard.rs")], claim="Seeded schedules of clients holding guards over a pool of 1 to 5 frames with evictions, all flush kinds, I/O errors and restarts against the real disk manager; per-page linearizability of what the guards saw is decided exactly.")
prop("B02", "Pinned pages are never evicted and no frame is lost",
  "A page with a live guard stays resident under its frame until the guard is dropped; a frame whose last guard is dropped becomes evictable again. At rest every frame is either free or holds exactly one page, no page occupies two frames, and a pool whose guards are all dropped can always supply as many distinct pages as it has frames.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of fetches, drops and evictions, including failed reads and write-backs",
  "Leaks and double assignments accumulate only after particular races or failed loads.",
  ["src/buffer/buffer_pool_manager_async.rs", "src/buffer/lru_k_replacer.rs", "src/storage/page/page_guard.rs"],
  [("pin counts and the replacer", "src/buffer/lru_k_replacer.rs"), ("frame allocation", "src/buffer/buffer_pool_manager_async.rs")], claim="Guards held across other clients' operations are compared with the page table at both ends; refused fetches are compared with the number of frames that can have been in use; at rest every frame is accounted for.")
prop("L01", "Conflicting locks are never held at the same time",
  "At every instant the table locks and the row locks held by different transactions on one resource are pairwise compatible in the multigranularity sense (shared, exclusive and the intention modes), including during upgrades and while waiters are being granted.",
  ["schedules", "histories"], "every interleaving of lock, upgrade and unlock requests of concurrent transactions on tables and rows",
  "The compatibility of what is held depends on the order in which waiters wake, which tests cannot choose.",
  ["src/concurrency/lock_manager.rs"], [("compatibility matrix, queues and upgrades", "src/concurrency/lock_manager.rs")], claim="Seeded schedules of transactions that lock, upgrade, poll, unlock and end on a few tables and rows; certain-hold intervals of different transactions must be compatible.")
prop("L02", "Lock requests follow the isolation level's and two-phase rules",
  "A lock request that its isolation level, its transaction's phase or the lock hierarchy forbids is refused and leaves no trace; releasing a lock that is not held is refused; after a transaction's locks are all released it holds none and blocks nobody.",
  ["histories", "schedules"], "every history of lock, upgrade and release requests under each isolation level",
  "Tests try a few fixed sequences.",
  ["src/concurrency/lock_manager.rs", "src/concurrency/transaction.rs"], [("request validation and release", "src/concurrency/lock_manager.rs")], claim="Seeded schedules with allowed and forbidden requests at every isolation level; each reply is compared with the two-phase and isolation rules, lock sets with what was granted and released.")
prop("L03", "Deadlocks are broken and every waiter is eventually served",
  "When transactions wait for each other in a cycle, one of them is refused or aborted within a bounded time so that the others proceed; a waiter whose conflicting locks have been released is granted within a bounded time, and a transaction that is not part of any cycle is never aborted for deadlock.",
  ["schedules"], "every interleaving of lock requests that forms, or just avoids, a cycle, with the background detector running at any moment",
  "Detection runs on a timer in its own thread; tests sleep and hope.",
  ["src/concurrency/lock_manager.rs"], [("wait-for graph and detector thread", "src/concurrency/lock_manager.rs"), ("waking of waiters", "src/concurrency/lock_manager.rs")], claim="Seeded schedules with cycles and near-cycles under the simulated detector thread; every cycle must be broken, every free waiter served, only cycle members chosen as victims.")
prop("T01", "An aborted transaction leaves no effect",
  "After a transaction aborts, every row it inserted is invisible to all transactions and every row it updated or deleted, however many times, is again exactly as it was before, whatever other transactions ran in the meantime.",
  ["schedules", "histories"], "every history of inserts, updates and deletes of concurrent transactions, with an abort at any point",
  "Tests abort after one or two operations on one row.",
  ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs", "src/storage/table/table_heap.rs"],
  [("undo logs and rollback", "src/concurrency/transaction_manager.rs")], claim="Seeded schedules of concurrent transactions over one or two tables in a small pool, with aborts (chosen, or forced by deadlock) anywhere; every read during and after is checked against the versions the recorded history allows.")
prop("T02", "Uncommitted changes are invisible and commits are all-or-nothing",
  "A transaction at any isolation level above read-uncommitted never reads a value written by another transaction that has not committed, and once it begins after a commit it sees all of that commit's changes, never some of them.",
  ["schedules", "histories"], "every interleaving of readers with writing, committing and aborting transactions",
  "The window between marking a transaction committed and publishing its rows is a few instructions wide.",
  ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs"],
  [("version visibility", "src/storage/table/transactional_table_heap.rs"), ("commit", "src/concurrency/transaction_manager.rs")], claim="Seeded schedules of readers against writing, committing and aborting transactions; every value read is checked against who wrote it and when that transaction committed.")
prop("T03", "A snapshot does not change while its transaction runs",
  "A repeatable-read, snapshot or serializable transaction that reads a row again, without having written it itself, gets the same answer each time, and always sees its own latest write.",
  ["schedules", "histories"], "every interleaving of a reading transaction with concurrent updates, deletes, commits and aborts",
  "Needs a commit of another transaction between two reads, at each possible point of the version chain.",
  ["src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction_manager.rs"],
  [("version chain traversal", "src/storage/table/transactional_table_heap.rs")], claim="Seeded schedules of long-running readers against concurrent commits; every read is compared with the version its snapshot timestamp selects from the recorded history.")
prop("T04", "Concurrent updates of one row are never lost",
  "No transaction overwrites a change of another transaction that has not ended, and a repeatable-read, snapshot or serializable transaction never overwrites a change committed after its snapshot: it is refused, so no committed update is lost. A change nobody conflicts with is never refused.",
  ["schedules", "histories"], "every interleaving of concurrent updates and deletes of the same rows",
  "The check for a conflict and the update are separate steps; tests do not interleave them.",
  ["src/storage/table/transactional_table_heap.rs", "src/concurrency/lock_manager.rs"],
  [("write conflict check", "src/storage/table/transactional_table_heap.rs")], claim="Seeded schedules of concurrent updates and deletes of few rows; the recorded history is checked for dirty writes, lost updates and refusals without a conflict.")
prop("T05", "Transaction ids and timestamps are unique and the watermark is exact",
  "Every transaction gets an id of its own, every commit a timestamp greater than all earlier ones and than the reader's snapshot of any transaction begun before, and the low watermark is always the oldest snapshot still in use, or lies behind every commit when none is. Removing old versions never changes what a live transaction can read.",
  ["schedules", "histories"], "every interleaving of begins, commits, aborts and garbage collection",
  "Begin and commit race on the timestamp counters and the watermark.",
  ["src/concurrency/transaction_manager.rs", "src/concurrency/watermark.rs"],
  [("timestamp allocation", "src/concurrency/transaction_manager.rs"), ("watermark bookkeeping", "src/concurrency/watermark.rs")], claim="Seeded schedules of begins, commits, aborts, watermark queries and garbage collection; ids, timestamps and watermarks are checked against the recorded history, and reads against the snapshot.")
prop("I01", "A B+ tree index behaves as one atomic ordered map",
  "Concurrent inserts, deletes, lookups and range scans on a B+ tree index behave as if each happened at one instant: a lookup returns exactly the value last inserted for the key and not yet removed, and a scan returns keys in order, each entry once, missing none that was present throughout. The same holds for the in-memory tree, whose entries are pairs of key and row, and for its iterators.",
  ["schedules", "histories", "configurations"], "every interleaving and history of index operations at every tree order, as long as the index fits in the buffer pool",
  "Splits, merges and redistribution racing with searches need particular interleavings at page boundaries.",
  ["src/storage/index/b_plus_tree_index.rs", "src/storage/index/b_plus_tree.rs", "src/storage/index/index_iterator_mem.rs", "src/storage/index/latch_crabbing.rs", "src/storage/page/page_types/b_plus_tree_leaf_page.rs", "src/storage/page/page_types/b_plus_tree_internal_page.rs"],
  [("latch crabbing", "src/storage/index/latch_crabbing.rs"), ("split, merge and redistribution", "src/storage/index/b_plus_tree_index.rs")], claim="Seeded schedules and histories of one to four clients over the disk and the in-memory tree at orders 3 to 16, growing and shrinking; per-key linearizability including what each scan returned and missed.")
prop("I02", "The B+ tree stays balanced, ordered and linked",
  "After any history of inserts and deletes, every leaf of the B+ tree index is at the same depth, every node but the root is at least half full and none is overfull, keys are sorted and within their parents' bounds, and the leaf chain visits exactly the stored keys in order.",
  ["histories", "schedules", "inputs"], "every history of inserts and deletes, concurrent ones included, at every tree order, as long as the index fits in the buffer pool",
  "Tests use a few fixed key orders and tree sizes.",
  ["src/storage/index/b_plus_tree_index.rs", "src/storage/page/page_types/b_plus_tree_leaf_page.rs", "src/storage/page/page_types/b_plus_tree_internal_page.rs"],
  [("structure modification", "src/storage/index/b_plus_tree_index.rs")], claim="The nodes are read out whenever the clients of a stage have finished and judged against the shape rules, over seeded histories and schedules.")
prop("I03", "The hash index keeps every entry whatever splits it needs",
  "The disk-based extendible hash table keeps every entry inserted and not removed: a lookup returns, and a removal takes away, the oldest entry of the key, and only a key without entries is reported missing. An insertion is refused only when its bucket is full and the directory cannot grow any further.",
  ["histories", "schedules", "inputs"], "every history of inserts, removes and lookups over any key distribution and configuration, as long as the table fits in the buffer pool",
  "Tests insert ascending keys into a large pool.",
  ["src/container/disk_extendable_hash_table.rs", "src/storage/page/page_types/extendable_hash_table_directory_page.rs", "src/storage/page/page_types/extendable_hash_table_bucket_page.rs", "src/storage/page/page_types/extendable_hash_table_header_page.rs"],
  [("bucket split and merge", "src/container/disk_extendable_hash_table.rs")], claim="Seeded histories and schedules over bucket sizes, directory and header depths; per-key linearizability against a queue per key, and refusals checked against the keys' hashes.")
prop("H01", "Every stored row has one address, stays readable, and is scanned once",
  "Each row inserted into a table gets an address no other row has; reading that address returns the row's latest content until it is deleted, and a scan visits every live row exactly once, however many pages and concurrent inserters there are.",
  ["schedules", "histories"], "every interleaving of inserts, updates, deletes, reads and scans, with pages evicted in between",
  "Concurrent inserts racing to extend a full table need a particular interleaving.",
  ["src/storage/table/table_heap.rs", "src/storage/table/table_iterator.rs", "src/storage/page/page_types/table_page.rs"],
  [("insert and page extension", "src/storage/table/table_heap.rs"), ("scan", "src/storage/table/table_iterator.rs")], claim="Seeded schedules of inserting, updating, deleting, reading and scanning clients over a small pool with evictions and restarts; per-address linearizability including what each scan did and did not return.")
prop("H02", "Rows on one page never overlap or change each other",
  "Inserting, updating in place (with a larger or smaller row) or deleting one row of a page never changes the bytes of another row, and a page written to disk and read back holds exactly the same rows.",
  ["histories", "inputs"], "every history of inserts, updates and deletes with rows of any size",
  "Tests use rows of one size and no growing updates followed by inserts.",
  ["src/storage/page/page_types/table_page.rs", "src/storage/table/record.rs"],
  [("slotted page layout", "src/storage/page/page_types/table_page.rs")], claim="Seeded histories of operations of every row size by concurrent clients over a pool that evicts the pages between them, and restarts; linearizability against a model of the page.")
prop("C01", "Each cache behaves exactly as its replacement policy says",
  "For any history of insertions, lookups, removals and policy-specific queries the FIFO, LRU, LFU, heap-LFU and LRU-K caches return what a reference model of that policy returns: the newest value of every resident key, never more entries than the capacity, and the victim the policy names. Their thread-safe variants give results some sequential order explains. The tiered page cache built from them never answers with a copy that a store or an invalidation has replaced, and no tier exceeds its capacity.",
  ["histories", "schedules", "inputs"], "every history over every capacity, and every interleaving of concurrent users of the shared variants",
  "Tests replay short fixed histories.",
  [DM+"cache/fifo.rs", DM+"cache/lru.rs", DM+"cache/lfu.rs", DM+"cache/heap_lfu.rs", DM+"cache/lru_k.rs", DM+"cache/cache_manager.rs"],
  [("promotion between tiers", DM+"cache/cache_manager.rs"), ("eviction order bookkeeping", DM+"cache/")], claim="Seeded operation histories under stepping, standing and coarse wall clocks are compared with reference models; concurrent users of the shared variants run under seeded schedules and their histories are checked for linearizability.")
prop("C02", "The frame replacer evicts the right unpinned frame",
  "The buffer pool's replacer only ever evicts a frame marked evictable, picks the one with the largest backward k-distance, and its size always equals the number of evictable frames, for every history and every interleaving.",
  ["histories", "schedules"], "every history of accesses, pin changes, evictions and removals, and every clock behaviour",
  "Ordering relies on the wall clock, which may stand still or jump; tests cannot make it.",
  ["src/buffer/lru_k_replacer.rs"], [("backward k-distance", "src/buffer/lru_k_replacer.rs")], claim="Seeded histories under stepping and standing clocks are compared with a reference LRU-K; concurrent users run under seeded schedules and their histories are checked for linearizability.")
prop("G01", "The catalog never confuses or forgets tables, indexes or databases",
  "Every table has an identifier no other table of any database has, every index one of its own in its database; each is found under its name and its identifier, with the columns it was created with and exactly the rows written to it, and a new index holds exactly the rows its table had. Creating a name that exists, or a reference to nothing, is refused without effect; a rebuild from the system tables changes nothing that is open, and after a restart the tables known to the last rebuild are there with their columns and rows.",
  ["histories", "schedules", "crash_points"], "every history of creations, lookups, row changes, rebuilds and restarts, by concurrent clients in several databases",
  "Tests create one or two tables in one database and check them in memory.",
  ["src/catalog/catalog_impl.rs", "src/catalog/database.rs", "src/catalog/system_catalog.rs", "src/storage/table/table_heap.rs"],
  [("name and identifier maps", "src/catalog/database.rs"), ("system catalog tables and the rebuild", "src/catalog/catalog_impl.rs")], claim="Seeded histories of concurrent clients over one to three databases, with transactions writing and aborting rows, index creation, rebuilds and up to two restarts; every answer is compared with an exact model of the catalog.")
prop("O01", "Each I/O operation completes exactly once with its own result",
  "Every operation submitted to the I/O engine reports exactly one outcome to its submitter, with the data or error of that operation and no other; it fails only for a fault, a cancellation or a timeout, and reports so, and all waiters for an operation learn the same outcome. Appended records get places of their own in order, and what was written before a sync that succeeded survives a crash.",
  ["schedules", "fault_sequences", "crash_points"], "every interleaving of submitters, workers, waiters and completions, with cancellation, I/O errors, latency and crashes",
  "Delivery races (completion before the waiter subscribes, cancellation against completion, timeout against success) need particular interleavings.",
  [DM+"io/io_impl.rs", DM+"io/completion.rs", DM+"io/queue.rs", DM+"io/worker.rs"],
  [("completion tracker", DM+"io/completion.rs"), ("priority queue", DM+"io/queue.rs")], claim="Seeded schedules of up to five submitters over the engine with its worker pool, queue and completion tracker, with cancelled and abandoned operations, I/O errors, latency and crashes; results judged against a register per page, a record log and the one outcome each operation may have.")
EX = "src/sql/execution/executors/"
prop("E01", "A query answers exactly from its transaction's snapshot",
  "Under repeatable read, serializable and snapshot isolation a query — scan, filter, projection, sort, limit, offset, top rows (of all or per group), distinct, aggregation with grouping and HAVING, row numbers over a window, inner, left, right, full and cross joins by nested loop, hash or index, and combinations of them — returns exactly the rows that SQL prescribes, unknown conditions and NULLs included, for the rows its transaction can see: those committed before its snapshot, with the transaction's own earlier changes, each once, and in order where an order is asked for. What other transactions do at the same time never changes the answer. A condition that has no value for a row (a division by zero, arithmetic on NULL) fails the statement instead of leaving the row out. Under read committed each row appears in a version that was committed while the query ran.",
  ["schedules", "histories", "inputs"], "every query over every history of inserts, updates, deletes, commits and aborts by concurrent transactions, in every interleaving",
  "Executor tests run one statement at a time on a freshly filled table that no other transaction changes.",
  [EX+"seq_scan_executor.rs", EX+"filter_executor.rs", EX+"projection_executor.rs", EX+"sort_executor.rs", EX+"topn_executor.rs", EX+"aggregation_executor.rs", EX+"hash_join_executor.rs", EX+"nested_loop_join_executor.rs", EX+"distinct_executor.rs", EX+"limit_executor.rs", EX+"offset_executor.rs", EX+"topn_per_group_executor.rs", EX+"window_executor.rs", EX+"nested_index_join_executor.rs", "src/storage/table/table_iterator.rs", "src/storage/table/transactional_table_heap.rs"],
  [("scan under a snapshot", EX+"seq_scan_executor.rs"), ("joins", EX+"hash_join_executor.rs"), ("grouping", EX+"aggregation_executor.rs"), ("version selection", "src/storage/table/transactional_table_heap.rs")],
  observe=["rows returned by each query"],
  claim="Seeded schedules of clients running transactions of statements through the real executors; every answer is compared with an exact replay of the recorded history in a multiversion reference model.")
prop("E02", "A changing statement changes exactly the rows it selects",
  "INSERT (of values, of a list, or of a query), UPDATE and DELETE change exactly the rows of the transaction's view that their condition selects, each once, to the values their expressions yield for the old row, and report how many. They are refused only for a conflict with another transaction; concurrent changes are never lost, and after the transaction commits, and not before, others see all of its changes, or none after it aborts.",
  ["schedules", "histories", "inputs"], "every history of changing statements by concurrent transactions, in every interleaving",
  "Tests change a few rows from one client and count them; an update that meets its own new rows again, or a row another transaction is changing, needs a particular history.",
  [EX+"insert_executor.rs", EX+"update_executor.rs", EX+"delete_executor.rs", EX+"values_executor.rs", EX+"filter_executor.rs", "src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction_manager.rs"],
  [("insertion of several rows", EX+"insert_executor.rs"), ("update expressions", EX+"update_executor.rs"), ("conflict check and version chain", "src/storage/table/transactional_table_heap.rs")],
  observe=["affected-row counts", "rows returned afterwards"],
  claim="Seeded schedules of transactions of changing statements; the final contents, every count and every refusal are compared with an exact replay of the recorded history.")
prop("E03", "A statement that cannot read a page fails as a whole",
  "When a page cannot be read — a disk error, or every buffer frame in use — the statement that needs it reports an error: a query never returns an answer with rows missing, a changing statement never reports success for part of its rows, and once its transaction is aborted nothing of it remains.",
  ["fault_sequences", "schedules"], "every sequence of read errors and every scarcity of frames, in every interleaving",
  "No test fails a page read below an executor or runs statements with too few frames.",
  [EX+"seq_scan_executor.rs", EX+"sort_executor.rs", EX+"aggregation_executor.rs", EX+"topn_executor.rs", EX+"filter_executor.rs", "src/storage/table/table_iterator.rs", "src/storage/table/table_heap.rs"],
  [("scan over unreadable pages", "src/storage/table/table_iterator.rs"), ("error propagation through executors", EX+"sort_executor.rs")],
  observe=["results of statements under faults"],
  claim="Seeded read errors and pools of few frames under concurrent statements; an answer given while pages could not be read must be the complete one, and what the failed statements leave behind is judged after the faults stop.")
prop("E04", "Planning and optimising never change what a statement means",
  "Whatever logical plan the front end builds for a statement — any nesting of scans, filters, projections, joins, aggregations, HAVING, sorts, limits and changes — and with any combination of optimizer options, the optimized and converted plan answers with exactly the rows, in the order asked for, and makes exactly the changes that the statement means, for every content of the tables and every concurrent history. The one thing refused is a join whose condition is not a conjunction of column equalities.",
  ["inputs", "histories", "schedules"], "every logical plan, every set of optimizer options, every table content and concurrent history",
  "The optimizer has no tests of its own, and planner tests compare the shape of a plan, not the rows it yields; a rewrite that loses a predicate, a column or an order shows only on plans and data that distinguish the two.",
  ["src/sql/optimizer/optimizer_impl.rs", "src/sql/planner/logical_plan.rs"],
  [("rewrite rules", "src/sql/optimizer/optimizer_impl.rs"), ("conversion to physical plans", "src/sql/planner/logical_plan.rs")],
  observe=["rows returned by each optimized statement", "contents after changing statements"],
  claim="Seeded logical plans with seeded optimizer options go through the real optimizer, converter and executors in seeded schedules of transactions; every answer and the final contents are compared with an exact replay in a multiversion reference model.")
