From fd14984e301003067bb4cf77655fd609820bc002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 01/45] fix: run the tasks handed to the work-stealing
 scheduler

Nothing ever received from the scheduler queues, so with work stealing enabled (the default) every read
that missed the cache waited forever.
---
 src/storage/disk/async_disk/manager.rs | 90 +++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..fa40316 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -391,6 +391,21 @@ impl AsyncDiskManager {
         );
         let scheduler = Arc::new(WorkStealingScheduler::new(config.io_threads));
 
+        // Start the workers that execute the tasks handed to the scheduler
+        let background_tasks = if config.work_stealing_enabled {
+            (0..config.io_threads)
+                .map(|worker_id| {
+                    tokio::spawn(Self::run_scheduler_worker(
+                        worker_id,
+                        Arc::clone(&scheduler),
+                        Arc::clone(&io_engine),
+                    ))
+                })
+                .collect()
+        } else {
+            Vec::new()
+        };
+
         // Create AsyncDiskManager
         let manager = Self {
             io_engine,
@@ -400,18 +415,80 @@ impl AsyncDiskManager {
             scheduler,
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
-            background_tasks: Mutex::new(Vec::new()),
+            background_tasks: Mutex::new(background_tasks),
         };
 
         info!(
             "AsyncDiskManager successfully initialized with {} worker threads",
             manager.config.io_threads
         );
-        // Start background tasks
 
         Ok(manager)
     }
 
+    /// Executes the tasks submitted to one scheduler queue until aborted.
+    async fn run_scheduler_worker(
+        worker_id: usize,
+        scheduler: Arc<WorkStealingScheduler>,
+        io_engine: Arc<RwLock<AsyncIOEngine>>,
+    ) {
+        loop {
+            // Release the queue before executing so that other workers can steal from it.
+            let task = scheduler
+                .get_worker_receiver(worker_id)
+                .lock()
+                .await
+                .recv()
+                .await;
+            let Some(task) = task else { break };
+            Self::execute_task(task, &io_engine).await;
+            while let Some(stolen) = scheduler.try_steal_work(worker_id) {
+                Self::execute_task(stolen, &io_engine).await;
+            }
+        }
+    }
+
+    /// Executes a scheduled task and reports its outcome to whoever submitted it.
+    async fn execute_task(task: IOTask, io_engine: &RwLock<AsyncIOEngine>) {
+        let io_engine = io_engine.read().await;
+        let mut data = Vec::new();
+        let result = match task.task_type {
+            IOTaskType::Read(page_id) => io_engine.read_page(page_id).await,
+            IOTaskType::Write(page_id, page) => {
+                io_engine.write_page(page_id, &page).await.map(|_| data)
+            },
+            IOTaskType::BatchRead(page_ids) => {
+                let mut result = Ok(());
+                for page_id in page_ids {
+                    match io_engine.read_page(page_id).await {
+                        Ok(page) => data.extend_from_slice(&page),
+                        Err(e) => {
+                            result = Err(e);
+                            break;
+                        },
+                    }
+                }
+                result.map(|_| data)
+            },
+            IOTaskType::BatchWrite(pages) => {
+                let mut result = Ok(());
+                for (page_id, page) in &pages {
+                    result = io_engine.write_page(*page_id, page).await;
+                    if result.is_err() {
+                        break;
+                    }
+                }
+                result.map(|_| data)
+            },
+            IOTaskType::Prefetch(_) => Ok(data),
+            IOTaskType::Flush | IOTaskType::Sync => io_engine.sync().await.map(|_| data),
+        };
+        drop(io_engine);
+        if let Some(callback) = task.completion_callback {
+            let _ = callback.send(result);
+        }
+    }
+
     /// Reads a page from disk or cache
     pub async fn read_page(&self, page_id: PageId) -> IoResult<Vec<u8>> {
         self.read_page_with_priority(page_id, IOPriority::Normal)
@@ -1452,6 +1529,15 @@ impl AsyncDiskManager {
     }
 }
 
+impl Drop for AsyncDiskManager {
+    fn drop(&mut self) {
+        // The scheduler workers hold the I/O engine: without this they would outlive the manager.
+        for task in self.background_tasks.get_mut().drain(..) {
+            task.abort();
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::TempDir;
-- 
2.43.0


From 28bad4e9e275ba98ae16a8204f034d87d960853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 02/45] fix: drop stale copies of a page when it is stored in
 the disk cache

A store touched only the tier of the page's current temperature, and nothing at all when the tier was
busy or the contents were a duplicate, so older contents kept being served from the other tiers.
---
 .../disk/async_disk/cache/cache_manager.rs    | 25 +++++++++++++++++--
 src/storage/disk/async_disk/cache/fifo.rs     |  9 +++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..7a1d8b3 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -235,14 +235,14 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 use std::time::Instant;
 
-use tokio::sync::RwLock;
+use tokio::sync::{RwLock, RwLockWriteGuard};
 
 use super::fifo::FIFOCache;
 use super::lfu::LFUCache;
 use super::lru_k::LRUKCache;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
 use crate::storage::disk::async_disk::cache::cache_traits::{
-    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait,
+    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait, MutableCache,
 };
 use crate::storage::disk::async_disk::config::DiskManagerConfig;
 use crate::storage::disk::async_disk::metrics::collector::MetricsCollector;
@@ -1184,6 +1184,24 @@ impl CacheManager {
         }
     }
 
+    /// Drops every cached copy of a page, in whichever tiers hold one.
+    pub fn invalidate_page(&self, page_id: PageId) {
+        MutableCache::remove(&mut *Self::lock_tier(&self.hot_cache), &page_id);
+        MutableCache::remove(&mut *Self::lock_tier(&self.warm_cache), &page_id);
+        Self::lock_tier(&self.cold_cache).remove(&page_id);
+    }
+
+    /// Acquires a cache tier from synchronous code; tiers are only ever held for short,
+    /// non-suspending sections.
+    fn lock_tier<T>(tier: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
+        loop {
+            match tier.try_write() {
+                Ok(guard) => return guard,
+                Err(_) => std::thread::yield_now(),
+            }
+        }
+    }
+
     /// Stores a page in the appropriate cache tier.
     ///
     /// The page is placed in a tier based on its temperature classification:
@@ -1223,6 +1241,9 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        // Whatever is decided below, no tier may keep serving the previous contents
+        self.invalidate_page(page_id);
+
         // Check admission controller first
         if !self.should_admit_page(page_id, &data) {
             return;
diff --git a/src/storage/disk/async_disk/cache/fifo.rs b/src/storage/disk/async_disk/cache/fifo.rs
index 26d229f..68707e9 100644
--- a/src/storage/disk/async_disk/cache/fifo.rs
+++ b/src/storage/disk/async_disk/cache/fifo.rs
@@ -328,6 +328,15 @@ where
         self.insertion_order.iter()
     }
 
+    /// Removes a key from the cache, along with its place in the insertion order.
+    pub fn remove(&mut self, key: &K) -> Option<Arc<V>> {
+        let removed = self.cache.remove(key);
+        if removed.is_some() {
+            self.insertion_order.retain(|k| k.as_ref() != key);
+        }
+        removed
+    }
+
     /// Manually removes a key from the cache HashMap only (for testing stale entries).
     /// This is only for testing purposes to simulate stale entry conditions.
     /// Accepts a raw key and finds the corresponding Arc<K> to remove.
-- 
2.43.0


From e603a0b7a0475304cf9b8284d5f9ffd60a06626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 03/45] fix: keep staged page writes readable, ordered and
 durable

Reads missed pages that were staged or being flushed, a full staging buffer dropped the new write, a
failed flush lost its pages, concurrent flushes could write versions out of order or report success
before the pages were written, and the cache could be filled with an older version than the staged one.
---
 src/storage/disk/async_disk/manager.rs        | 157 +++++++++++-------
 .../disk/async_disk/memory/write_manager.rs   |  40 +++++
 .../async_disk/memory/write_staging_buffer.rs |  31 ++++
 3 files changed, 170 insertions(+), 58 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index fa40316..f174c5c 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -244,7 +244,7 @@ use std::time::{Duration, Instant};
 
 use log::{debug, error, info, trace, warn};
 use tokio::fs::File;
-use tokio::sync::{Mutex, RwLock, oneshot};
+use tokio::sync::{Mutex, MutexGuard, RwLock, oneshot};
 use tokio::task::JoinHandle;
 
 use super::config::DiskManagerConfig;
@@ -266,6 +266,9 @@ use crate::storage::disk::async_disk::metrics::prediction::TrendData;
 use crate::storage::disk::async_disk::metrics::snapshot::MetricsSnapshot;
 use crate::storage::disk::async_disk::scheduler::{IOTask, IOTaskType, WorkStealingScheduler};
 
+/// Number of locks the pages are spread over (see `page_locks`).
+const PAGE_LOCK_SHARDS: usize = 256;
+
 /// Asynchronous Disk Manager that provides high-performance I/O operations
 /// with advanced features like caching, compression, and metrics collection.
 #[derive(Debug)]
@@ -275,6 +278,13 @@ pub struct AsyncDiskManager {
     write_manager: Arc<WriteManager>,
     cache_manager: Arc<CacheManager>,
 
+    // Keeps the cache and the staging buffer in step: held while a page is staged and cached, or
+    // looked up and filled into the cache
+    page_locks: Vec<Mutex<()>>,
+
+    // Held from taking pages out of the staging buffer until they are on disk
+    flush_lock: Mutex<()>,
+
     // Configuration
     config: DiskManagerConfig,
 
@@ -411,6 +421,8 @@ impl AsyncDiskManager {
             io_engine,
             write_manager,
             cache_manager,
+            page_locks: (0..PAGE_LOCK_SHARDS).map(|_| Mutex::new(())).collect(),
+            flush_lock: Mutex::new(()),
             config,
             scheduler,
             metrics_collector,
@@ -504,6 +516,8 @@ impl AsyncDiskManager {
         trace!("Reading page: {} with priority: {:?}", page_id, priority);
         let start_time = Instant::now();
 
+        let _page_guard = self.lock_page(page_id).await;
+
         // Try to get page from cache if enabled
         if self.config.cache_size_mb > 0
             && let Some(data) = self
@@ -523,6 +537,17 @@ impl AsyncDiskManager {
             return Ok(data);
         }
 
+        // A page that is staged or being flushed is newer than its copy on disk
+        if let Some(data) = self.write_manager.staged_page(page_id).await {
+            let elapsed_ns = start_time.elapsed().as_nanos() as u64;
+            self.metrics_collector
+                .record_read(elapsed_ns, data.len() as u64, false);
+            if self.config.cache_size_mb > 0 {
+                self.cache_manager.store_page(page_id, data.clone());
+            }
+            return Ok(data);
+        }
+
         // Page not in cache, schedule read operation
         debug!(
             "Cache miss for page {}, scheduling disk read with priority {:?}",
@@ -664,24 +689,8 @@ impl AsyncDiskManager {
 
         // Buffer the write using write manager
         debug!("Buffering write for page {}", page_id);
-        let flushed_pages = self
-            .write_manager
-            .buffer_write(page_id, data.clone(), self)
-            .await?;
-
-        // Update cache if caching is enabled
-        if self.config.cache_size_mb > 0 {
-            trace!("Updating cache for page {}", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
-        }
-
-        // Write any flushed pages to disk
-        if let Some(pages) = flushed_pages {
-            debug!(
-                "Writing {} flushed pages to disk from buffer_write",
-                pages.len()
-            );
-            self.write_pages_to_disk(pages).await?;
+        if self.stage_page(page_id, &data).await? {
+            self.flush_staged_pages(None).await?;
         }
 
         // Update metrics
@@ -694,7 +703,7 @@ impl AsyncDiskManager {
         self.metrics_collector
             .record_write(elapsed_ns, data.len() as u64);
 
-        // Check if we need to flush based on configuration (this should no longer trigger since we handled flushed pages above)
+        // Check if we need to flush based on configuration (this should no longer trigger since we flushed above)
         if self.should_trigger_flush().await {
             debug!("Write buffer threshold reached, triggering flush");
             self.flush_writes_with_durability().await?;
@@ -703,6 +712,48 @@ impl AsyncDiskManager {
         Ok(())
     }
 
+    /// Locks the shard of pages a page belongs to.
+    async fn lock_page(&self, page_id: PageId) -> MutexGuard<'_, ()> {
+        self.page_locks[page_id as usize % PAGE_LOCK_SHARDS]
+            .lock()
+            .await
+    }
+
+    /// Stages and caches a page write; returns whether the staged pages are due for a flush.
+    async fn stage_page(&self, page_id: PageId, data: &[u8]) -> IoResult<bool> {
+        let _page_guard = self.lock_page(page_id).await;
+        let needs_flush = match self.write_manager.stage_write(page_id, data).await? {
+            Some(needs_flush) => needs_flush,
+            None => {
+                debug!("Write buffer full, writing page {} out with it", page_id);
+                self.flush_staged_pages(Some((page_id, data.to_vec())))
+                    .await?;
+                false
+            },
+        };
+        if self.config.cache_size_mb > 0 {
+            trace!("Updating cache for page {}", page_id);
+            self.cache_manager.store_page(page_id, data.to_vec());
+        }
+        Ok(needs_flush)
+    }
+
+    /// Writes the staged pages to disk and returns how many there were.
+    async fn flush_staged_pages(&self, unstaged: Option<(PageId, Vec<u8>)>) -> IoResult<usize> {
+        let _flush_guard = self.flush_lock.lock().await;
+        let pages = self.write_manager.begin_flush(unstaged).await;
+        let count = pages.len();
+        let result = if pages.is_empty() {
+            Ok(())
+        } else if self.config.work_stealing_enabled && count > self.config.batch_size {
+            self.schedule_batch_write_operation(pages).await
+        } else {
+            self.write_pages_to_disk(pages).await
+        };
+        self.write_manager.finish_flush(result.is_ok()).await;
+        result.map(|_| count)
+    }
+
     /// Determines if a flush should be triggered based on configuration
     async fn should_trigger_flush(&self) -> bool {
         // Check write buffer threshold
@@ -729,15 +780,11 @@ impl AsyncDiskManager {
         let start_time = std::time::Instant::now();
 
         // Get buffered pages to flush
-        let pages = self.write_manager.force_flush(self).await?;
-
-        if !pages.is_empty() {
-            debug!("Flushing {} pages to disk", pages.len());
-            self.write_pages_to_disk(pages.clone()).await?;
-        }
+        let flushed = self.flush_staged_pages(None).await?;
+        debug!("Flushed {} pages to disk", flushed);
 
         // Apply durability based on configuration
-        // Note: write_manager.force_flush(self) already applies durability if configured,
+        // Note: flush_staged_pages already applies durability if configured,
         // but we might want to double check here if the pages were empty (no flush triggered internally)
         // or if there are other pending writes.
         match self.config.fsync_policy {
@@ -755,7 +802,7 @@ impl AsyncDiskManager {
 
         // Record flush metrics
         let elapsed_ns = start_time.elapsed().as_nanos() as u64;
-        self.metrics_collector.record_flush(elapsed_ns, pages.len());
+        self.metrics_collector.record_flush(elapsed_ns, flushed);
 
         Ok(())
     }
@@ -787,6 +834,7 @@ impl AsyncDiskManager {
         match receiver.await {
             Ok(Ok(_)) => {
                 debug!("Scheduled batch write completed for {} pages", pages.len());
+                self.write_manager.apply_durability(&pages, self).await?;
                 Ok(())
             },
             Ok(Err(e)) => {
@@ -817,6 +865,7 @@ impl AsyncDiskManager {
             io_engine.write_page(*page_id, data).await?;
             total_bytes += data.len() as u64;
         }
+        drop(io_engine);
 
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
@@ -848,7 +897,25 @@ impl AsyncDiskManager {
 
         for chunk in page_ids.chunks(batch_size) {
             let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
-                self.schedule_batch_read_operation(chunk.to_vec()).await?
+                // Pages that are staged or being flushed are newer than their copies on disk
+                let mut chunk_results = Vec::with_capacity(chunk.len());
+                let mut on_disk = Vec::new();
+                for page_id in chunk {
+                    let staged = self.write_manager.staged_page(*page_id).await;
+                    if staged.is_none() {
+                        on_disk.push(*page_id);
+                    }
+                    chunk_results.push(staged);
+                }
+                let mut read = Vec::new();
+                if !on_disk.is_empty() {
+                    read = self.schedule_batch_read_operation(on_disk).await?;
+                }
+                let mut read = read.into_iter();
+                chunk_results
+                    .into_iter()
+                    .filter_map(|staged| staged.or_else(|| read.next()))
+                    .collect()
             } else {
                 self.direct_batch_read_operation(chunk.to_vec()).await?
             };
@@ -973,23 +1040,8 @@ impl AsyncDiskManager {
             for (page_id, data) in chunk {
                 Self::validate_page_data_len(data.len())?;
                 trace!("Buffering page {} in batch write", page_id);
-                let flushed_pages = self
-                    .write_manager
-                    .buffer_write(*page_id, data.clone(), self)
-                    .await?;
-
-                // Write any flushed pages to disk immediately
-                if let Some(pages) = flushed_pages {
-                    debug!(
-                        "Writing {} flushed pages to disk from batch write",
-                        pages.len()
-                    );
-                    self.write_pages_to_disk(pages).await?;
-                }
-
-                // Update cache if caching is enabled
-                if self.config.cache_size_mb > 0 {
-                    self.cache_manager.store_page(*page_id, data.clone());
+                if self.stage_page(*page_id, data).await? {
+                    self.flush_staged_pages(None).await?;
                 }
 
                 total_bytes += data.len() as u64;
@@ -1122,18 +1174,7 @@ impl AsyncDiskManager {
     /// Forces flush of all pending writes
     pub async fn force_flush_all(&self) -> IoResult<()> {
         warn!("Force flush all requested");
-        let pages = self.write_manager.force_flush(self).await?;
-
-        if !pages.is_empty() {
-            debug!("Force flushing {} pages to disk", pages.len());
-
-            // Use scheduler for large batches if work-stealing is enabled
-            if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
-            } else {
-                self.write_pages_to_disk(pages).await?;
-            }
-        }
+        self.flush_staged_pages(None).await?;
 
         // Force sync regardless of policy
         debug!("Force syncing to disk");
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..6cd9af0 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -376,6 +376,46 @@ impl WriteManager {
         Ok(flushed_pages)
     }
 
+    /// Stages a page write without flushing.
+    ///
+    /// Returns `Some(needs_flush)` if the write was staged, or `None` if the buffer has no room
+    /// for it.
+    pub async fn stage_write(&self, page_id: PageId, data: &[u8]) -> IoResult<Option<bool>> {
+        let data = self.try_coalesce_write(page_id, data.to_vec()).await?;
+        let mut buffer = self.buffer_manager.lock().await;
+        if !buffer.buffer_write(page_id, data)? {
+            return Ok(None);
+        }
+        let stats = buffer.get_stats();
+        let decision = self
+            .flush_coordinator
+            .should_flush(stats.dirty_pages, stats.time_since_last_flush)
+            .await;
+        Ok(Some(decision != FlushDecision::NoFlush))
+    }
+
+    /// Returns the newest contents of a page that is staged or being flushed.
+    pub async fn staged_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.get(page_id)
+    }
+
+    /// Takes the pages that have to be written to disk. The caller writes them, one flush at a
+    /// time, and reports the outcome with [`Self::finish_flush`].
+    pub async fn begin_flush(
+        &self,
+        unstaged: Option<(PageId, Vec<u8>)>,
+    ) -> Vec<(PageId, Vec<u8>)> {
+        self.buffer_manager.lock().await.begin_flush(unstaged)
+    }
+
+    /// Reports the outcome of a flush: pages that were not written are kept for the next one.
+    pub async fn finish_flush(&self, written: bool) {
+        if written {
+            self.buffer_manager.lock().await.complete_flush();
+        }
+        self.flush_coordinator.complete_flush().await;
+    }
+
     /// Attempts to coalesce a write using the coalescing engine
     async fn try_coalesce_write(&self, page_id: PageId, data: Vec<u8>) -> IoResult<Vec<u8>> {
         let mut coalescing = self.coalescing_engine.write().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..8203dd5 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -268,6 +268,8 @@ pub struct CompressedWriteBuffer {
 #[derive(Debug)]
 pub struct WriteStagingBuffer {
     buffer: CompressedWriteBuffer,
+    /// Pages taken by a flush that has not yet been reported as written
+    in_flight: HashMap<PageId, Vec<u8>>,
 }
 
 impl WriteStagingBuffer {
@@ -283,6 +285,7 @@ impl WriteStagingBuffer {
                 max_buffer_size,
                 compression_ratio: AtomicU64::new(10000), // 100% (no compression initially)
             },
+            in_flight: HashMap::new(),
         }
     }
 
@@ -337,6 +340,34 @@ impl WriteStagingBuffer {
         pages
     }
 
+    /// Takes the staged pages for writing, together with any pages an earlier flush failed to
+    /// write. They stay readable through [`Self::get`] until [`Self::complete_flush`].
+    ///
+    /// `unstaged` is a newer page write that found no room in the buffer.
+    pub fn begin_flush(&mut self, unstaged: Option<(PageId, Vec<u8>)>) -> Vec<(PageId, Vec<u8>)> {
+        let staged = self.drain_buffer();
+        self.in_flight.extend(staged);
+        self.in_flight.extend(unstaged);
+        self.in_flight
+            .iter()
+            .map(|(page_id, data)| (*page_id, data.clone()))
+            .collect()
+    }
+
+    /// Forgets the pages taken by [`Self::begin_flush`] once they are on disk.
+    pub fn complete_flush(&mut self) {
+        self.in_flight.clear();
+    }
+
+    /// Returns the newest contents of a page that have not reached the disk yet.
+    pub fn get(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer
+            .buffer
+            .get(&page_id)
+            .or_else(|| self.in_flight.get(&page_id))
+            .map(|data| self.decompress_data(data))
+    }
+
     /// Checks if the buffer is empty
     pub fn is_empty(&self) -> bool {
         self.buffer.buffer.is_empty()
-- 
2.43.0


From 2ad47e78654ee59e46b159b6cc95809438c4031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:28 +0000
Subject: [PATCH 04/45] fix: do not serve a page older than, or torn by, a
 failed flush

---
 src/storage/disk/async_disk/manager.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index f174c5c..159a9e0 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -719,6 +719,21 @@ impl AsyncDiskManager {
             .await
     }
 
+    /// Locks the shards of several pages, in shard order.
+    async fn lock_pages(&self, page_ids: &[PageId]) -> Vec<MutexGuard<'_, ()>> {
+        let mut shards: Vec<usize> = page_ids
+            .iter()
+            .map(|page_id| *page_id as usize % PAGE_LOCK_SHARDS)
+            .collect();
+        shards.sort_unstable();
+        shards.dedup();
+        let mut guards = Vec::with_capacity(shards.len());
+        for shard in shards {
+            guards.push(self.page_locks[shard].lock().await);
+        }
+        guards
+    }
+
     /// Stages and caches a page write; returns whether the staged pages are due for a flush.
     async fn stage_page(&self, page_id: PageId, data: &[u8]) -> IoResult<bool> {
         let _page_guard = self.lock_page(page_id).await;
@@ -726,8 +741,14 @@ impl AsyncDiskManager {
             Some(needs_flush) => needs_flush,
             None => {
                 debug!("Write buffer full, writing page {} out with it", page_id);
-                self.flush_staged_pages(Some((page_id, data.to_vec())))
-                    .await?;
+                let flushed = self
+                    .flush_staged_pages(Some((page_id, data.to_vec())))
+                    .await;
+                if flushed.is_err() {
+                    // The write stays pending; nothing older may be served meanwhile
+                    self.cache_manager.invalidate_page(page_id);
+                }
+                flushed?;
                 false
             },
         };
@@ -898,6 +919,7 @@ impl AsyncDiskManager {
         for chunk in page_ids.chunks(batch_size) {
             let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
                 // Pages that are staged or being flushed are newer than their copies on disk
+                let _page_guards = self.lock_pages(chunk).await;
                 let mut chunk_results = Vec::with_capacity(chunk.len());
                 let mut on_disk = Vec::new();
                 for page_id in chunk {
-- 
2.43.0


From 38ca40d4c7a66a64e4c718d7d1b5ffe484850d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 05/45] fix: never acknowledge a commit whose log record was
 not persisted

A failed log write or sync left a hole in the log; records queued behind it were still
flushed by the shutdown path and reported persistent, and a commit waiting for the failed
flush returned its position as if it were durable. Appending on a runtime worker could also
keep that worker from running the flush task forever.
---
 .../transaction_manager_factory.rs            |  9 ++++++
 src/recovery/log_manager.rs                   | 19 ++++++++++--
 src/recovery/wal_manager.rs                   | 31 +++++++++++++------
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 788ada6..bb76789 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -143,6 +143,7 @@ use std::sync::Arc;
 use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
+use crate::common::config::INVALID_LSN;
 use crate::concurrency::lock_manager::LockManager;
 use crate::concurrency::transaction::IsolationLevel;
 use crate::concurrency::transaction_manager::TransactionManager;
@@ -308,6 +309,14 @@ impl TransactionManagerFactory {
         // Write commit record before persisting data (WAL-first).
         if let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
+            if lsn == INVALID_LSN {
+                error!(
+                    "Commit record of transaction {} could not be made durable, aborting it",
+                    txn.get_transaction_id()
+                );
+                self.abort_transaction(ctx);
+                return false;
+            }
             txn.set_prev_lsn(lsn);
         }
 
diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..f10cc21 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -235,6 +235,9 @@ struct LogManagerState {
     ///
     /// Set to `true` during shutdown or on critical disk write failures.
     stop_flag: AtomicBool,
+    /// Set when a log write or sync failed: the log now has a hole, so nothing may be
+    /// appended after it and nothing more may be reported as persistent.
+    failed: AtomicBool,
     /// Async disk manager for writing log records to the WAL file.
     disk_manager: Arc<AsyncDiskManager>,
     /// Sender end of the bounded channel for queuing log records.
@@ -259,6 +262,7 @@ impl LogManager {
                 persistent_lsn: AtomicU64::new(INVALID_LSN),
                 flush_thread: Mutex::new(None),
                 stop_flag: AtomicBool::new(false),
+                failed: AtomicBool::new(false),
                 disk_manager,
                 sender,
             }),
@@ -374,6 +378,13 @@ impl LogManager {
         if records.is_empty() {
             return;
         }
+        if state.failed.load(Ordering::SeqCst) {
+            error!(
+                "Dropping {} log record(s): an earlier log write failed",
+                records.len()
+            );
+            return;
+        }
 
         let disk_manager = Arc::clone(&state.disk_manager);
 
@@ -405,6 +416,7 @@ impl LogManager {
                 );
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
+                state.failed.store(true, Ordering::SeqCst);
                 state.stop_flag.store(true, Ordering::SeqCst);
             },
         }
@@ -446,7 +458,8 @@ impl LogManager {
     /// - `log_record`: The log record to append.
     ///
     /// # Returns
-    /// The log sequence number (LSN) of the appended log record.
+    /// The log sequence number (LSN) of the appended log record, or `INVALID_LSN` if the
+    /// record could not be queued or, for a commit record, could not be made durable.
     pub fn append_log_record(&mut self, log_record: Arc<LogRecord>) -> Lsn {
         // Assign a new LSN atomically
         let lsn = self.state.next_lsn.fetch_add(1, Ordering::SeqCst);
@@ -468,7 +481,7 @@ impl LogManager {
                 },
                 Err(tokio::sync::mpsc::error::TrySendError::Closed(_)) => {
                     error!("Failed to queue log record: channel closed");
-                    break;
+                    return INVALID_LSN;
                 },
             }
         }
@@ -491,7 +504,7 @@ impl LogManager {
                         "Log flush thread stopped while waiting for commit LSN {} to persist",
                         lsn
                     );
-                    break;
+                    return INVALID_LSN;
                 }
                 thread::sleep(Duration::from_millis(1));
             }
diff --git a/src/recovery/wal_manager.rs b/src/recovery/wal_manager.rs
index 13417fb..bdfe1c8 100644
--- a/src/recovery/wal_manager.rs
+++ b/src/recovery/wal_manager.rs
@@ -134,6 +134,8 @@
 use std::sync::Arc;
 
 use parking_lot::RwLock;
+use tokio::runtime::{Handle, RuntimeFlavor};
+use tokio::task::block_in_place;
 
 use crate::common::config::INVALID_LSN;
 use crate::common::rid::RID;
@@ -171,6 +173,20 @@ impl WALManager {
         Self { log_manager }
     }
 
+    /// Appends a record, waiting for the log manager (and, for a commit, for durability).
+    ///
+    /// The flush task shares the runtime with the callers, so a caller on a runtime worker
+    /// must not keep that worker from running the flush task while it waits.
+    fn append(&self, record: Arc<LogRecord>) -> u64 {
+        let append = || self.log_manager.write().append_log_record(record);
+        match Handle::try_current() {
+            Ok(handle) if handle.runtime_flavor() == RuntimeFlavor::MultiThread => {
+                block_in_place(append)
+            },
+            _ => append(),
+        }
+    }
+
     /// Writes a COMMIT record to the WAL for the given transaction.
     ///
     /// This method **blocks** until the log record is durably written to disk,
@@ -180,7 +196,8 @@ impl WALManager {
     /// - `txn`: The transaction to commit.
     ///
     /// # Returns
-    /// The LSN assigned to the commit record.
+    /// The LSN assigned to the commit record, or `INVALID_LSN` if the record could not be
+    /// made durable; the transaction must then not be reported as committed.
     ///
     /// # Note
     /// The caller should have set `txn.prev_lsn` to the LSN of the last
@@ -191,8 +208,7 @@ impl WALManager {
             txn.get_prev_lsn(),
             LogRecordType::Commit,
         ));
-        let mut log_manager = self.log_manager.write();
-        log_manager.append_log_record(commit_record)
+        self.append(commit_record)
     }
 
     /// Writes an ABORT record to the WAL for the given transaction.
@@ -211,8 +227,7 @@ impl WALManager {
             txn.get_prev_lsn(),
             LogRecordType::Abort,
         ));
-        let mut log_manager = self.log_manager.write();
-        log_manager.append_log_record(abort_record)
+        self.append(abort_record)
     }
 
     /// Writes a BEGIN record to the WAL for the given transaction.
@@ -233,8 +248,7 @@ impl WALManager {
             INVALID_LSN,
             LogRecordType::Begin,
         ));
-        let mut log_manager = self.log_manager.write();
-        log_manager.append_log_record(begin_record)
+        self.append(begin_record)
     }
 
     /// Writes an UPDATE record to the WAL for a tuple modification.
@@ -265,8 +279,7 @@ impl WALManager {
             Arc::new(old_tuple),
             Arc::new(new_tuple),
         ));
-        let mut log_manager = self.log_manager.write();
-        log_manager.append_log_record(update_record)
+        self.append(update_record)
     }
 
     /// Forces the log manager's background flush thread to start.
-- 
2.43.0


From 3231bbed7a4ef8968a2339fe48152215e51e97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 06/45] fix: resume log positions and drop the torn tail after
 a crash

After a restart positions started again at 0, a commit at position 0 counted as persistent
before it was written, records appended behind a torn record were swallowed by it, and a
failed log read was taken for the end of the log or skipped.
---
 src/recovery/log_iterator.rs               | 39 ++++++++++++++++----
 src/recovery/log_manager.rs                | 11 ++++++
 src/recovery/log_recovery.rs               | 43 +++++++++++++++++++---
 src/storage/disk/async_disk/io/executor.rs | 10 +++++
 src/storage/disk/async_disk/io/io_impl.rs  |  5 +++
 src/storage/disk/async_disk/manager.rs     |  6 +++
 6 files changed, 101 insertions(+), 13 deletions(-)

diff --git a/src/recovery/log_iterator.rs b/src/recovery/log_iterator.rs
index 0741fb8..61cc705 100644
--- a/src/recovery/log_iterator.rs
+++ b/src/recovery/log_iterator.rs
@@ -223,6 +223,13 @@ pub struct LogIterator {
     /// Once `true`, all subsequent [`next()`](Self::next) calls return `None`
     /// until [`reset()`](Self::reset) or [`set_offset()`](Self::set_offset) is called.
     reached_eof: bool,
+
+    /// Set when a read failed for a reason other than the end of the file. Iteration stops
+    /// at the record that could not be read.
+    io_error: Option<std::io::Error>,
+
+    /// Set when iteration gave up on bytes that are not a record.
+    damaged: bool,
     /// Configurable read buffer size in bytes.
     ///
     /// Used for internal buffering during record reads. Default is 1024 bytes.
@@ -260,6 +267,8 @@ impl LogIterator {
             disk_manager,
             current_offset: 0,
             reached_eof: false,
+            io_error: None,
+            damaged: false,
             buffer_size: 1024, // Default buffer size
         }
     }
@@ -277,6 +286,8 @@ impl LogIterator {
             disk_manager,
             current_offset: start_offset,
             reached_eof: false,
+            io_error: None,
+            damaged: false,
             buffer_size: 1024,
         }
     }
@@ -287,7 +298,7 @@ impl LogIterator {
     /// - `Some(LogRecord)` if a valid record was read.
     /// - `None` if EOF was reached or an error occurred.
     pub async fn next(&mut self) -> Option<LogRecord> {
-        if self.reached_eof {
+        if self.reached_eof || self.io_error.is_some() {
             return None;
         }
 
@@ -353,9 +364,8 @@ impl LogIterator {
                                 return None;
                             }
 
-                            self.current_offset += 1;
-                            attempts += 1;
-                            continue;
+                            self.io_error = Some(e);
+                            return None;
                         },
                     };
 
@@ -413,10 +423,8 @@ impl LogIterator {
                         self.current_offset, e
                     );
 
-                    // Resync on error.
-                    self.current_offset += 1;
-                    attempts += 1;
-                    continue;
+                    self.io_error = Some(e);
+                    return None;
                 },
             }
         }
@@ -427,6 +435,7 @@ impl LogIterator {
             "Made {} unsuccessful attempts to parse log records starting at offset {}, giving up",
             max_attempts, self.current_offset
         );
+        self.damaged = true;
         self.reached_eof = true;
         None
     }
@@ -435,6 +444,8 @@ impl LogIterator {
     pub fn reset(&mut self) {
         self.current_offset = 0;
         self.reached_eof = false;
+        self.io_error = None;
+        self.damaged = false;
     }
 
     /// Sets the iterator to start at a specific offset.
@@ -444,6 +455,8 @@ impl LogIterator {
     pub fn set_offset(&mut self, offset: u64) {
         self.current_offset = offset;
         self.reached_eof = false;
+        self.io_error = None;
+        self.damaged = false;
     }
 
     /// Gets the current offset of the iterator.
@@ -462,6 +475,16 @@ impl LogIterator {
         self.reached_eof
     }
 
+    /// The I/O error that stopped the iteration, if one did.
+    pub fn io_error(&self) -> Option<&std::io::Error> {
+        self.io_error.as_ref()
+    }
+
+    /// Whether the iteration gave up on bytes that are not a record.
+    pub fn is_damaged(&self) -> bool {
+        self.damaged
+    }
+
     /// Sets the buffer size for reading log records.
     ///
     /// # Parameters
diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index f10cc21..2a5bae1 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -553,6 +553,17 @@ impl LogManager {
         self.state.persistent_lsn.store(lsn, Ordering::SeqCst);
     }
 
+    /// Continues numbering after `last_lsn`, the last record found in the log.
+    ///
+    /// Used after recovery, so that a position is never given out twice and nothing new
+    /// counts as persistent before it was flushed.
+    pub fn resume_after(&mut self, last_lsn: Lsn) {
+        self.state
+            .next_lsn
+            .fetch_max(last_lsn + 1, Ordering::SeqCst);
+        self.set_persistent_lsn(last_lsn);
+    }
+
     /// Parses a log record from raw bytes
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..6d397d2 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -348,11 +348,6 @@ impl LogRecoveryManager {
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
-
         info!("Database recovery completed successfully");
         Ok(())
     }
@@ -370,6 +365,8 @@ impl LogRecoveryManager {
         let mut txn_table = TxnTable::new();
         let mut dirty_page_table = DirtyPageTable::new();
         let mut start_redo_lsn = INVALID_LSN;
+        let mut last_lsn = INVALID_LSN;
+        let mut valid_end = 0;
 
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
@@ -378,6 +375,10 @@ impl LogRecoveryManager {
         while let Some(log_record) = log_iterator.next().await {
             let lsn = log_record.get_lsn();
             let txn_id = log_record.get_txn_id();
+            valid_end = log_iterator.get_offset();
+            if last_lsn == INVALID_LSN || lsn > last_lsn {
+                last_lsn = lsn;
+            }
 
             // Initialize start_redo_lsn on first record
             if start_redo_lsn == INVALID_LSN {
@@ -424,6 +425,22 @@ impl LogRecoveryManager {
             }
         }
 
+        Self::check_complete(&log_iterator)?;
+        if log_iterator.is_damaged() {
+            warn!("The log holds bytes after offset {valid_end} that are not log records");
+        } else {
+            // A record torn by the crash would swallow the records appended behind it.
+            self.disk_manager
+                .truncate_log(valid_end)
+                .await
+                .map_err(|e| format!("failed to remove the torn end of the log: {e}"))?;
+        }
+
+        // Number new records after the ones that are already in the log
+        if last_lsn != INVALID_LSN {
+            self.log_manager.write().resume_after(last_lsn);
+        }
+
         debug!(
             "Analysis complete: {} active txns, {} dirty pages, start redo LSN: {}",
             txn_table.get_active_txns().len(),
@@ -434,6 +451,18 @@ impl LogRecoveryManager {
         Ok((txn_table, dirty_page_table, start_redo_lsn))
     }
 
+    /// Fails if the iteration ended because the log could not be read.
+    fn check_complete(log_iterator: &LogIterator) -> Result<(), String> {
+        match log_iterator.io_error() {
+            Some(e) => Err(format!(
+                "failed to read the log at offset {}: {}",
+                log_iterator.get_offset(),
+                e
+            )),
+            None => Ok(()),
+        }
+    }
+
     /// Phase 2: Redoes all operations from the log.
     ///
     /// # Parameters
@@ -493,6 +522,8 @@ impl LogRecoveryManager {
             }
         }
 
+        Self::check_complete(&log_iterator)?;
+
         info!("Redo phase complete");
         Ok(())
     }
@@ -565,6 +596,7 @@ impl LogRecoveryManager {
                             break;
                         }
                     } else {
+                        Self::check_complete(&single_record_iterator)?;
                         warn!("Could not read log record during undo");
                         break;
                     }
@@ -603,6 +635,7 @@ impl LogRecoveryManager {
             // Update the offset for the next record
             current_offset = log_iterator.get_offset();
         }
+        Self::check_complete(&log_iterator)?;
 
         Ok(map)
     }
diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 5dd217d..2dfb083 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -601,6 +601,16 @@ impl IOOperationExecutor {
         file.sync_data().await
     }
 
+    /// Cuts the log file off after `len` bytes, durably; a shorter file stays as it is.
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        let file = self.log_file.lock().await;
+        if file.metadata().await?.len() > len {
+            file.set_len(len).await?;
+            file.sync_data().await?;
+        }
+        Ok(())
+    }
+
     /// Gets the current size of the database file in bytes
     pub async fn get_db_file_size(&self) -> IoResult<u64> {
         let file = self.db_file.lock().await;
diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 1773e43..a7c381f 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -478,6 +478,11 @@ impl AsyncIOEngine {
             .map(|_| ())
     }
 
+    /// Cuts the log file off after `len` bytes, executing directly on the caller task.
+    pub async fn truncate_log_direct(&self, len: u64) -> IoResult<()> {
+        self.executor.truncate_log(len).await
+    }
+
     /// Appends log with specified priority
     pub async fn append_log_with_priority(&self, data: &[u8], priority: u8) -> IoResult<u64> {
         let (_op_id, receiver) = self
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 159a9e0..ecdb23c 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -1474,6 +1474,12 @@ impl AsyncDiskManager {
         self.io_engine.read().await.read_log(offset, size).await
     }
 
+    /// Cuts the log file off after `len` bytes; a shorter file stays as it is.
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        debug!("Truncating log to {} bytes", len);
+        self.io_engine.read().await.truncate_log_direct(len).await
+    }
+
     /// Writes a log record to the log file
     pub async fn write_log(&self, log_record: &LogRecord) -> IoResult<u64> {
         debug!("Writing log record: {:?}", log_record);
-- 
2.43.0


From 409015f186ba82418d8bc38bca4bdcec9426f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 07/45] fix: direct I/O transfers use aligned buffers

---
 src/storage/disk/async_disk/io/executor.rs | 26 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 2dfb083..ec97709 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -285,7 +285,7 @@
 //! - Multiple workers can safely share a single executor instance
 //! - All execute methods take `&self`, safe for concurrent calls
 
-use std::io::Result as IoResult;
+use std::io::{Read, Result as IoResult, Write};
 use std::sync::Arc;
 
 use tokio::fs::File;
@@ -424,8 +424,11 @@ impl IOOperationExecutor {
         if self.db_direct_io_config.enabled {
             // Use aligned buffer for direct I/O
             let mut aligned_buf = AlignedBuffer::new(size, self.db_direct_io_config.alignment);
-            file.read_exact(aligned_buf.as_mut_slice()).await?;
-            Ok(aligned_buf.to_vec())
+            Self::direct_transfer(&file, move |file| {
+                file.read_exact(aligned_buf.as_mut_slice())?;
+                Ok(aligned_buf.to_vec())
+            })
+            .await
         } else {
             // Use standard buffer for buffered I/O
             let mut buffer = vec![0u8; size];
@@ -485,7 +488,10 @@ impl IOOperationExecutor {
                 DB_PAGE_SIZE as usize,
                 self.db_direct_io_config.alignment,
             );
-            file.write_all(aligned_buf.as_slice()).await?;
+            Self::direct_transfer(&file, move |file| {
+                file.write_all(aligned_buf.as_slice())
+            })
+            .await?;
         } else {
             // Use standard write for buffered I/O
             file.write_all(data).await?;
@@ -577,6 +583,18 @@ impl IOOperationExecutor {
         Ok(offset)
     }
 
+    /// Runs a transfer at the file's position on the blocking pool, straight from or into the caller's buffer.
+    ///
+    /// `tokio::fs::File` copies through a buffer of its own, whose address has no particular
+    /// alignment, and direct I/O refuses such a buffer.
+    async fn direct_transfer<T: Send + 'static>(
+        file: &File,
+        transfer: impl FnOnce(&mut std::fs::File) -> IoResult<T> + Send + 'static,
+    ) -> IoResult<T> {
+        let mut file = file.try_clone().await?.into_std().await;
+        tokio::task::spawn_blocking(move || transfer(&mut file)).await?
+    }
+
     /// Syncs the database file to ensure data persistence (fsync)
     async fn execute_sync(&self) -> IoResult<()> {
         log::debug!("execute_sync: Starting sync_all() for database file");
-- 
2.43.0


From 7014e5c5780b72679bac29275bda6455c945e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 08/45] fix: order frame accesses by a logical clock

---
 src/buffer/lru_k_replacer.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/buffer/lru_k_replacer.rs b/src/buffer/lru_k_replacer.rs
index 1bd3498..98fa4ca 100644
--- a/src/buffer/lru_k_replacer.rs
+++ b/src/buffer/lru_k_replacer.rs
@@ -76,7 +76,7 @@
 //!   Algorithm for Database Disk Buffering." ACM SIGMOD Record.
 
 use std::collections::{HashMap, VecDeque};
-use std::time::{SystemTime, UNIX_EPOCH};
+use std::sync::atomic::{AtomicU64, Ordering};
 
 use log::{debug, error, trace};
 use parking_lot::{Mutex as ParkingMutex, RwLock};
@@ -122,6 +122,8 @@ pub struct LRUKReplacer {
     curr_size: usize,
     /// A mutex-protected queue of evictable frames.
     evictable_frames: ParkingMutex<VecDeque<FrameId>>,
+    /// Counts the accesses. Unlike the system clock it orders any two of them.
+    clock: AtomicU64,
 }
 
 /// Internal tracking data for a single frame in the LRU-K replacer.
@@ -157,19 +159,13 @@ impl LRUKReplacer {
             curr_size: 0,
             frame_store: RwLock::new(HashMap::new()),
             evictable_frames: ParkingMutex::new(VecDeque::new()),
+            clock: AtomicU64::new(0),
         }
     }
 
-    /// Retrieves the current time in microseconds.
-    ///
-    /// # Returns
-    ///
-    /// The current time in microseconds since the Unix epoch.
-    fn current_time_in_micros() -> u64 {
-        SystemTime::now()
-            .duration_since(UNIX_EPOCH)
-            .unwrap()
-            .as_micros() as u64
+    /// Returns the logical time of a new access, later than that of every earlier access.
+    fn next_access_time(&self) -> u64 {
+        self.clock.fetch_add(1, Ordering::Relaxed)
     }
 
     /// Evicts a frame based on the LRU-K policy.
@@ -258,8 +254,8 @@ impl LRUKReplacer {
     /// * `frame_id` - The ID of the frame being accessed.
     /// * `access_type` - The type of access being performed.
     pub fn record_access(&self, frame_id: FrameId, _access_type: AccessType) {
-        let now = Self::current_time_in_micros();
         let mut store = self.frame_store.write();
+        let now = self.next_access_time();
 
         let entry = store.entry(frame_id).or_insert_with(|| FrameEntry {
             access_count: 0,
-- 
2.43.0


From 4af4a50ab13f1aef80dc8c53ba0e20b62e189eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 09/45] fix: buffer pool keeps every page change and pin under
 concurrency

Bookkeeping of the frames is guarded by one lock, so that a page is never loaded
twice, evicted while pinned, or read from storage while it is written back; a
page whose write-back fails stays in the pool, new pages are written when they
are evicted, a frame whose load fails is not lost, and unpinning never waits for
the lock of a page.
---
 src/buffer/buffer_pool_manager_async.rs | 859 ++++++++++++------------
 1 file changed, 432 insertions(+), 427 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..be2edf8 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -204,14 +204,15 @@
 //! - **Pinning/Unpinning**: Prevents eviction of pages in use by execution threads
 //! - **Replacement Policy**: Uses `LRUKReplacer` for access-frequency-based eviction
 //! - **Cache Coordination**: Manages L1/L2 cache interaction and efficiency
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fmt::Debug;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use log::{error, info, trace, warn};
-use parking_lot::{RwLock, RwLockReadGuard};
+use parking_lot::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard};
+use tokio::runtime::{Handle, RuntimeFlavor};
 
 use crate::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
 use crate::common::config::{DB_PAGE_SIZE, FrameId, INVALID_PAGE_ID, PageId};
@@ -230,6 +231,22 @@ type PageCollection = Arc<RwLock<Vec<Option<Arc<RwLock<dyn PageTrait>>>>>>;
 /// Type alias for the page table mapping page IDs to their frame locations.
 type PageTable = Arc<RwLock<HashMap<PageId, FrameId>>>;
 
+/// What the frames of the pool are in use for.
+#[derive(Debug)]
+struct FrameState {
+    /// Pins of each frame: page guards, and flushes in progress.
+    pins: Vec<u32>,
+    /// Frames whose page storage may not have in its current form, although the page is not
+    /// marked dirty: it is new, or a write of it did not finish.
+    unwritten: Vec<bool>,
+    /// Pages that are being read into a frame right now.
+    loading: HashSet<PageId>,
+    /// Pages that are being written back for their eviction right now.
+    evicting: HashSet<PageId>,
+    /// Frames that are pinned by a flush.
+    flushing: usize,
+}
+
 /// The `BufferPoolManager` is responsible for managing the buffer pool,
 /// including fetching and unpinning pages, and handling page replacement.
 ///
@@ -241,7 +258,7 @@ pub struct BufferPoolManager {
     /// Maximum number of frames in the buffer pool.
     pool_size: usize,
     /// Atomic counter for generating unique page IDs.
-    next_page_id: AtomicU64,
+    next_page_id: Arc<AtomicU64>,
     /// Collection of page frames (L1 cache).
     pages: PageCollection,
     /// Mapping from page IDs to frame IDs.
@@ -256,6 +273,68 @@ pub struct BufferPoolManager {
     use_disk_manager_cache: bool,
     /// Whether to bypass disk cache for pinned pages.
     bypass_disk_cache_for_pinned: bool,
+    /// Guards every change of the page table, the frames, the free list and the replacer.
+    /// Never held while waiting for I/O or for the lock of a page.
+    frames: Arc<Mutex<FrameState>>,
+    /// Signalled when a page stops being busy, or a flush is over.
+    frames_changed: Arc<Condvar>,
+    /// Serialises the flushes of each frame.
+    flush_locks: Arc<Vec<tokio::sync::Mutex<()>>>,
+}
+
+/// Runs something that blocks, without keeping the tasks of a multi-threaded runtime from running.
+fn blocking<R>(f: impl FnOnce() -> R) -> R {
+    match Handle::try_current() {
+        Ok(handle) if handle.runtime_flavor() == RuntimeFlavor::MultiThread => {
+            tokio::task::block_in_place(f)
+        },
+        _ => f(),
+    }
+}
+
+/// A page that is pinned while it is flushed.
+struct FlushPin<'a> {
+    pool: &'a BufferPoolManager,
+    page_id: PageId,
+    frame_id: FrameId,
+    page: Arc<RwLock<dyn PageTrait>>,
+    /// The page was taken to be written and the write has not succeeded yet.
+    writing: bool,
+}
+
+impl FlushPin<'_> {
+    /// Takes the current contents to be written, if storage does not have them.
+    fn take_contents(&mut self, always: bool) -> Option<Vec<u8>> {
+        let mut page = self.page.write();
+        let mut frames = self.pool.frames.lock();
+        let unwritten = &mut frames.unwritten[self.frame_id as usize];
+        if !always && !page.is_dirty() && !*unwritten {
+            return None;
+        }
+        *unwritten = false;
+        self.writing = true;
+        page.set_dirty(false);
+        Some(page.get_data().to_vec())
+    }
+
+    fn written(&mut self) {
+        self.writing = false;
+    }
+}
+
+impl Drop for FlushPin<'_> {
+    fn drop(&mut self) {
+        let mut frames = self.pool.frames.lock();
+        if self.writing {
+            frames.unwritten[self.frame_id as usize] = true;
+            if let Some(mut page) = self.page.try_write() {
+                page.set_dirty(true);
+            }
+        }
+        frames.flushing -= 1;
+        self.pool.unpin_frame(&mut frames, self.frame_id, &self.page);
+        self.pool.frames_changed.notify_all();
+    }
 }
 
 /// Manual Debug implementation that excludes the `pages` field.
@@ -329,7 +408,7 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: Arc::new(AtomicU64::new(0)),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
@@ -337,6 +416,15 @@ impl BufferPoolManager {
             disk_manager,
             use_disk_manager_cache,
             bypass_disk_cache_for_pinned,
+            frames: Arc::new(Mutex::new(FrameState {
+                pins: vec![0; pool_size],
+                unwritten: vec![false; pool_size],
+                loading: HashSet::new(),
+                evicting: HashSet::new(),
+                flushing: 0,
+            })),
+            frames_changed: Arc::new(Condvar::new()),
+            flush_locks: Arc::new((0..pool_size).map(|_| tokio::sync::Mutex::new(())).collect()),
         })
     }
 
@@ -423,16 +511,19 @@ impl BufferPoolManager {
     pub fn new_page<T: Page>(self: &Arc<Self>) -> Option<PageGuard<T>> {
         trace!("Creating new page of type: {:?}", T::TYPE_ID);
 
-        let frame_id = self.get_available_frame()?;
+        // The frame belongs to this page alone until it is installed.
+        let frame_id = self.get_available_frame(&mut self.frames.lock())?;
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page::<T>(new_page_id);
-        self.update_page_metadata(frame_id, new_page_id, &new_page);
+        {
+            let mut frames = self.frames.lock();
+            self.update_page_metadata(&mut frames, frame_id, new_page_id, &new_page);
+            frames.unwritten[frame_id as usize] = true;
+        }
 
         trace!("Created new page {} in frame {}", new_page_id, frame_id);
         let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
@@ -463,21 +554,21 @@ impl BufferPoolManager {
             T::TYPE_ID
         );
 
-        let frame_id = self.get_available_frame()?;
+        // The frame belongs to this page alone until it is installed.
+        let frame_id = self.get_available_frame(&mut self.frames.lock())?;
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page_with_constructor::<T, F>(new_page_id, constructor);
-        self.update_page_metadata(frame_id, new_page_id, &new_page);
+        {
+            let mut frames = self.frames.lock();
+            self.update_page_metadata(&mut frames, frame_id, new_page_id, &new_page);
+            frames.unwritten[frame_id as usize] = true;
+        }
 
-        trace!(
-            "Created new page {} in frame {} with custom options",
-            new_page_id, frame_id
-        );
+        trace!("Created new page {} in frame {}", new_page_id, frame_id);
         let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
         let unpinner: Arc<dyn PageUnpinner> = unpinner;
         Some(PageGuard::new_for_new_page(
@@ -495,27 +586,8 @@ impl BufferPoolManager {
     pub fn write_page(&self, page_id: PageId, data: [u8; DB_PAGE_SIZE as usize]) {
         trace!("Writing to page with ID: {}", page_id);
 
-        // Acquire read lock on the page collection
-        let pages = self.pages.read();
-
-        // Find the target page
-        let mut target_page = None;
-        for (i, page_opt) in pages.iter().enumerate() {
-            if let Some(page) = page_opt {
-                let page_data = page.read(); // Acquire read lock on the page
-                if page_data.get_page_id() == page_id {
-                    // Access trait method directly
-                    target_page = Some((page.clone(), i));
-                    break;
-                }
-            }
-        }
-
-        // Drop the read lock before acquiring the write lock on the target page
-        drop(pages);
-
-        if let Some((page, _index)) = target_page {
-            // Acquire write lock on the target page
+        let target_page = self.get_page_internal(page_id);
+        if let Some(page) = target_page {
             let mut page_data = page.write();
 
             // Update the page data - access trait methods directly
@@ -547,94 +619,66 @@ impl BufferPoolManager {
             return None;
         }
 
-        // Check if page is already in memory
-        if let Some(page) = self.get_page_internal(page_id) {
-            // Verify page type
-            let actual_type = {
-                let page_read = page.read();
-                let type_byte = page_read.get_data()[PAGE_TYPE_OFFSET];
-                let page_type = PageType::from_u8(type_byte);
-                trace!(
-                    "Page {} in memory - Type byte: {}, Parsed type: {:?}, Expected: {:?}",
-                    page_id,
-                    type_byte,
-                    page_type,
-                    T::TYPE_ID
-                );
-                page_type
-            };
-
-            if actual_type != Some(T::TYPE_ID) {
-                warn!(
-                    "Page type mismatch: expected {:?}, found {:?}",
-                    T::TYPE_ID,
-                    actual_type
-                );
-                return None;
+        let mut frames = self.frames.lock();
+        loop {
+            // Somebody else is reading the page in, or writing it back
+            if frames.loading.contains(&page_id) || frames.evicting.contains(&page_id) {
+                blocking(|| self.frames_changed.wait(&mut frames));
+                continue;
             }
 
-            // Mark frame as non-evictable while pinned and record access.
-            if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-                let mut replacer = self.replacer.write();
-                replacer.record_access(frame_id, AccessType::Unknown);
-                replacer.set_evictable(frame_id, false);
+            let resident = self.page_table.read().get(&page_id).copied();
+            if let Some(frame_id) = resident {
+                let page = self.pages.read()[frame_id as usize].clone()?;
+                self.pin_frame(&mut frames, frame_id, &page);
+                drop(frames);
+                return self.create_guard_from_existing::<T>(page_id, page);
             }
 
-            // Create new guard (which will increment pin count)
-            let typed_page = unsafe {
-                let raw = Arc::into_raw(page) as *const RwLock<T>;
-                Arc::from_raw(raw)
-            };
-
-            let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-            let unpinner: Arc<dyn PageUnpinner> = unpinner;
-            return Some(PageGuard::new(typed_page, page_id, Some(unpinner)));
+            frames.loading.insert(page_id);
+            let page = self.load_page_from_disk::<T>(&mut frames, page_id);
+            frames.loading.remove(&page_id);
+            self.frames_changed.notify_all();
+            drop(frames);
+            return page.map(|page| self.create_guard(page_id, page));
         }
-
-        // Page not in memory, need to load from disk
-        self.load_page_from_disk::<T>(page_id)
     }
 
     /// Enhanced page loading with coordinated caching
     fn load_page_from_disk<T: Page + 'static>(
-        self: &Arc<Self>,
+        &self,
+        frames: &mut MutexGuard<'_, FrameState>,
         page_id: PageId,
-    ) -> Option<PageGuard<T>> {
+    ) -> Option<Arc<RwLock<T>>> {
         trace!("Loading page {} with cache coordination", page_id);
 
-        // Get available frame
-        let frame_id = self.get_available_frame()?;
+        let frame_id = self.get_available_frame(frames)?;
         trace!("Got available frame: {} for page load", frame_id);
 
-        // Evict if necessary
-        self.evict_page_if_necessary(frame_id);
-
-        // Try to get page data using coordinated caching
-        let page_data = if self.use_disk_manager_cache {
-            self.load_page_with_cache_coordination(page_id)
-        } else {
-            self.load_page_bypass_cache(page_id)
-        };
+        let page = MutexGuard::unlocked(frames, || {
+            let page_data = if self.use_disk_manager_cache {
+                self.load_page_with_cache_coordination(page_id)
+            } else {
+                self.load_page_bypass_cache(page_id)
+            };
+            match page_data {
+                Ok(data) => self.create_page_from_data::<T>(page_id, data),
+                Err(e) => {
+                    error!("Failed to load page {} : {}", page_id, e);
+                    None
+                },
+            }
+        });
 
-        let page_data = match page_data {
-            Ok(data) => data,
-            Err(e) => {
-                error!("Failed to load page {} : {}", page_id, e);
-                return None;
+        match &page {
+            Some(page) => {
+                self.update_page_metadata(frames, frame_id, page_id, page);
+                frames.unwritten[frame_id as usize] = false;
+                trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
             },
-        };
-
-        // Verify page type and create page
-        if let Some(page_guard) = self.create_page_from_data::<T>(page_id, page_data) {
-            // Update metadata
-            let page_arc = page_guard.get_page().clone();
-            self.update_page_metadata(frame_id, page_id, &page_arc);
-            trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
-            Some(page_guard)
-        } else {
-            error!("Failed to create page {} from data", page_id);
-            None
+            None => self.free_list.write().push(frame_id),
         }
+        page
     }
 
     /// Load page with cache coordination between BPM and AsyncDiskManager
@@ -646,8 +690,10 @@ impl BufferPoolManager {
 
         // Use AsyncDiskManager's read_page which checks its multi-level cache first
         // This avoids duplication since AsyncDiskManager handles cache levels internally
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        blocking(|| {
+            futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
+        })
+        .map_err(std::io::Error::other)
     }
 
     /// Load page bypassing AsyncDiskManager cache (BPM as sole cache)
@@ -657,16 +703,18 @@ impl BufferPoolManager {
         // When BPM wants to be the sole cache manager, we still use AsyncDiskManager
         // for I/O but could add a bypass_cache flag in the future
         // For now, we'll use the regular read_page but this could be optimized
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        blocking(|| {
+            futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
+        })
+        .map_err(std::io::Error::other)
     }
 
     /// Creates a page from raw data with proper type checking
     fn create_page_from_data<T: Page + 'static>(
-        self: &Arc<Self>,
+        &self,
         page_id: PageId,
         data: Vec<u8>,
-    ) -> Option<PageGuard<T>> {
+    ) -> Option<Arc<RwLock<T>>> {
         // Verify data size
         if data.len() < DB_PAGE_SIZE as usize {
             error!(
@@ -711,13 +759,54 @@ impl BufferPoolManager {
             }
         }
 
+        page_arc.write().set_dirty(false);
+        Some(page_arc)
+    }
+
+    /// Creates a guard for a page that is pinned for it.
+    fn create_guard<T: Page + 'static>(
+        self: &Arc<Self>,
+        page_id: PageId,
+        page: Arc<RwLock<T>>,
+    ) -> PageGuard<T> {
         let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
         let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new_for_new_page(
-            page_arc,
-            page_id,
-            Some(unpinner),
-        ))
+        PageGuard::new_for_new_page(page, page_id, Some(unpinner))
+    }
+
+    /// Adds a pin to a frame.
+    fn pin_frame(
+        &self,
+        frames: &mut FrameState,
+        frame_id: FrameId,
+        page: &Arc<RwLock<dyn PageTrait>>,
+    ) {
+        frames.pins[frame_id as usize] += 1;
+        Self::note_pin_count(page, frames.pins[frame_id as usize]);
+        let mut replacer = self.replacer.write();
+        replacer.record_access(frame_id, AccessType::Unknown);
+        replacer.set_evictable(frame_id, false);
+    }
+
+    /// Takes a pin from a frame, which may be evicted after its last one.
+    fn unpin_frame(
+        &self,
+        frames: &mut FrameState,
+        frame_id: FrameId,
+        page: &Arc<RwLock<dyn PageTrait>>,
+    ) {
+        frames.pins[frame_id as usize] -= 1;
+        Self::note_pin_count(page, frames.pins[frame_id as usize]);
+        if frames.pins[frame_id as usize] == 0 {
+            self.replacer.write().set_evictable(frame_id, true);
+        }
+    }
+
+    /// Shows the number of pins on the page itself, unless the page is locked right now.
+    fn note_pin_count(page: &Arc<RwLock<dyn PageTrait>>, pins: u32) {
+        if let Some(mut page) = page.try_write() {
+            page.set_pin_count(pins as i32);
+        }
     }
 
     /// Unpins a page with the given page ID.
@@ -732,92 +821,124 @@ impl BufferPoolManager {
     pub fn unpin_page(&self, page_id: PageId, is_dirty: bool, access_type: AccessType) -> bool {
         trace!("Unpinning page {} (dirty: {})", page_id, is_dirty);
 
-        let page_table = self.page_table.read();
-        let frame_id = match page_table.get(&page_id) {
-            Some(&fid) => fid,
-            None => {
-                trace!("Page {} not found in page table", page_id);
-                return false;
-            },
+        let mut frames = self.frames.lock();
+        let Some(frame_id) = self.page_table.read().get(&page_id).copied() else {
+            trace!("Page {} not found in page table", page_id);
+            return false;
         };
-        drop(page_table);
-
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let mut page_guard = page.write();
+        let Some(page) = self.pages.read()[frame_id as usize].clone() else {
+            warn!("Page {} not found in pages array", page_id);
+            return false;
+        };
+        if frames.pins[frame_id as usize] == 0 {
+            warn!("Attempted to unpin page {} with pin count 0", page_id);
+            return false;
+        }
 
-            // Update dirty flag
-            if is_dirty {
-                page_guard.set_dirty(true);
+        // A page that is locked right now cannot be marked dirty here, but it must be written
+        if is_dirty {
+            match page.try_write() {
+                Some(mut page) => page.set_dirty(true),
+                None => frames.unwritten[frame_id as usize] = true,
             }
+        }
+        if frames.pins[frame_id as usize] == 1 {
+            self.replacer.read().record_access(frame_id, access_type);
+        }
+        self.unpin_frame(&mut frames, frame_id, &page);
+        trace!(
+            "Page {} unpinned, new pin count: {}",
+            page_id, frames.pins[frame_id as usize]
+        );
+        true
+    }
 
-            // Decrement pin count
-            let pin_count = page_guard.get_pin_count();
-            if pin_count > 0 {
-                page_guard.set_pin_count(pin_count - 1);
-                trace!(
-                    "Page {} unpinned, new pin count: {}",
-                    page_id,
-                    pin_count - 1
-                );
-
-                // If pin count reaches 0, mark as evictable
-                if pin_count == 1 {
-                    let mut replacer = self.replacer.write();
-                    replacer.record_access(frame_id, access_type);
-                    replacer.set_evictable(frame_id, true);
-                    trace!("Page {} marked as evictable", page_id);
+    /// Pins a page that is in the pool so that it can be flushed.
+    ///
+    /// Returns `None` if the page is not in the pool: storage has it as it is then.
+    async fn pin_for_flush(&self, page_id: PageId) -> Option<FlushPin<'_>> {
+        loop {
+            {
+                let mut frames = self.frames.lock();
+                if !frames.evicting.contains(&page_id) {
+                    let frame_id = *self.page_table.read().get(&page_id)?;
+                    return self.pin_frame_for_flush(&mut frames, page_id, frame_id);
                 }
-
-                true
-            } else {
-                warn!("Attempted to unpin page {} with pin count 0", page_id);
-                false
             }
-        } else {
-            warn!("Page {} not found in pages array", page_id);
-            false
+            tokio::task::yield_now().await;
         }
     }
 
+    fn pin_frame_for_flush(
+        &self,
+        frames: &mut FrameState,
+        page_id: PageId,
+        frame_id: FrameId,
+    ) -> Option<FlushPin<'_>> {
+        let page = self.pages.read()[frame_id as usize].clone()?;
+        frames.pins[frame_id as usize] += 1;
+        frames.flushing += 1;
+        self.replacer.write().set_evictable(frame_id, false);
+        Some(FlushPin {
+            pool: self,
+            page_id,
+            frame_id,
+            page,
+            writing: false,
+        })
+    }
+
     /// Flushes a page to disk asynchronously
     pub async fn flush_page_async(&self, page_id: PageId) -> Result<(), String> {
         trace!("Flushing page {} to disk", page_id);
 
-        let frame_id = {
-            let page_table = self.page_table.read();
-            *page_table
-                .get(&page_id)
-                .ok_or_else(|| format!("Page {} not found in page table", page_id))?
-        };
-
-        let page = {
-            let pages = self.pages.read();
-            pages
-                .get(frame_id as usize)
-                .and_then(|p| p.as_ref())
-                .ok_or_else(|| format!("Page {} not found in pages array", page_id))?
-                .clone()
+        let Some(mut pin) = self.pin_for_flush(page_id).await else {
+            // A page that was evicted has been written
+            if page_id < self.next_page_id.load(Ordering::SeqCst) {
+                return Ok(());
+            }
+            return Err(format!("Page {} not found in page table", page_id));
         };
-
-        self.write_page_to_disk_async(page_id, &page).await
+        let _flush_guard = self.flush_locks[pin.frame_id as usize].lock().await;
+        if let Some(data) = pin.take_contents(true) {
+            self.disk_manager
+                .write_page(page_id, data)
+                .await
+                .map_err(|e| format!("Failed to write page to disk: {}", e))?;
+            pin.written();
+        }
+        Ok(())
     }
 
     /// Flushes all pages to disk asynchronously.
     pub async fn flush_all_pages_async(&self) {
+        if let Err(e) = self.try_flush_all_pages().await {
+            error!("{}", e);
+        }
+    }
+
+    /// Flushes all pages that are in the pool; reports the first failure, after trying them all.
+    async fn try_flush_all_pages(&self) -> Result<(), String> {
         trace!("Flushing all pages to disk");
 
-        let page_table = self.page_table.read();
-        let page_ids: Vec<PageId> = page_table.keys().cloned().collect();
-        drop(page_table);
+        let mut page_ids: Vec<PageId> = {
+            // Pages that are being written back have left the page table already
+            let frames = self.frames.lock();
+            let page_table = self.page_table.read();
+            page_table.keys().chain(frames.evicting.iter()).copied().collect()
+        };
+        page_ids.sort_unstable();
 
+        let mut result = Ok(());
         for page_id in page_ids {
             if let Err(e) = self.flush_page_async(page_id).await {
                 error!("Failed to flush page {}: {}", page_id, e);
+                result = result.and(Err(format!("Failed to flush page {page_id}: {e}")));
             }
         }
 
         trace!("Finished flushing all pages");
+        result
     }
 
     /// Flushes all pages **and** forces the disk manager to flush buffered writes.
@@ -829,7 +950,7 @@ impl BufferPoolManager {
     /// the on-disk files to reflect the latest state *immediately*, this method provides a
     /// stronger guarantee by explicitly calling `AsyncDiskManager::flush()`.
     pub async fn flush_all_pages_durable(&self) -> Result<(), String> {
-        self.flush_all_pages_async().await;
+        self.try_flush_all_pages().await?;
         self.disk_manager
             .flush()
             .await
@@ -852,11 +973,9 @@ impl BufferPoolManager {
     pub fn deallocate_page(&mut self, page_id: PageId) {
         trace!("Deallocating page {}", page_id);
 
-        // Remove from page table
-        self.remove_page_from_table(page_id);
-
-        // Note: In a full implementation, we might want to track deallocated page IDs
-        // for reuse, but for now we'll just remove it from the buffer pool
+        if let Err(e) = self.delete_page(page_id) {
+            trace!("Page {} stays in the pool: {:?}", page_id, e);
+        }
     }
 
     /// Deletes a page with the given page ID.
@@ -869,35 +988,20 @@ impl BufferPoolManager {
     pub fn delete_page(&self, page_id: PageId) -> Result<(), DeletePageError> {
         trace!("Deleting page {}", page_id);
 
+        let mut frames = self.frames.lock();
+        if frames.loading.contains(&page_id) || frames.evicting.contains(&page_id) {
+            return Err(DeletePageError::PagePinned(page_id));
+        }
         let frame_id = self.get_frame_id(page_id)?;
-
-        // Check if page is pinned
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            if page_guard.get_pin_count() > 0 {
-                return Err(DeletePageError::PagePinned(page_id));
-            }
+        if frames.pins[frame_id as usize] > 0 {
+            return Err(DeletePageError::PagePinned(page_id));
         }
-        drop(pages);
 
-        // Reset the frame
         self.reset_frame(frame_id)?;
-
-        // Remove from page table
         self.remove_page_from_table(page_id);
-
-        // Add frame to free list
-        {
-            let mut free_list = self.free_list.write();
-            free_list.push(frame_id);
-        }
-
-        // Remove from replacer
-        {
-            let replacer = self.replacer.write();
-            replacer.remove(frame_id);
-        }
+        frames.unwritten[frame_id as usize] = false;
+        self.replacer.read().remove(frame_id);
+        self.free_list.write().push(frame_id);
 
         trace!("Successfully deleted page {}", page_id);
         Ok(())
@@ -952,132 +1056,90 @@ impl BufferPoolManager {
         }
     }
 
-    /// Evicts the page in the specified frame if it exists and is unpinned.
-    fn evict_page_if_necessary(&self, frame_id: FrameId) {
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            let old_page_id = page_guard.get_page_id();
-            let pin_count = page_guard.get_pin_count();
-            drop(page_guard);
-            drop(pages);
-
-            if pin_count == 0 {
-                trace!("Evicting page {} from frame {}", old_page_id, frame_id);
-                self.evict_old_page(frame_id, old_page_id);
-            } else {
-                warn!(
-                    "Cannot evict pinned page {} (pin count: {}) from frame {}",
-                    old_page_id, pin_count, frame_id
-                );
-            }
-        }
-    }
-
     /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
-        // Check if page is dirty and flush if necessary
-        let page_to_flush = {
-            let pages = self.pages.read();
-            if let Some(Some(page)) = pages.get(frame_id as usize) {
-                let is_dirty = page.read().is_dirty();
-                if is_dirty { Some(page.clone()) } else { None }
-            } else {
-                None
-            }
+    fn evict_old_page(
+        &self,
+        frames: &mut MutexGuard<'_, FrameState>,
+        frame_id: FrameId,
+        old_page_id: PageId,
+    ) -> bool {
+        let Some(page) = self.pages.write()[frame_id as usize].take() else {
+            return true;
         };
+        self.remove_page_from_table(old_page_id);
+        let unwritten = std::mem::take(&mut frames.unwritten[frame_id as usize]);
 
-        if let Some(page) = page_to_flush {
-            trace!("Flushing dirty page {} before eviction", old_page_id);
-            if let Err(e) = self.write_page_to_disk_sync(old_page_id, &page) {
-                error!(
-                    "Failed to flush page {} during eviction: {}",
-                    old_page_id, e
-                );
+        // Until the page is written, nobody may read it from storage
+        frames.evicting.insert(old_page_id);
+        let written = MutexGuard::unlocked(frames, || {
+            if !unwritten && !page.read().is_dirty() {
+                return Ok(());
             }
-        }
-
-        // Remove from page table
-        self.remove_page_from_table(old_page_id);
+            trace!("Flushing dirty page {} before eviction", old_page_id);
+            self.write_page_to_disk_sync(old_page_id, &page)
+        });
+        frames.evicting.remove(&old_page_id);
+        self.frames_changed.notify_all();
 
-        // Reset frame
-        if let Err(e) = self.reset_frame(frame_id) {
+        if let Err(e) = &written {
             error!(
-                "Failed to reset frame {} during eviction: {:?}",
-                frame_id, e
+                "Failed to flush page {} during eviction: {}",
+                old_page_id, e
             );
+            // The page is only in the pool, so it stays there
+            frames.unwritten[frame_id as usize] = true;
+            self.pages.write()[frame_id as usize] = Some(page);
+            self.page_table.write().insert(old_page_id, frame_id);
+            self.replacer.write().set_evictable(frame_id, true);
+            return false;
         }
 
         trace!(
             "Successfully evicted page {} from frame {}",
             old_page_id, frame_id
         );
+        true
     }
 
     /// Gets an available frame, either from the free list or by evicting a page.
     ///
     /// This method first checks the free list for unused frames. If none are
     /// available, it uses the LRU-K replacer to select a victim for eviction.
-    fn get_available_frame(&self) -> Option<FrameId> {
-        // Try to get a frame from the free list first
-        {
-            let mut free_list = self.free_list.write();
-            if let Some(frame_id) = free_list.pop() {
+    fn get_available_frame(&self, frames: &mut MutexGuard<'_, FrameState>) -> Option<FrameId> {
+        loop {
+            if let Some(frame_id) = self.free_list.write().pop() {
                 trace!("Got frame {} from free list", frame_id);
                 return Some(frame_id);
             }
-        }
 
-        // No free frames, try to evict using LRU-K
-        trace!("No free frames, attempting eviction");
-        let mut replacer = self.replacer.write();
-
-        // Try multiple eviction attempts if needed
-        for _ in 0..self.pool_size {
-            if let Some(frame_id) = replacer.evict() {
+            trace!("No free frames, attempting eviction");
+            let victim = self.replacer.write().evict();
+            if let Some(frame_id) = victim {
                 trace!("LRU-K replacer selected frame {} for eviction", frame_id);
-
-                // Find the page_id for this frame
-                let page_id = {
-                    let page_table = self.page_table.read();
-                    let mut victim_page_id = None;
-
-                    for (&pid, &fid) in page_table.iter() {
-                        if fid == frame_id {
-                            victim_page_id = Some(pid);
-                            break;
-                        }
-                    }
-
-                    victim_page_id
+                let victim_page_id = self
+                    .page_table
+                    .read()
+                    .iter()
+                    .find(|&(_, &fid)| fid == frame_id)
+                    .map(|(&pid, _)| pid);
+                let evicted = match victim_page_id {
+                    Some(old_page_id) => self.evict_old_page(frames, frame_id, old_page_id),
+                    None => true,
                 };
-
-                // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
-                }
-
-                return Some(frame_id);
+                return evicted.then_some(frame_id);
             }
 
-            // If no frames are evictable, try to make some evictable
-            // Find pages with pin count 0 that aren't marked as evictable
-            let pages = self.pages.read();
-            for (i, page_opt) in pages.iter().enumerate() {
-                if let Some(page) = page_opt {
-                    let page_data = page.read();
-                    if page_data.get_pin_count() == 0 {
-                        // Drop read lock before acquiring write lock
-                        drop(page_data);
-
-                        // Set this frame as evictable
-                        replacer.set_evictable(i as FrameId, true);
-                    }
-                }
+            // Frames that are pinned by a flush alone come back soon; wait for them where that
+            // does not keep the flush from running.
+            let can_wait = Handle::try_current()
+                .map_or(true, |handle| handle.runtime_flavor() == RuntimeFlavor::MultiThread);
+            if frames.flushing == 0 || !can_wait {
+                break;
             }
+            blocking(|| self.frames_changed.wait(frames));
         }
 
-        warn!("No evictable frames found after multiple attempts");
+        warn!("No evictable frames found");
         None
     }
 
@@ -1147,6 +1209,7 @@ impl BufferPoolManager {
     /// the new page-to-frame mapping.
     fn update_page_metadata<P: PageTrait + 'static>(
         &self,
+        frames: &mut FrameState,
         frame_id: FrameId,
         page_id: PageId,
         new_page: &Arc<RwLock<P>>,
@@ -1172,6 +1235,8 @@ impl BufferPoolManager {
             replacer.set_evictable(frame_id, false); // New pages are not evictable
         }
 
+        frames.pins[frame_id as usize] = 1;
+
         trace!(
             "Updated metadata for page {} in frame {}",
             page_id, frame_id
@@ -1201,22 +1266,17 @@ impl BufferPoolManager {
 
         // Prepare data for writing
         let data_buffer = {
-            let page_guard = page.read();
+            let mut page_guard = page.write();
+            page_guard.set_dirty(false);
             let mut data = vec![0u8; DB_PAGE_SIZE as usize];
             data.copy_from_slice(page_guard.get_data());
             data
         };
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
-        self.disk_manager
-            .write_page(page_id, data_buffer)
-            .await
-            .map_err(|e| format!("Failed to write page to disk: {}", e))?;
-
-        // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+        if let Err(e) = self.disk_manager.write_page(page_id, data_buffer).await {
+            page.write().set_dirty(true);
+            return Err(format!("Failed to write page to disk: {}", e));
         }
 
         trace!(
@@ -1237,23 +1297,21 @@ impl BufferPoolManager {
     ) -> Result<(), String> {
         // Prepare data for writing
         let data_buffer = {
-            let page_guard = page.read();
+            let mut page_guard = page.write();
+            page_guard.set_dirty(false);
             let mut data = vec![0u8; DB_PAGE_SIZE as usize];
             data.copy_from_slice(page_guard.get_data());
             data
         };
 
-        // Use block_on for sync eviction path
-        let result = futures::executor::block_on(async {
-            self.disk_manager.write_page(page_id, data_buffer).await
+        let result = blocking(|| {
+            futures::executor::block_on(async {
+                self.disk_manager.write_page(page_id, data_buffer).await
+            })
         });
-
-        result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
-
-        // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+        if let Err(e) = result {
+            page.write().set_dirty(true);
+            return Err(format!("Failed to write page to disk: {}", e));
         }
 
         trace!(
@@ -1296,59 +1354,11 @@ impl BufferPoolManager {
 
         trace!("Loading {} pages in batch", page_ids.len());
 
-        // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
-        let mut pages_to_load = Vec::new();
-
-        for page_id in page_ids {
-            if let Some(page) = self.get_page_internal(page_id) {
-                // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
-                }
-            } else {
-                pages_to_load.push(page_id);
-            }
-        }
-
-        // Load missing pages from disk in batch
-        if !pages_to_load.is_empty() {
-            match self
-                .disk_manager
-                .read_pages_batch(pages_to_load.clone())
-                .await
-            {
-                Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
-                        }
-                    }
-                },
-                Err(e) => {
-                    error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
-                },
-            }
-        }
-
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
+        let mut page_ids = page_ids;
+        page_ids.sort_unstable();
+        page_ids
             .into_iter()
-            .map(|(_, guard)| guard)
+            .map(|page_id| self.fetch_page::<T>(page_id))
             .collect()
     }
 
@@ -1372,25 +1382,17 @@ impl BufferPoolManager {
                 T::TYPE_ID,
                 actual_type
             );
+            self.unpin_page(page_id, false, AccessType::Unknown);
             return None;
         }
 
-        // Mark frame as non-evictable while pinned and record access.
-        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-            let mut replacer = self.replacer.write();
-            replacer.record_access(frame_id, AccessType::Unknown);
-            replacer.set_evictable(frame_id, false);
-        }
-
         // Create typed page arc
         let typed_page = unsafe {
             let raw = Arc::into_raw(page) as *const RwLock<T>;
             Arc::from_raw(raw)
         };
 
-        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-        let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new(typed_page, page_id, Some(unpinner)))
+        Some(self.create_guard(page_id, typed_page))
     }
 
     /// Flushes multiple dirty pages to disk in a single batch operation.
@@ -1409,55 +1411,51 @@ impl BufferPoolManager {
             max_pages
         );
 
-        // Collect dirty pages
-        let dirty_pages: Vec<(PageId, Vec<u8>)> = {
-            let pages = self.pages.read();
-            pages
-                .iter()
-                .filter_map(|page_opt| {
-                    if let Some(page) = page_opt {
-                        let page_guard = page.read();
-                        if page_guard.is_dirty() {
-                            let page_id = page_guard.get_page_id();
-                            let data = page_guard.get_data().to_vec();
-                            Some((page_id, data))
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
+        // Pages that are being written back by an eviction have to be on disk as well
+        let (mut pins, evicting): (Vec<FlushPin<'_>>, Vec<PageId>) = {
+            let mut frames = self.frames.lock();
+            let resident: Vec<(FrameId, PageId)> =
+                self.page_table.read().iter().map(|(&p, &f)| (f, p)).collect();
+            let pins = resident
+                .into_iter()
+                .filter_map(|(frame_id, page_id)| {
+                    self.pin_frame_for_flush(&mut frames, page_id, frame_id)
                 })
-                .take(max_pages)
-                .collect()
+                .collect();
+            (pins, frames.evicting.iter().copied().collect())
         };
+        for page_id in evicting {
+            pins.extend(self.pin_for_flush(page_id).await);
+        }
+        pins.sort_by_key(|pin| pin.frame_id);
+
+        // The frames are in ascending order, so that two batches cannot wait for each other
+        let mut flush_guards = Vec::new();
+        let mut dirty_pages: Vec<(PageId, Vec<u8>)> = Vec::new();
+        for pin in &mut pins {
+            if dirty_pages.len() >= max_pages {
+                break;
+            }
+            let flush_guard = self.flush_locks[pin.frame_id as usize].lock().await;
+            if let Some(data) = pin.take_contents(false) {
+                dirty_pages.push((pin.page_id, data));
+                flush_guards.push(flush_guard);
+            }
+        }
+        pins.retain(|pin| pin.writing);
 
         if dirty_pages.is_empty() {
             return Ok(0);
         }
 
-        // Write in batch using async disk manager
-        let result = self
-            .disk_manager
-            .write_pages_batch(dirty_pages.clone())
-            .await;
-
-        match result {
+        let count = dirty_pages.len();
+        match self.disk_manager.write_pages_batch(dirty_pages).await {
             Ok(()) => {
-                // Mark pages as clean
-                let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
-                    if let Some(frame_id) = self.page_table.read().get(page_id)
-                        && let Some(Some(page)) = pages.get(*frame_id as usize)
-                    {
-                        page.write().set_dirty(false);
-                    }
+                for pin in &mut pins {
+                    pin.written();
                 }
-                trace!(
-                    "Successfully flushed {} dirty pages in batch",
-                    dirty_pages.len()
-                );
-                Ok(dirty_pages.len())
+                trace!("Successfully flushed {} dirty pages in batch", count);
+                Ok(count)
             },
             Err(e) => {
                 error!("Failed to flush pages in batch: {}", e);
@@ -1738,6 +1736,10 @@ impl BufferPoolManager {
         info!("Flushed {} dirty pages during shutdown", dirty_count);
 
         // Sync to ensure all data is written
+        self.disk_manager
+            .flush()
+            .await
+            .map_err(|e| format!("Failed to flush disk manager: {e}"))?;
         self.sync_to_disk().await?;
 
         // Shutdown the disk manager
@@ -1811,7 +1813,7 @@ impl Clone for BufferPoolManager {
     fn clone(&self) -> Self {
         Self {
             pool_size: self.pool_size,
-            next_page_id: AtomicU64::new(self.next_page_id.load(Ordering::SeqCst)),
+            next_page_id: Arc::clone(&self.next_page_id),
             pages: Arc::clone(&self.pages),
             page_table: Arc::clone(&self.page_table),
             replacer: Arc::clone(&self.replacer),
@@ -1819,6 +1821,9 @@ impl Clone for BufferPoolManager {
             disk_manager: Arc::clone(&self.disk_manager),
             use_disk_manager_cache: self.use_disk_manager_cache,
             bypass_disk_cache_for_pinned: self.bypass_disk_cache_for_pinned,
+            frames: Arc::clone(&self.frames),
+            frames_changed: Arc::clone(&self.frames_changed),
+            flush_locks: Arc::clone(&self.flush_locks),
         }
     }
 }
-- 
2.43.0


From 16528d12577323fc7a8ece3cb93e58544f4a27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 10/45] fix: a reopened database file keeps its pages and their
 ids

---
 src/buffer/buffer_pool_manager_async.rs |  3 ++-
 src/storage/disk/async_disk/manager.rs  | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index be2edf8..509ad74 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -408,7 +408,8 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: Arc::new(AtomicU64::new(0)),
+            // Pages that exist already can be fetched, and their ids are not given out again
+            next_page_id: Arc::new(AtomicU64::new(disk_manager.page_count())),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index ecdb23c..83aaad6 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -239,7 +239,7 @@ use std::future::Future;
 use std::io;
 use std::io::Result as IoResult;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 use std::time::{Duration, Instant};
 
 use log::{debug, error, info, trace, warn};
@@ -285,6 +285,9 @@ pub struct AsyncDiskManager {
     // Held from taking pages out of the staging buffer until they are on disk
     flush_lock: Mutex<()>,
 
+    // One more than the highest page id known to have been written
+    page_count: AtomicU64,
+
     // Configuration
     config: DiskManagerConfig,
 
@@ -350,6 +353,7 @@ impl AsyncDiskManager {
             true,
             &db_direct_io_config,
         )?;
+        let page_count = db_file_std.metadata()?.len().div_ceil(DB_PAGE_SIZE);
         let db_file = Arc::new(Mutex::new(File::from_std(db_file_std)));
 
         debug!(
@@ -423,6 +427,7 @@ impl AsyncDiskManager {
             cache_manager,
             page_locks: (0..PAGE_LOCK_SHARDS).map(|_| Mutex::new(())).collect(),
             flush_lock: Mutex::new(()),
+            page_count: AtomicU64::new(page_count),
             config,
             scheduler,
             metrics_collector,
@@ -712,6 +717,12 @@ impl AsyncDiskManager {
         Ok(())
     }
 
+    /// Returns the number of pages: one more than the highest page id that is in the database
+    /// file or has been written since it was opened.
+    pub fn page_count(&self) -> u64 {
+        self.page_count.load(Ordering::Relaxed)
+    }
+
     /// Locks the shard of pages a page belongs to.
     async fn lock_page(&self, page_id: PageId) -> MutexGuard<'_, ()> {
         self.page_locks[page_id as usize % PAGE_LOCK_SHARDS]
@@ -737,6 +748,7 @@ impl AsyncDiskManager {
     /// Stages and caches a page write; returns whether the staged pages are due for a flush.
     async fn stage_page(&self, page_id: PageId, data: &[u8]) -> IoResult<bool> {
         let _page_guard = self.lock_page(page_id).await;
+        self.page_count.fetch_max(page_id + 1, Ordering::Relaxed);
         let needs_flush = match self.write_manager.stage_write(page_id, data).await? {
             Some(needs_flush) => needs_flush,
             None => {
-- 
2.43.0


From 5b54c361371ceaf90f5823684304d73297ee398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:59 +0000
Subject: [PATCH 11/45] fix: table pages keep their slots through storage and
 never overlap tuples

A table page's header, links and tuple metadata lived only in memory: they
were encoded into the page's bytes on insert alone, and not decoded when a
page was read back. Encode them on every change and decode them on set_data.
New tuples go below the lowest tuple rather than below the last slot's, and
slots keep room for their metadata to grow.
---
 src/storage/page/page_types/table_page.rs | 78 ++++++++++++++++++-----
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..5a56900 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -64,6 +64,10 @@ use crate::storage::page::{
 };
 use crate::storage::table::tuple::{Tuple, TupleMeta};
 
+/// Longest encoding of a [`TupleMeta`]. The metadata of a stored tuple grows
+/// when it is committed or gains an undo log, so every slot keeps this much room.
+const TUPLE_META_MAX_ENCODED_SIZE: usize = 10 + 11 + 1 + 11;
+
 /// Represents a table page using a slotted page format.
 /// Slotted pages store a forward-growing slot directory and backward-growing tuple bodies
 /// inside a fixed-size buffer, enabling compact packing and stable tuple offsets until
@@ -242,6 +246,22 @@ impl TablePage {
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.encode();
+    }
+
+    /// Brings the page's bytes, which are what storage keeps of it, in step
+    /// with its header and slots.
+    fn encode(&mut self) {
+        *self.data = self.serialize();
+    }
+
+    /// The offset of the lowest tuple in the page.
+    fn lowest_tuple_offset(&self) -> u16 {
+        self.tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16)
     }
 
     /// Gets the next offset to insert a tuple.
@@ -268,11 +288,7 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        let slot_end_offset = self.lowest_tuple_offset();
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
@@ -303,10 +319,13 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
+        if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE {
+            return Err(PageError::TupleInvalid);
+        }
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
-        let (current_offset, current_size, _) = self.tuple_info[tuple_id];
+        let (current_offset, current_size, old_meta) = self.tuple_info[tuple_id];
 
         // Try to update in place if the new tuple size is smaller than or equal to current size
         if new_size <= current_size {
@@ -332,6 +351,8 @@ impl TablePage {
                 }
 
                 self.is_dirty = true;
+                self.count_deletion(&old_meta, &meta);
+                self.encode();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -371,6 +392,8 @@ impl TablePage {
             if end <= self.data.len() {
                 self.data[start..end].copy_from_slice(&tuple_data);
                 self.is_dirty = true;
+                self.count_deletion(&old_meta, &meta);
+                self.encode();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -378,6 +401,15 @@ impl TablePage {
         }
     }
 
+    /// Keeps the count of deleted tuples when a slot's metadata is replaced.
+    fn count_deletion(&mut self, old_meta: &TupleMeta, new_meta: &TupleMeta) {
+        if !old_meta.is_deleted() && new_meta.is_deleted() {
+            self.header.num_deleted_tuples += 1;
+        } else if old_meta.is_deleted() && !new_meta.is_deleted() {
+            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
+        }
+    }
+
     /// Updates the metadata of a tuple.
     pub fn update_tuple_meta(&mut self, meta: TupleMeta, rid: &RID) -> Result<(), String> {
         debug!(
@@ -437,6 +469,7 @@ impl TablePage {
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
         self.is_dirty = true;
+        self.encode();
 
         debug!(
             "Successfully updated tuple meta. Page is now dirty. num_deleted_tuples: {}",
@@ -547,11 +580,13 @@ impl TablePage {
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
         self.is_dirty = true;
+        self.encode();
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
         self.is_dirty = true;
+        self.encode();
     }
 
     /// Serializes the page into a fixed-size byte array
@@ -718,6 +753,9 @@ impl TablePage {
         // Read tuple info entries
         debug!("Reading {} tuple info entries", page.header.num_tuples);
         for i in 0..page.header.num_tuples {
+            if offset + 4 > bytes.len() {
+                return Err(format!("Slot {} lies outside the page", i));
+            }
             // Read tuple offset and size
             let tuple_offset = u16::from_le_bytes(bytes[offset..offset + 2].try_into().unwrap());
             let size = u16::from_le_bytes(bytes[offset + 2..offset + 4].try_into().unwrap());
@@ -738,6 +776,9 @@ impl TablePage {
             debug!("Deserialized meta with size {} bytes", meta_size);
             offset += meta_size;
 
+            if tuple_offset as usize + size as usize > bytes.len() {
+                return Err(format!("Tuple {} lies outside the page", i));
+            }
             page.tuple_info.push((tuple_offset, size, meta));
         }
 
@@ -855,6 +896,7 @@ impl TablePage {
 
         self.data[start..end].copy_from_slice(&tuple_data);
         self.is_dirty = true;
+        self.encode();
         Ok(())
     }
 
@@ -870,12 +912,8 @@ impl TablePage {
     fn encoded_tuple_info_bytes(&self) -> usize {
         self.tuple_info
             .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
+            // 2 bytes offset + 2 bytes size + room for any meta
+            .map(|_| 4 + TUPLE_META_MAX_ENCODED_SIZE)
             .sum()
     }
 
@@ -887,15 +925,14 @@ impl TablePage {
             + 4 // end magic
     }
 
-    fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
+    fn metadata_footprint_with_new(&self, _meta: &TupleMeta) -> Option<usize> {
         Some(
             1 // page type
                 + TablePageHeader::size()
                 + 4 // start magic
                 + self.encoded_tuple_info_bytes()
                 + 4 // offset+size for new tuple
-                + meta_len
+                + TUPLE_META_MAX_ENCODED_SIZE
                 + 4, // end magic
         )
     }
@@ -1206,6 +1243,16 @@ impl PageTrait for TablePage {
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
         self.is_dirty = true;
+
+        // A whole page brings its own header and slots. Bytes that were never
+        // encoded as a table page (such as a new page's) leave them as they are.
+        if offset == 0
+            && new_data.len() == self.data.len()
+            && let Ok(page) = Self::deserialize(&self.data)
+        {
+            self.header = page.header;
+            self.tuple_info = page.tuple_info;
+        }
         Ok(())
     }
 
@@ -1218,6 +1265,7 @@ impl PageTrait for TablePage {
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
         self.header.num_tuples = 0;
+        self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
-- 
2.43.0


From 6898c5118b2dda209b4a28af8b4a6e90a9b54d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 12/45] fix: LRU-K cache orders accesses even when the wall
 clock stands still or steps back

---
 src/storage/disk/async_disk/cache/lru_k.rs | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/lru_k.rs b/src/storage/disk/async_disk/cache/lru_k.rs
index 2de0e54..db1fc7c 100644
--- a/src/storage/disk/async_disk/cache/lru_k.rs
+++ b/src/storage/disk/async_disk/cache/lru_k.rs
@@ -275,6 +275,7 @@ where
     capacity: usize,
     k: usize,
     cache: HashMap<K, (V, VecDeque<u64>)>, // (value, access history)
+    last_access: u64,                      // time given to the latest access
 }
 
 impl<K, V> LRUKCache<K, V>
@@ -293,15 +294,21 @@ where
             capacity,
             k,
             cache: HashMap::with_capacity(capacity),
+            last_access: 0,
         }
     }
 
-    /// Gets the current time in microseconds.
-    fn current_time_in_micros() -> u64 {
-        SystemTime::now()
+    /// Gets the time of an access in microseconds.
+    ///
+    /// Times are strictly increasing even if the wall clock stands still or is set back, so that
+    /// the history always has the order of the accesses.
+    fn next_access_time(&mut self) -> u64 {
+        let now = SystemTime::now()
             .duration_since(UNIX_EPOCH)
-            .unwrap()
-            .as_micros() as u64
+            .unwrap_or_default()
+            .as_micros() as u64;
+        self.last_access = now.max(self.last_access + 1);
+        self.last_access
     }
 }
 
@@ -316,7 +323,7 @@ where
             return None;
         }
 
-        let now = Self::current_time_in_micros();
+        let now = self.next_access_time();
 
         // If key already exists, update its value and access history
         if let Some((old_value, history)) = self.cache.get_mut(&key) {
@@ -384,7 +391,7 @@ where
     }
 
     fn get(&mut self, key: &K) -> Option<&V> {
-        let now = Self::current_time_in_micros();
+        let now = self.next_access_time();
 
         if let Some((_, history)) = self.cache.get_mut(key) {
             // Update access history
@@ -542,8 +549,8 @@ where
     }
 
     fn touch(&mut self, key: &K) -> bool {
+        let now = self.next_access_time();
         if let Some((_, history)) = self.cache.get_mut(key) {
-            let now = Self::current_time_in_micros();
             history.push_back(now);
             if history.len() > self.k {
                 history.pop_front();
-- 
2.43.0


From b18618c1f45a87a730a45e75b463515e1af281f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 13/45] fix: a heap LFU cache without capacity stores nothing

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..37007cd 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,11 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        // A cache without capacity stores nothing
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From 2674b16f9c528729779b3184f1c85c439b196176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 14/45] fix: table iterators report the address of the row they
 return

---
 src/storage/table/table_iterator.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..9d33069 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -422,7 +422,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +429,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,10 +440,9 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
+            // The RID looked at; `advance` will move to the next slot.
+            let rid = self.current_rid;
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
             let result = if let Some(txn_ctx) = &self.txn_ctx {
@@ -463,7 +461,7 @@ impl Iterator for TableIterator {
             self.advance();
 
             if let Some(tuple) = result {
-                self.last_returned_rid = Some(current_rid);
+                self.last_returned_rid = Some(rid);
                 return Some(tuple);
             }
         }
-- 
2.43.0


From ef2a9e56170c22fba4c0d40d1920c3d8c26af65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:58 +0000
Subject: [PATCH 15/45] fix: recovery replays what the log says

Redo and undo applied the record's row to whatever page could be fetched and
ignored every failure: a page that never reached the database file, a row of
another length, a full page. The rollback of an aborted transaction was not
repeated (redo left its changes in place), losers got no ABORT record, so a
second recovery undid them after the transactions that followed, and recovered
rows stayed invisible because their metadata said uncommitted.
---
 src/buffer/buffer_pool_manager_async.rs   |  48 ++++
 src/recovery/log_recovery.rs              | 315 +++++++++++++---------
 src/storage/page/page_types/table_page.rs |  40 ++-
 3 files changed, 274 insertions(+), 129 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 509ad74..335998f 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -536,6 +536,54 @@ impl BufferPoolManager {
         ))
     }
 
+    /// Fetches a page that has been in use before, creating it again under its id if a crash
+    /// kept it from ever reaching the database file. Only recovery may need this.
+    ///
+    /// # Returns
+    /// The page, and whether it was created.
+    pub(crate) fn fetch_or_restore_page<T: Page + 'static>(
+        self: &Arc<Self>,
+        page_id: PageId,
+    ) -> Result<(PageGuard<T>, bool), String> {
+        if page_id == INVALID_PAGE_ID {
+            return Err("invalid page id".to_string());
+        }
+        if let Some(guard) = self.fetch_page::<T>(page_id) {
+            return Ok((guard, false));
+        }
+        if self.page_table.read().contains_key(&page_id) {
+            return Err(format!("page {page_id} is not of the expected type"));
+        }
+        let file_size = blocking(|| {
+            futures::executor::block_on(async { self.disk_manager.get_db_file_size().await })
+        })
+        .map_err(|e| format!("failed to size the database file: {e}"))?;
+        if page_id < file_size / DB_PAGE_SIZE {
+            // A page that was never written is full of zeros
+            let data = self
+                .load_page_bypass_cache(page_id)
+                .map_err(|e| format!("failed to read page {page_id}: {e}"))?;
+            if data.iter().any(|byte| *byte != 0) {
+                return Err(format!("failed to fetch page {page_id}"));
+            }
+        }
+
+        let frame_id = self
+            .get_available_frame(&mut self.frames.lock())
+            .ok_or_else(|| format!("no frame for page {page_id}"))?;
+        self.next_page_id.fetch_max(page_id + 1, Ordering::SeqCst);
+        let page = self.create_typed_page::<T>(page_id);
+        {
+            let mut frames = self.frames.lock();
+            self.update_page_metadata(&mut frames, frame_id, page_id, &page);
+            frames.unwritten[frame_id as usize] = true;
+        }
+        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+        let unpinner: Arc<dyn PageUnpinner> = unpinner;
+        let guard = PageGuard::new_for_new_page(page, page_id, Some(unpinner));
+        Ok((guard, true))
+    }
+
     /// Creates a new page with custom options using a provided constructor function.
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6d397d2..2d1c760 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -254,13 +254,15 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
+use crate::common::rid::RID;
 use crate::recovery::log_iterator::LogIterator;
 use crate::recovery::log_manager::LogManager;
 use crate::recovery::log_record::{LogRecord, LogRecordType};
 use crate::storage::disk::async_disk::AsyncDiskManager;
+use crate::storage::page::page_guard::PageGuard;
 use crate::storage::page::page_impl::PageTrait;
 use crate::storage::page::page_types::table_page::TablePage;
-use crate::storage::table::tuple::TupleMeta;
+use crate::storage::table::tuple::{Tuple, TupleMeta};
 
 /// Orchestrates the ARIES recovery protocol to restore the database to a
 /// consistent state after a crash.
@@ -482,16 +484,28 @@ impl LogRecoveryManager {
 
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
+        let mut lsn_to_offset_map = HashMap::new();
+        let mut offset = 0;
 
         // Process each log record
         while let Some(log_record) = log_iterator.next().await {
             let lsn = log_record.get_lsn();
+            lsn_to_offset_map.insert(lsn, offset);
+            offset = log_iterator.get_offset();
 
             // Skip records before start_redo_lsn
             if lsn < start_redo_lsn {
                 continue;
             }
 
+            // Redo repeats the changes of an aborted transaction, so it repeats their rollback
+            // too, before anything that later transactions did to the same rows
+            if log_record.get_log_record_type() == LogRecordType::Abort {
+                let (txn_id, last_lsn) = (log_record.get_txn_id(), log_record.get_prev_lsn());
+                self.undo_transaction(txn_id, last_lsn, &lsn_to_offset_map)
+                    .await?;
+            }
+
             // Check if we need to redo this operation
             let should_redo = match log_record.get_log_record_type() {
                 LogRecordType::Update
@@ -543,75 +557,106 @@ impl LogRecoveryManager {
 
         info!("Undoing {} active transactions", active_txns.len());
 
+        // Build a map of LSN to offset in the log file
+        // This requires a full scan of the log to build the LSN-to-offset mapping
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
+
         // For each active transaction, undo its operations in reverse LSN order
         for txn_id in active_txns {
-            debug!("Undoing transaction {}", txn_id);
-
             // Start from the last LSN of this transaction
-            let mut current_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
-
-            // Build a map of LSN to offset in the log file
-            // This requires a full scan of the log to build the LSN-to-offset mapping
-            let lsn_to_offset_map = self.build_lsn_offset_map().await?;
-
-            // Continue until we reach the BEGIN record or INVALID_LSN
-            while current_lsn != INVALID_LSN {
-                // Get the offset for this LSN
-                if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
-                    // Create a LogIterator at this specific offset
-                    let mut single_record_iterator =
-                        LogIterator::with_offset(self.disk_manager.clone(), *offset);
-
-                    if let Some(log_record) = single_record_iterator.next().await {
-                        if log_record.get_txn_id() == txn_id {
-                            match log_record.get_log_record_type() {
-                                LogRecordType::Begin => {
-                                    // We've reached the beginning of this transaction
-                                    debug!("Reached BEGIN record for transaction {}", txn_id);
-                                    break;
-                                },
-                                LogRecordType::Insert => {
-                                    // Undo insert by deleting
-                                    self.undo_insert(&log_record)?;
-                                },
-                                LogRecordType::Update => {
-                                    // Undo update by restoring old value
-                                    self.undo_update(&log_record)?;
-                                },
-                                LogRecordType::MarkDelete => {
-                                    // Undo delete by restoring tuple
-                                    self.undo_delete(&log_record)?;
-                                },
-                                LogRecordType::NewPage => {
-                                    // Don't need to undo new page creation
-                                },
-                                _ => {}, // Ignore other record types for undo
-                            }
-
-                            // Move to previous LSN
-                            current_lsn = log_record.get_prev_lsn();
-                        } else {
-                            // This shouldn't happen in a well-formed log
-                            warn!("Found record for different transaction during undo");
-                            break;
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            self.undo_transaction(txn_id, last_lsn, &lsn_to_offset_map)
+                .await?;
+
+            // Write an ABORT record for this transaction, so that a later recovery undoes it
+            // before, not after, the transactions that follow
+            debug!("Writing ABORT record for transaction {}", txn_id);
+            let abort_record =
+                LogRecord::new_transaction_record(txn_id, last_lsn, LogRecordType::Abort);
+            let lsn = self
+                .log_manager
+                .write()
+                .append_log_record(Arc::new(abort_record));
+            if lsn == INVALID_LSN {
+                warn!("Could not write ABORT record for transaction {}", txn_id);
+            }
+        }
+
+        info!("Undo phase complete");
+        Ok(())
+    }
+
+    /// Undoes the operations of one transaction in reverse LSN order.
+    ///
+    /// # Parameters
+    /// - `txn_id`: The transaction to undo
+    /// - `last_lsn`: The LSN of its last operation
+    /// - `lsn_to_offset_map`: Where in the log its records are
+    async fn undo_transaction(
+        &self,
+        txn_id: TxnId,
+        last_lsn: Lsn,
+        lsn_to_offset_map: &HashMap<Lsn, u64>,
+    ) -> Result<(), String> {
+        debug!("Undoing transaction {}", txn_id);
+        let mut current_lsn = last_lsn;
+
+        // Continue until we reach the BEGIN record or INVALID_LSN
+        while current_lsn != INVALID_LSN {
+            // Get the offset for this LSN
+            if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
+                // Create a LogIterator at this specific offset
+                let mut single_record_iterator =
+                    LogIterator::with_offset(self.disk_manager.clone(), *offset);
+
+                if let Some(log_record) = single_record_iterator.next().await {
+                    if log_record.get_txn_id() == txn_id {
+                        match log_record.get_log_record_type() {
+                            LogRecordType::Begin => {
+                                // We've reached the beginning of this transaction
+                                debug!("Reached BEGIN record for transaction {}", txn_id);
+                                break;
+                            },
+                            LogRecordType::Insert => {
+                                // Undo insert by deleting
+                                self.undo_insert(&log_record)?;
+                            },
+                            LogRecordType::Update => {
+                                // Undo update by restoring old value
+                                self.undo_update(&log_record)?;
+                            },
+                            LogRecordType::MarkDelete | LogRecordType::ApplyDelete => {
+                                // Undo delete by restoring tuple
+                                self.undo_delete(&log_record)?;
+                            },
+                            LogRecordType::RollbackDelete => {
+                                if let Some(rid) = log_record.get_delete_rid() {
+                                    self.mark_row(rid, true)?;
+                                }
+                            },
+                            LogRecordType::NewPage => {
+                                // Don't need to undo new page creation
+                            },
+                            _ => {}, // Ignore other record types for undo
                         }
+
+                        // Move to previous LSN
+                        current_lsn = log_record.get_prev_lsn();
                     } else {
-                        Self::check_complete(&single_record_iterator)?;
-                        warn!("Could not read log record during undo");
+                        // This shouldn't happen in a well-formed log
+                        warn!("Found record for different transaction during undo");
                         break;
                     }
                 } else {
-                    warn!("Could not find offset for LSN {} during undo", current_lsn);
+                    Self::check_complete(&single_record_iterator)?;
+                    warn!("Could not read log record during undo");
                     break;
                 }
+            } else {
+                warn!("Could not find offset for LSN {} during undo", current_lsn);
+                break;
             }
-
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
-
-        info!("Undo phase complete");
         Ok(())
     }
 
@@ -674,69 +719,43 @@ impl LogRecoveryManager {
     fn redo_record(&self, record: &LogRecord) -> Result<(), String> {
         match record.get_log_record_type() {
             LogRecordType::Insert => {
-                if let (Some(rid), Some(_tuple)) =
+                if let (Some(rid), Some(tuple)) =
                     (record.get_insert_rid(), record.get_insert_tuple())
                 {
                     debug!("Redoing INSERT for RID {:?}", rid);
-                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                        let mut page = page_guard.write();
-                        let meta = TupleMeta::new(record.get_txn_id());
-                        if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
-                            page.set_dirty(true);
-                        }
-                    }
+                    self.put_row(record.get_txn_id(), rid, tuple, true)?;
                 }
             },
             LogRecordType::Update => {
-                if let (Some(rid), Some(_tuple)) =
+                if let (Some(rid), Some(tuple)) =
                     (record.get_update_rid(), record.get_update_tuple())
                 {
                     debug!("Redoing UPDATE for RID {:?}", rid);
-                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                        let mut page = page_guard.write();
-                        if let (Some(tuple), Some(_old)) =
-                            (record.get_update_tuple(), record.get_original_tuple())
-                        {
-                            let meta = TupleMeta::new(record.get_txn_id());
-                            let _ = page.update_tuple(meta, tuple, *rid);
-                            page.set_dirty(true);
-                        }
-                    }
+                    self.put_row(record.get_txn_id(), rid, tuple, false)?;
                 }
             },
             LogRecordType::MarkDelete => {
                 if let Some(rid) = record.get_delete_rid() {
                     debug!("Redoing MARK_DELETE for RID {:?}", rid);
-                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                        let mut page = page_guard.write();
-                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
-                            meta.set_deleted(true);
-                            let _ = page.update_tuple(meta, &tuple, *rid);
-                            page.set_dirty(true);
-                        }
-                    }
+                    self.mark_row(rid, true)?;
                 }
             },
             LogRecordType::ApplyDelete => {
                 if let Some(rid) = record.get_delete_rid() {
                     debug!("Redoing APPLY_DELETE for RID {:?}", rid);
-                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                        let mut page = page_guard.write();
-                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
-                            meta.set_deleted(true);
-                            let _ = page.update_tuple(meta, &tuple, *rid);
-                            page.set_dirty(true);
-                        }
-                    }
+                    self.mark_row(rid, true)?;
+                }
+            },
+            LogRecordType::RollbackDelete => {
+                if let Some(rid) = record.get_delete_rid() {
+                    debug!("Redoing ROLLBACK_DELETE for RID {:?}", rid);
+                    self.mark_row(rid, false)?;
                 }
             },
             LogRecordType::NewPage => {
                 if let Some(page_id) = record.get_page_id() {
                     debug!("Redoing NEW_PAGE for page {}", page_id);
-                    if self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
-                        let _ = self.bpm.new_page::<TablePage>();
-                    }
+                    self.get_page(*page_id)?;
                 }
             },
             _ => {}, // Ignore other record types for redo
@@ -744,6 +763,76 @@ impl LogRecoveryManager {
         Ok(())
     }
 
+    /// Fetches a page that the log mentions, creating it if it never reached the database file
+    ///
+    /// # Parameters
+    /// - `page_id`: The page to fetch
+    fn get_page(&self, page_id: PageId) -> Result<PageGuard<TablePage>, String> {
+        let (page_guard, created) = self.bpm.fetch_or_restore_page::<TablePage>(page_id)?;
+        if created {
+            let mut page = page_guard.write();
+            page.init();
+            page.set_dirty(true);
+        }
+        Ok(page_guard)
+    }
+
+    /// The metadata of a row once recovery is done: no transaction is active then, so every
+    /// version that is still there is committed, before any transaction that will begin
+    fn settled_meta(txn_id: TxnId, deleted: bool) -> TupleMeta {
+        let mut meta = TupleMeta::new_with_delete(txn_id, deleted);
+        meta.set_commit_timestamp(0);
+        meta
+    }
+
+    /// Gives a row the content it has in a log record
+    ///
+    /// # Parameters
+    /// - `txn_id`: The transaction that wrote this content
+    /// - `rid`: The row
+    /// - `tuple`: The content
+    /// - `insert`: Whether the row may have to be inserted
+    fn put_row(
+        &self,
+        txn_id: TxnId,
+        rid: &RID,
+        tuple: &Tuple,
+        insert: bool,
+    ) -> Result<(), String> {
+        let page_guard = self.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+        let meta = Self::settled_meta(txn_id, false);
+        let rows = page.get_num_tuples() as u32;
+        if rid.get_slot_num() < rows {
+            // The page may hold this version of the row, an older or a newer one
+            page.update_tuple(meta, tuple, *rid)
+                .map_err(|e| format!("failed to restore row {rid:?}: {e}"))?;
+        } else if insert && rid.get_slot_num() == rows {
+            page.insert_tuple_with_rid(&meta, tuple, *rid)
+                .ok_or_else(|| format!("failed to insert row {rid:?} again"))?;
+        } else {
+            warn!("The log mentions row {:?}, which does not exist", rid);
+        }
+        page.set_dirty(true);
+        Ok(())
+    }
+
+    /// Marks a row as deleted or not
+    ///
+    /// # Parameters
+    /// - `rid`: The row
+    /// - `deleted`: Whether it is deleted
+    fn mark_row(&self, rid: &RID, deleted: bool) -> Result<(), String> {
+        let page_guard = self.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+        if let Ok((meta, _)) = page.get_tuple(rid, true) {
+            let meta = Self::settled_meta(meta.get_creator_txn_id(), deleted);
+            page.update_tuple_meta(meta, rid)?;
+            page.set_dirty(true);
+        }
+        Ok(())
+    }
+
     /// Undo an insert operation
     ///
     /// # Parameters
@@ -751,14 +840,7 @@ impl LogRecoveryManager {
     fn undo_insert(&self, record: &LogRecord) -> Result<(), String> {
         if let Some(rid) = record.get_insert_rid() {
             debug!("Undoing INSERT for RID {:?}", rid);
-            if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                let mut page = page_guard.write();
-                if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
-                    meta.set_deleted(true);
-                    let _ = page.update_tuple(meta, &tuple, *rid);
-                    page.set_dirty(true);
-                }
-            }
+            self.mark_row(rid, true)?;
         }
         Ok(())
     }
@@ -768,18 +850,11 @@ impl LogRecoveryManager {
     /// # Parameters
     /// - `record`: The update log record to undo
     fn undo_update(&self, record: &LogRecord) -> Result<(), String> {
-        if let (Some(rid), Some(_old_tuple)) =
+        if let (Some(rid), Some(original)) =
             (record.get_update_rid(), record.get_original_tuple())
         {
             debug!("Undoing UPDATE for RID {:?}", rid);
-            if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                let mut page = page_guard.write();
-                if let Some(original) = record.get_original_tuple() {
-                    let meta = TupleMeta::new(record.get_txn_id());
-                    let _ = page.update_tuple(meta, original, *rid);
-                    page.set_dirty(true);
-                }
-            }
+            self.put_row(record.get_txn_id(), rid, original, false)?;
         }
         Ok(())
     }
@@ -789,17 +864,9 @@ impl LogRecoveryManager {
     /// # Parameters
     /// - `record`: The delete log record to undo
     fn undo_delete(&self, record: &LogRecord) -> Result<(), String> {
-        if let (Some(rid), Some(_tuple)) = (record.get_delete_rid(), record.get_delete_tuple()) {
+        if let (Some(rid), Some(tuple)) = (record.get_delete_rid(), record.get_delete_tuple()) {
             debug!("Undoing DELETE for RID {:?}", rid);
-            if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
-                let mut page = page_guard.write();
-                if let Some(tuple) = record.get_delete_tuple() {
-                    let mut meta = TupleMeta::new(record.get_txn_id());
-                    meta.set_deleted(false);
-                    let _ = page.update_tuple(meta, tuple, *rid);
-                    page.set_dirty(true);
-                }
-            }
+            self.put_row(record.get_txn_id(), rid, tuple, false)?;
         }
         Ok(())
     }
diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 5a56900..6c3e08c 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -369,16 +369,26 @@ impl TablePage {
                 .min()
                 .unwrap_or(DB_PAGE_SIZE as u16);
 
-            let new_offset = min_offset.saturating_sub(new_size);
+            let mut new_offset = min_offset.saturating_sub(new_size);
             let header_and_tuple_info_size = self.metadata_footprint_bytes() as u16;
 
             if new_offset < header_and_tuple_info_size {
-                return Err(PageError::TupleInvalid);
+                // The room that earlier moves and shrinking rows left behind may suffice
+                let others = self.get_tuple_data_size() - current_size as usize;
+                if header_and_tuple_info_size as usize + others + new_size as usize
+                    > DB_PAGE_SIZE as usize
+                {
+                    return Err(PageError::TupleInvalid);
+                }
+                self.tuple_info[tuple_id].1 = 0;
+                self.compact();
+                new_offset = self.lowest_tuple_offset() - new_size;
             }
 
             // Clear the old tuple data
-            let old_start = current_offset as usize;
-            let old_end = old_start + current_size as usize;
+            let (old_offset, old_size, _) = self.tuple_info[tuple_id];
+            let old_start = old_offset as usize;
+            let old_end = old_start + old_size as usize;
             if old_end <= self.data.len() {
                 self.data[old_start..old_end].fill(0);
             }
@@ -401,6 +411,20 @@ impl TablePage {
         }
     }
 
+    /// Moves all tuples to the end of the page, leaving no gaps between them.
+    fn compact(&mut self) {
+        let old = self.data.clone();
+        let mut end = DB_PAGE_SIZE as usize;
+        for (offset, size, _) in &mut self.tuple_info {
+            let from = *offset as usize;
+            let len = *size as usize;
+            end -= len;
+            self.data[end..end + len].copy_from_slice(&old[from..from + len]);
+            *offset = end as u16;
+        }
+        self.encode();
+    }
+
     /// Keeps the count of deleted tuples when a slot's metadata is replaced.
     fn count_deletion(&mut self, old_meta: &TupleMeta, new_meta: &TupleMeta) {
         if !old_meta.is_deleted() && new_meta.is_deleted() {
@@ -1100,7 +1124,13 @@ impl TablePage {
         );
 
         // Get the next available offset for the tuple
-        let tuple_offset = match self.get_next_tuple_offset(meta, tuple) {
+        let mut next_offset = self.get_next_tuple_offset(meta, tuple);
+        if next_offset.is_none() {
+            // Earlier moves and shrinking rows may have left room between the tuples
+            self.compact();
+            next_offset = self.get_next_tuple_offset(meta, tuple);
+        }
+        let tuple_offset = match next_offset {
             Some(offset) => {
                 debug!("Found available offset: {}", offset);
                 offset
-- 
2.43.0


From 30b8eb21c9b38860b8cf180204f556ad0917e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 16/45] fix: lock manager: upgrades, releases with waiters, row
 keys, deadlock victims

A transaction's own locks no longer block it, an upgrade keeps and reports its
modes, releasing a lock with a waiter no longer deadlocks on the state manager,
queued grants enter the lock sets and exact waits-for edges, row locks are keyed
by table and row, only the chosen victim takes a deadlock notice and only while
its cycle still exists, finished transactions get no locks at any isolation
level, and unlocking no longer revives an aborted transaction.
---
 src/concurrency/lock_manager.rs | 566 +++++++++++++++-----------------
 1 file changed, 265 insertions(+), 301 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..cb4cabd 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -263,6 +263,8 @@ pub struct LockStateManager {
     row_locks: Mutex<HashMap<RID, Arc<Mutex<LockRequestQueue>>>>,
     /// Maps transaction ID to its current lock holdings.
     txn_lock_sets: Mutex<HashMap<TxnId, TxnLockState>>,
+    /// The waits-for graph, shared with the deadlock detector.
+    waits_for: Arc<Mutex<HashMap<TxnId, Vec<TxnId>>>>,
 }
 
 /// Validates lock requests against isolation level and transaction state rules.
@@ -379,102 +381,85 @@ impl LockRequestQueue {
         }
     }
 
-    /// Checks if a new lock request is compatible with existing granted locks.
-    pub fn compatible_with_existing_locks(&self, request: &LockRequest) -> bool {
-        let txn_id = request.get_txn_id();
-        let new_mode = request.get_lock_mode();
+    /// Whether a transaction holds a lock that includes the given mode.
+    fn is_covered(&self, txn_id: TxnId, mode: LockMode) -> bool {
+        self.request_queue.iter().any(|existing| {
+            let existing = existing.lock();
+            existing.is_granted()
+                && existing.get_txn_id() == txn_id
+                && match existing.get_lock_mode() {
+                    LockMode::Exclusive => true,
+                    LockMode::SharedIntentionExclusive => mode != LockMode::Exclusive,
+                    LockMode::Shared | LockMode::IntentionExclusive => {
+                        mode == LockMode::IntentionShared || mode == existing.get_lock_mode()
+                    },
+                    LockMode::IntentionShared => mode == LockMode::IntentionShared,
+                }
+        })
+    }
 
-        // If there's an upgrading transaction, no other locks can be granted
-        if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-            return false;
+    /// The transactions that keep a request from being granted: those that hold an incompatible
+    /// lock and the one that waits for an upgrade.
+    fn blockers(&self, txn_id: TxnId, mode: LockMode) -> Vec<TxnId> {
+        if self.is_covered(txn_id, mode) {
+            return Vec::new();
         }
-
-        // Check existing locks by this transaction
-        let has_lock = false;
-        for existing_req in &self.request_queue {
-            let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
-            }
+        let mut blockers: Vec<TxnId> = self
+            .request_queue
+            .iter()
+            .filter_map(|existing| {
+                let existing = existing.lock();
+                (existing.is_granted()
+                    && existing.get_txn_id() != txn_id
+                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), mode))
+                .then(|| existing.get_txn_id())
+            })
+            .collect();
+        if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
+            blockers.push(self.upgrading);
         }
+        blockers
+    }
 
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
-            }
-        }
-        true
+    /// Checks if a transaction can be given a lock beside the locks that others hold.
+    ///
+    /// What the transaction itself holds never stands in its way: an upgrade adds the new mode to
+    /// the ones it has.
+    pub fn compatible_with_existing_locks(&self, txn_id: TxnId, mode: LockMode) -> bool {
+        self.blockers(txn_id, mode).is_empty()
     }
 
     /// Attempts to grant a lock request.
+    ///
+    /// A request that cannot be granted stays in the queue until it can; asking for the same
+    /// lock again refers to that request.
     pub fn grant_lock(&mut self, request: Arc<Mutex<LockRequest>>) -> bool {
         let txn_id = request.lock().get_txn_id();
         let lock_mode = request.lock().get_lock_mode();
 
-        // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
+        let mut holds_lock = false;
+        let mut waiting = None;
+        for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
+            if existing.get_txn_id() == txn_id {
                 if existing.get_lock_mode() == lock_mode {
-                    return true; // Already have this lock
-                }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
-            }
-        }
-
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
+                    if existing.is_granted() {
+                        return true; // Already have this lock
                     }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
+                    waiting = Some(existing_req.clone());
+                }
+                holds_lock |= existing.is_granted();
             }
         }
+        let request = match waiting {
+            Some(request) => request,
+            None => {
+                self.request_queue.push_back(request.clone());
+                request
+            },
+        };
 
-        // Check compatibility with existing locks
-        if self.compatible_with_existing_locks(&request.lock()) {
-            // Grant the new lock
-            self.request_queue.push_back(request.clone());
+        if self.compatible_with_existing_locks(txn_id, lock_mode) {
             request.lock().granted = true;
             if self.upgrading == txn_id {
                 self.upgrading = INVALID_TXN_ID;
@@ -483,10 +468,29 @@ impl LockRequestQueue {
             return true;
         }
 
-        // Add request to queue but don't grant it yet
-        self.request_queue.push_back(request);
+        // Nobody else gets a lock before a transaction that waits for an upgrade
+        if holds_lock && self.upgrading == INVALID_TXN_ID {
+            self.upgrading = txn_id;
+        }
         false
     }
+
+    /// Whether a transaction holds a lock.
+    fn holds(&self, txn_id: TxnId) -> bool {
+        self.request_queue.iter().any(|request| {
+            let request = request.lock();
+            request.get_txn_id() == txn_id && request.is_granted()
+        })
+    }
+
+    /// Removes everything a transaction holds or waits for.
+    fn remove_txn(&mut self, txn_id: TxnId) {
+        self.request_queue
+            .retain(|request| request.lock().get_txn_id() != txn_id);
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -556,6 +560,32 @@ impl DeadlockDetector {
         latest.take()
     }
 
+    /// Whether a transaction was chosen as a victim and its deadlock still exists.
+    fn take_victim(&self, txn_id: TxnId) -> bool {
+        let mut latest = self.latest_abort_txn.lock();
+        if *latest != Some(txn_id) {
+            return false;
+        }
+        *latest = None;
+        drop(latest);
+
+        // Somebody else in the cycle may have given up since
+        let waits_for = self.waits_for.lock();
+        let mut reached = HashSet::new();
+        let mut pending = vec![txn_id];
+        while let Some(curr) = pending.pop() {
+            for &next in waits_for.get(&curr).into_iter().flatten() {
+                if next == txn_id {
+                    return true;
+                }
+                if reached.insert(next) {
+                    pending.push(next);
+                }
+            }
+        }
+        false
+    }
+
     /// Checks if there is a cycle in the waits-for graph.
     ///
     /// # Parameters
@@ -635,114 +665,96 @@ impl Default for LockStateManager {
 }
 
 impl LockStateManager {
-    /// Creates a new lock state manager with empty lock maps.
+    /// Creates a new `LockStateManager`.
     pub fn new() -> Self {
+        Self::with_waits_for(Arc::new(Mutex::new(HashMap::new())))
+    }
+
+    /// Creates a new `LockStateManager` that keeps the given waits-for graph up to date.
+    fn with_waits_for(waits_for: Arc<Mutex<HashMap<TxnId, Vec<TxnId>>>>) -> Self {
         Self {
             table_lock_map: Mutex::new(HashMap::new()),
             row_locks: Mutex::new(HashMap::new()),
             txn_lock_sets: Mutex::new(HashMap::new()),
+            waits_for,
         }
     }
 
-    /// Attempts to grant a table lock to a transaction.
+    /// Grants a table lock to a transaction.
     ///
     /// # Returns
-    /// `true` if the lock was granted, `false` if it must wait.
+    /// `true` if the lock was granted, `false` if the transaction must wait
     pub fn grant_table_lock(&self, txn_id: TxnId, lock_mode: LockMode, oid: TableOidT) -> bool {
         let mut table_locks = self.table_lock_map.lock();
         let queue = table_locks
             .entry(oid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
-
-        // Create and try to grant the lock request
-        let request = Arc::new(Mutex::new(LockRequest::new_table_request(
-            txn_id, lock_mode, oid,
-        )));
-        let mut queue_guard = queue.lock();
-        let granted = queue_guard.grant_lock(request);
-
-        // If granted, update transaction's lock set
-        if granted {
-            let mut txn_locks = self.txn_lock_sets.lock();
-            let lock_state = txn_locks.entry(txn_id).or_insert_with(|| TxnLockState {
-                table_locks: HashSet::new(),
-                row_locks: HashSet::new(),
-            });
-            lock_state.table_locks.insert(oid);
-        }
-
-        // Drop locks in reverse order to avoid deadlock
-        drop(queue_guard);
-        drop(table_locks);
-
-        granted
+        let request = LockRequest::new_table_request(txn_id, lock_mode, oid);
+        self.request(&mut queue.lock(), request)
     }
 
-    /// Attempts to grant a row lock to a transaction.
+    /// Grants a row lock to a transaction.
     ///
     /// # Returns
-    /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    /// `true` if the lock was granted, `false` if the transaction must wait
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
+        let request = LockRequest::new_row_request(txn_id, lock_mode, oid, rid);
+        self.request(&mut queue.lock(), request)
+    }
 
-        let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
-        )));
-        let granted = queue.lock().grant_lock(request.clone());
-
+    /// Asks a queue for a lock and notes who holds it, or who waits for whom.
+    fn request(&self, queue: &mut LockRequestQueue, request: LockRequest) -> bool {
+        let txn_id = request.get_txn_id();
+        let lock_mode = request.get_lock_mode();
+        let request = Arc::new(Mutex::new(request));
+        let granted = queue.grant_lock(request.clone());
         if granted {
-            // Update transaction's lock set
-            let mut txn_locks = self.txn_lock_sets.lock();
-            let lock_state = txn_locks.entry(txn_id).or_insert_with(|| TxnLockState {
+            self.note_granted(&request.lock());
+        } else {
+            let blockers = queue.blockers(txn_id, lock_mode);
+            self.waits_for.lock().insert(txn_id, blockers);
+        }
+        granted
+    }
+
+    /// Adds a granted lock to the lock set of its transaction, which waits no longer.
+    fn note_granted(&self, request: &LockRequest) {
+        let mut txn_locks = self.txn_lock_sets.lock();
+        let lock_state = txn_locks
+            .entry(request.get_txn_id())
+            .or_insert_with(|| TxnLockState {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
-        }
-
-        granted
+        match request.get_rid() {
+            None => lock_state.table_locks.insert(request.get_oid()),
+            Some(rid) => lock_state.row_locks.insert((request.get_oid(), rid)),
+        };
+        self.waits_for.lock().remove(&request.get_txn_id());
     }
 
-    /// Releases a table lock
+    /// Releases a table lock held by a transaction.
     pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<(), LockError> {
         let table_locks = self.table_lock_map.lock();
 
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
-
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
+            if queue_guard.holds(txn_id) {
+                queue_guard.remove_txn(txn_id);
+                if let Some(lock_state) = self.txn_lock_sets.lock().get_mut(&txn_id) {
                     lock_state.table_locks.remove(&oid);
                 }
-
-                // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
-                }
-                queue_guard.cv.notify_all();
-
+                self.grant_waiting_locks(&mut queue_guard);
                 return Ok(());
             }
         }
@@ -750,27 +762,22 @@ impl LockStateManager {
         Err(LockError::NoLockHeld)
     }
 
-    /// Releases a row lock
-    pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<(), LockError> {
+    /// Releases a row lock held by a transaction.
+    pub fn release_row_lock(
+        &self,
+        txn_id: TxnId,
+        oid: TableOidT,
+        rid: RID,
+    ) -> Result<(), LockError> {
         let row_locks = self.row_locks.lock();
 
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
-
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+            if queue_guard.holds(txn_id) {
+                queue_guard.remove_txn(txn_id);
+                if let Some(lock_state) = self.txn_lock_sets.lock().get_mut(&txn_id) {
+                    lock_state.row_locks.remove(&(oid, rid));
                 }
-
-                // Try to grant waiting locks
                 self.grant_waiting_locks(&mut queue_guard);
                 return Ok(());
             }
@@ -779,64 +786,61 @@ impl LockStateManager {
         Err(LockError::NoLockHeld)
     }
 
-    /// Force releases all locks held by the given transaction without mutating the transaction state.
+    /// Releases all locks held by a specific transaction, and withdraws its waiting requests.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
-
-        // Release row locks first to avoid table-lock ordering issues.
         {
             let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
+            for queue in row_locks.values() {
+                self.withdraw(txn_id, &mut queue.lock());
             }
         }
-
-        // Release table locks.
         {
-            let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
+            let table_locks = self.table_lock_map.lock();
+            for queue in table_locks.values() {
+                self.withdraw(txn_id, &mut queue.lock());
             }
         }
 
-        // Remove transaction lock state entry.
-        let mut txn_locks = self.txn_lock_sets.lock();
-        txn_locks.remove(&txn_id);
-
+        self.txn_lock_sets.lock().remove(&txn_id);
+        self.waits_for.lock().remove(&txn_id);
         Ok(())
     }
 
-    /// Attempts to grant locks to waiting transactions
+    /// Removes a transaction from a queue, if it is there.
+    fn withdraw(&self, txn_id: TxnId, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
+        if queue
+            .request_queue
+            .iter()
+            .any(|request| request.lock().get_txn_id() == txn_id)
+        {
+            queue.remove_txn(txn_id);
+            self.grant_waiting_locks(queue);
+        }
+    }
+
+    /// Grants the requests of a queue that nothing stands in the way of any more.
     fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
         let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
+        while let Some(request) = queue.request_queue.get(i).cloned() {
+            i += 1;
+            let (txn_id, lock_mode, granted) = {
+                let request = request.lock();
+                (request.txn_id, request.lock_mode, request.granted)
+            };
+            if granted {
+                continue;
+            }
+            let blockers = queue.blockers(txn_id, lock_mode);
+            if !blockers.is_empty() {
+                self.waits_for.lock().insert(txn_id, blockers);
+                continue;
+            }
+            request.lock().granted = true;
+            self.note_granted(&request.lock());
+            if queue.upgrading == txn_id {
+                // Earlier requests may have waited for this upgrade
+                queue.upgrading = INVALID_TXN_ID;
+                i = 0;
             }
         }
         queue.cv.notify_all();
@@ -931,11 +935,19 @@ impl LockValidator {
         txn: &Transaction,
         lock_mode: LockMode,
     ) -> Result<(), LockError> {
+        // A finished transaction needs no locks
+        match txn.get_state() {
+            TransactionState::Aborted | TransactionState::Tainted => {
+                return Err(LockError::TransactionAborted);
+            },
+            TransactionState::Committed => return Err(LockError::TransactionCommitted),
+            _ => {},
+        }
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
             IsolationLevel::RepeatableRead => self.validate_repeatable_read(txn, lock_mode),
-            IsolationLevel::Serializable => Ok(()),
+            IsolationLevel::Serializable => self.validate_repeatable_read(txn, lock_mode),
             IsolationLevel::Snapshot => self.validate_snapshot(txn, lock_mode),
         }
     }
@@ -1018,9 +1030,10 @@ impl LockManager {
         let mut detector = DeadlockDetector::new();
         detector.start_detection();
 
+        let waits_for = Arc::clone(&detector.waits_for);
         Self {
             deadlock_detector: detector,
-            lock_state_manager: LockStateManager::new(),
+            lock_state_manager: LockStateManager::with_waits_for(waits_for),
             lock_validator: LockValidator::new(),
         }
     }
@@ -1047,47 +1060,13 @@ impl LockManager {
         // 1. Validate the lock request
         self.lock_validator.validate_lock_request(&txn, lock_mode)?;
 
-        // 2. Create lock request
-        let request = Arc::new(Mutex::new(LockRequest::new_table_request(
-            txn.get_transaction_id(),
-            lock_mode,
-            oid,
-        )));
-
-        // 3. Get or create lock queue for this table
-        let mut table_locks = self.lock_state_manager.table_lock_map.lock();
-        let queue = table_locks
-            .entry(oid)
-            .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
-
-        // 4. Try to grant the lock
-        let mut queue_guard = queue.lock();
-        let granted = queue_guard.grant_lock(request.clone());
-
-        // 5. If granted, update transaction's lock set
-        if granted {
-            let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-            let lock_state = txn_locks
-                .entry(txn.get_transaction_id())
-                .or_insert_with(|| TxnLockState {
-                    table_locks: HashSet::new(),
-                    row_locks: HashSet::new(),
-                });
-            lock_state.table_locks.insert(oid);
-        } else {
-            // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
-            }
+        let granted =
+            self.lock_state_manager
+                .grant_table_lock(txn.get_transaction_id(), lock_mode, oid);
 
-            // 7. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // Check for deadlock
+        if !granted && self.check_deadlock(txn.clone())? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1134,34 +1113,31 @@ impl LockManager {
         match txn.get_isolation_level() {
             IsolationLevel::RepeatableRead => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::ReadCommitted => {
                 if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::ReadUncommitted => {
                 if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::Serializable => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::Snapshot => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
         }
 
-        // 5. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
-
         Ok(true)
     }
 
@@ -1236,29 +1212,13 @@ impl LockManager {
             return Err(LockError::TableLockNotPresent);
         }
 
-        // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
-
-        if !granted {
-            // 5. If not granted, add edge to waits-for graph
-            let row_locks = self.lock_state_manager.row_locks.lock();
-            if let Some(queue) = row_locks.get(&rid) {
-                let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
-                }
-            }
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
-            // 6. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // Check for deadlock
+        if !granted && self.check_deadlock(txn.clone())? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1291,49 +1251,54 @@ impl LockManager {
 
         // 2. Release the lock
         self.lock_state_manager
-            .release_row_lock(txn.get_transaction_id(), rid)?;
+            .release_row_lock(txn.get_transaction_id(), oid, rid)?;
 
         // 3. Update transaction state based on isolation level and lock mode
         match txn.get_isolation_level() {
             IsolationLevel::RepeatableRead => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::ReadCommitted => {
                 if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::ReadUncommitted => {
                 if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::Serializable => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
             IsolationLevel::Snapshot => {
                 if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
+                    Self::start_shrinking(&txn);
                 }
             },
         }
 
-        // 4. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
-
         Ok(true)
     }
 
+    /// Ends the growing phase of a transaction that has released a lock, unless it has ended
+    /// altogether.
+    fn start_shrinking(txn: &Transaction) {
+        if matches!(
+            txn.get_state(),
+            TransactionState::Running | TransactionState::Growing
+        ) {
+            txn.set_state(TransactionState::Shrinking);
+        }
+    }
+
     /// Releases all locks from all transactions (for testing/reset).
     pub fn unlock_all(&self) -> Result<bool, LockError> {
-        // 1. Get all lock sets
-        let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-
-        // 2. Clear all lock queues
+        // 1. Clear all lock queues
         {
             let mut table_locks = self.lock_state_manager.table_lock_map.lock();
             table_locks.clear();
@@ -1343,10 +1308,10 @@ impl LockManager {
             row_locks.clear();
         }
 
-        // 3. Clear transaction lock sets
-        txn_locks.clear();
+        // 2. Clear transaction lock sets
+        self.lock_state_manager.txn_lock_sets.lock().clear();
 
-        // 4. Clear deadlock detection graph
+        // 3. Clear deadlock detection graph
         {
             let mut waits_for = self.deadlock_detector.waits_for.lock();
             waits_for.clear();
@@ -1366,9 +1331,7 @@ impl LockManager {
     ///
     /// If so, sets the transaction state to Aborted and returns `Ok(true)`.
     pub fn check_deadlock(&self, txn: Arc<Transaction>) -> Result<bool, LockError> {
-        if let Some(abort_txn) = self.deadlock_detector.get_and_clear_abort_txn()
-            && abort_txn == txn.get_transaction_id()
-        {
+        if self.deadlock_detector.take_victim(txn.get_transaction_id()) {
             txn.set_state(TransactionState::Aborted);
             return Ok(true);
         }
@@ -1413,6 +1376,7 @@ impl Clone for LockManager {
                 table_lock_map: Mutex::new(self.lock_state_manager.table_lock_map.lock().clone()),
                 row_locks: Mutex::new(self.lock_state_manager.row_locks.lock().clone()),
                 txn_lock_sets: Mutex::new(self.lock_state_manager.txn_lock_sets.lock().clone()),
+                waits_for: Arc::clone(&self.lock_state_manager.waits_for),
             },
             lock_validator: LockValidator {},
         }
-- 
2.43.0


From 29d6c24fb946e54e327569318e7179f1d699821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 17/45] fix: transactions: rollback, snapshots, commit
 visibility and write conflicts

---
 src/concurrency/transaction_manager.rs        | 262 +++++++-----------
 .../transaction_manager_factory.rs            |  10 +-
 src/concurrency/watermark.rs                  |   8 +
 src/storage/page/page_types/table_page.rs     |  21 +-
 src/storage/table/table_heap.rs               | 143 ++++------
 src/storage/table/transactional_table_heap.rs |  79 ++++--
 6 files changed, 247 insertions(+), 276 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..0426289 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -455,8 +455,8 @@ impl TransactionManager {
 
         // Update transaction map and running transactions atomically
         {
-            let mut txn_map = self.state.txn_map.write();
             let mut running_txns = self.state.running_txns.write();
+            let mut txn_map = self.state.txn_map.write();
 
             // Get and set read timestamp using watermark
             let read_ts = running_txns.get_next_ts_and_register();
@@ -513,9 +513,13 @@ impl TransactionManager {
         }
 
         // Use logical watermark-based commit to set commit_ts and update running set
-        {
-            let mut running_txns = self.state.running_txns.write();
-            txn.commit(&mut running_txns);
+        // The running set stays locked until every row carries the commit timestamp: a snapshot
+        // taken after the commit must see all of it.
+        let mut running_txns = self.state.running_txns.write();
+        txn.commit(&mut running_txns);
+        if txn.get_state() != TransactionState::Committed {
+            // Chosen as a deadlock victim in the meantime
+            return false;
         }
 
         // Update transaction map after commit
@@ -572,6 +576,7 @@ impl TransactionManager {
                 );
             }
         }
+        drop(running_txns);
 
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
@@ -608,11 +613,14 @@ impl TransactionManager {
                 return;
             },
             TransactionState::Aborted => {
-                log::warn!(
-                    "ABORT: txn {} already aborted, skipping second abort",
-                    txn.txn_id_human_readable()
-                );
-                return;
+                // A deadlock victim is marked aborted before it has been rolled back
+                if !self.state.running_txns.read().is_active(txn.read_ts()) {
+                    log::warn!(
+                        "ABORT: txn {} already aborted, skipping second abort",
+                        txn.txn_id_human_readable()
+                    );
+                    return;
+                }
             },
         }
 
@@ -636,166 +644,17 @@ impl TransactionManager {
                 table_oid,
                 rid
             );
-            if let Some(table_heap) = self.get_table_heap(table_oid) {
-                log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
-
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
-
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
-                            }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
-                    } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
-
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
-                    }
-
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
-                } else {
-                    log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
-                        rid
-                    );
-                    // If no undo link exists, this was a newly inserted tuple
-                    // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
-                }
+            if let Some(table_heap) = self.get_table_heap(table_oid)
+                && let Err(e) = self.rollback_row(&txn, &table_heap, rid)
+            {
+                log::error!("ABORT: Failed to roll back RID {:?}: {}", rid, e);
             }
         }
 
         // Update transaction state and remove from running transactions
         {
-            let mut txn_map = self.state.txn_map.write();
             let mut running_txns = self.state.running_txns.write();
+            let mut txn_map = self.state.txn_map.write();
 
             running_txns.remove_txn(txn.read_ts());
             txn.set_state(TransactionState::Aborted);
@@ -806,6 +665,80 @@ impl TransactionManager {
         self.prune_completed_transactions();
     }
 
+    /// Takes back everything `txn` did to one row: the version before its first write becomes the
+    /// head of the chain again.
+    ///
+    /// The version and its undo link change together under the page's write latch. A row that
+    /// `txn` wrote more than once is in its write set more than once; after the first of them
+    /// the row is no longer its own and is left alone.
+    fn rollback_row(
+        &self,
+        txn: &Transaction,
+        table_heap: &TransactionalTableHeap,
+        rid: RID,
+    ) -> Result<(), String> {
+        let txn_id = txn.get_transaction_id();
+        let page_guard = table_heap
+            .get_table_heap()
+            .get_bpm()
+            .fetch_page::<TablePage>(rid.get_page_id())
+            .ok_or_else(|| "failed to fetch page".to_string())?;
+        let mut page = page_guard.write();
+        let (meta, _) = page
+            .get_tuple(&rid, true)
+            .map_err(|e| format!("failed to read tuple: {}", e))?;
+        if meta.get_creator_txn_id() != txn_id || meta.is_committed() {
+            return Ok(());
+        }
+
+        // The undo log of this transaction's first write to the row
+        let mut first = None;
+        let mut link = self.get_undo_link(rid).filter(|l| l.prev_txn == txn_id);
+        while let Some(l) = link {
+            let log = self.get_undo_log(l)?;
+            let prev = log.prev_version.clone();
+            link = (log.ts == INVALID_TS && prev.prev_txn == txn_id && prev.is_valid())
+                .then_some(prev);
+            first = Some(log);
+        }
+
+        match first {
+            // A row of somebody else's: restore the version it had
+            Some(log) if log.prev_version.prev_txn != txn_id || log.ts != INVALID_TS => {
+                let mut meta = TupleMeta::new(log.prev_version.prev_txn);
+                if log.ts == INVALID_TS {
+                    meta.set_commit_timestamp_opt(None);
+                } else {
+                    meta.set_commit_timestamp(log.ts);
+                }
+                // Only live rows can be written, so only a log without a row can be a tombstone
+                meta.set_deleted(log.original_rid.is_none() && log.is_deleted);
+                let prev_link = log
+                    .prev_version
+                    .is_valid()
+                    .then(|| log.prev_version.clone());
+                if let Some(l) = &prev_link {
+                    meta.set_undo_log_idx(l.prev_log_idx)
+                        .map_err(|e| format!("invalid undo log index: {}", e))?;
+                }
+                page.update_tuple(meta, &log.tuple, rid)
+                    .map_err(|e| format!("failed to restore tuple: {}", e))?;
+                self.update_undo_link(rid, prev_link, None);
+            },
+            // Its own insert: the row never existed
+            _ => {
+                let mut meta = TupleMeta::new(txn_id);
+                meta.set_deleted(true);
+                // Aborted inserts have no commit timestamp.
+                meta.set_commit_timestamp_opt(None);
+                page.update_tuple_meta(meta, &rid)
+                    .map_err(|e| format!("failed to mark tuple as deleted: {}", e))?;
+                self.update_undo_link(rid, None, None);
+            },
+        }
+        Ok(())
+    }
+
     /// Performs garbage collection of old tuple versions.
     ///
     /// This method removes undo links and version information that are no longer
@@ -829,7 +762,8 @@ impl TransactionManager {
             // Retain only links that point to transactions newer than watermark
             page_info.prev_link.write().retain(|_, link| {
                 if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
+                    // The newest version may be missing from a snapshot still in use
+                    txn.get_state() != TransactionState::Committed || txn.commit_ts() > watermark
                 } else {
                     false
                 }
diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index bb76789..ae1658f 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -115,7 +115,7 @@
 //!
 //! ```rust,ignore
 //! use crate::concurrency::transaction_manager_factory::TransactionManagerFactory;
-//! use crate::concurrency::transaction::IsolationLevel;
+//! use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 //!
 //! // Create factory with WAL support
 //! let factory = TransactionManagerFactory::with_wal_manager(bpm, wal_manager);
@@ -145,7 +145,7 @@ use log::{error, warn};
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::common::config::INVALID_LSN;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::IsolationLevel;
+use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -306,6 +306,12 @@ impl TransactionManagerFactory {
     pub async fn commit_transaction(&self, ctx: Arc<TransactionContext>) -> bool {
         let txn = ctx.get_transaction();
 
+        // A deadlock victim cannot commit; it must not get a commit record either
+        if txn.get_state() == TransactionState::Aborted {
+            self.abort_transaction(ctx);
+            return false;
+        }
+
         // Write commit record before persisting data (WAL-first).
         if let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
diff --git a/src/concurrency/watermark.rs b/src/concurrency/watermark.rs
index b72a603..cd6e941 100644
--- a/src/concurrency/watermark.rs
+++ b/src/concurrency/watermark.rs
@@ -351,6 +351,14 @@ impl Watermark {
         ts
     }
 
+    /// Returns whether a transaction with this read timestamp is still registered.
+    ///
+    /// # Parameters
+    /// - `ts`: The read timestamp to look up.
+    pub fn is_active(&self, ts: Timestamp) -> bool {
+        self.active_txns.contains(&ts)
+    }
+
     /// Unregisters a transaction and returns the updated watermark.
     ///
     /// This is the typical exit point for completing a transaction. It combines
diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 6c3e08c..ea4ef8c 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -332,8 +332,11 @@ impl TablePage {
             // Update metadata in tuple_info
             self.tuple_info[tuple_id].2 = meta;
 
-            // Update the size to reflect the actual new size
-            self.tuple_info[tuple_id].1 = new_size;
+            // An uncommitted version keeps the room of the version it replaces, so that rolling
+            // it back cannot run out of space; the commit gives up what is left over.
+            if meta.is_committed() {
+                self.tuple_info[tuple_id].1 = new_size;
+            }
 
             // Update the tuple data
             let start = current_offset as usize;
@@ -411,6 +414,17 @@ impl TablePage {
         }
     }
 
+    /// Shrinks a slot that was kept larger than its tuple for the sake of a rollback.
+    fn release_reserved_room(&mut self, tuple_id: usize) {
+        let (offset, size, _) = self.tuple_info[tuple_id];
+        let (start, end) = (offset as usize, offset as usize + size as usize);
+        if end <= self.data.len()
+            && let Ok((_, rest)) = postcard::take_from_bytes::<Tuple>(&self.data[start..end])
+        {
+            self.tuple_info[tuple_id].1 = size - rest.len() as u16;
+        }
+    }
+
     /// Moves all tuples to the end of the page, leaving no gaps between them.
     fn compact(&mut self) {
         let old = self.data.clone();
@@ -492,6 +506,9 @@ impl TablePage {
 
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
+        if meta.is_committed() {
+            self.release_reserved_room(tuple_id);
+        }
         self.is_dirty = true;
         self.encode();
 
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..1245429 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -231,7 +231,9 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TXN_ID, PageId, TableOidT};
+use crate::common::config::{
+    INVALID_PAGE_ID, INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp,
+};
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockManager;
@@ -613,44 +615,13 @@ impl TableHeap {
                 // If the latest version is uncommitted (update/delete) by another txn,
                 // walk the version chain to find the latest committed version.
                 else {
-                    let txn_manager = txn_ctx.get_transaction_manager();
-                    let current_link = txn_manager.get_undo_link(rid);
-
-                    if let Some(ref undo_link) = current_link {
-                        let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                            Ok(log) => log,
-                            Err(e) => return Err(format!("Undo log missing: {}", e)),
-                        };
-
-                        let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                        prev_meta.set_commit_timestamp(undo_log.ts);
-                        let prev_deleted = if undo_log.original_rid.is_some() {
-                            // Delete undo logs store the pre-delete version; treat it as live.
-                            false
-                        } else {
-                            undo_log.is_deleted
-                        };
-                        prev_meta.set_deleted(prev_deleted);
-                        if undo_log.prev_version.is_valid() {
-                            prev_meta
-                                .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                                .map_err(|e| e.to_string())?;
-                        } else {
-                            prev_meta.clear_undo_log_idx();
-                        }
-
-                        if prev_meta.is_deleted() {
-                            return Err("Tuple is deleted".to_string());
-                        }
-                        // First committed version in chain is what READ_COMMITTED should see.
-                        Ok((Arc::new(prev_meta), undo_log.tuple.clone()))
-                    } else {
-                        Err("No visible version found".to_string())
-                    }
+                    Self::visible_in_chain(rid, &txn_ctx, Timestamp::MAX)
                 }
             },
 
-            IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
+            IsolationLevel::RepeatableRead
+            | IsolationLevel::Serializable
+            | IsolationLevel::Snapshot => {
                 let read_ts = txn.read_ts();
                 match meta.visibility_status(txn_id, read_ts) {
                     TupleVisibility::Visible => return Ok((Arc::new(meta), Arc::new(tuple))),
@@ -658,61 +629,61 @@ impl TableHeap {
                     TupleVisibility::Invisible => { /* continue into version chain */ },
                 }
 
-                // If the latest version isn't visible, check the version chain
-                let txn_manager = txn_ctx.get_transaction_manager();
-                let mut current_link = txn_manager.get_undo_link(rid);
-
-                while let Some(ref undo_link) = current_link {
-                    let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => return Err(format!("Undo log missing: {}", e)),
-                    };
-
-                    let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                    prev_meta.set_commit_timestamp(undo_log.ts);
-                    let prev_deleted = if undo_log.original_rid.is_some() {
-                        // Delete undo logs store the pre-delete version; treat it as live.
-                        false
-                    } else {
-                        undo_log.is_deleted
-                    };
-                    prev_meta.set_deleted(prev_deleted);
-                    if undo_log.prev_version.is_valid() {
-                        prev_meta
-                            .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                            .map_err(|e| e.to_string())?;
-                    } else {
-                        prev_meta.clear_undo_log_idx();
-                    }
+                // If not visible, walk the version chain.
+                Self::visible_in_chain(rid, &txn_ctx, read_ts)
+            },
+        }
+    }
 
-                    match prev_meta.visibility_status(txn_id, read_ts) {
-                        TupleVisibility::Visible => {
-                            return Ok((Arc::new(prev_meta), undo_log.tuple.clone()));
-                        },
-                        TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
-                        TupleVisibility::Invisible => { /* keep walking */ },
-                    }
+    /// Walks a row's undo logs to the newest version the reader may see as of `read_ts`.
+    fn visible_in_chain(
+        rid: RID,
+        txn_ctx: &TransactionContext,
+        read_ts: Timestamp,
+    ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
+        let txn_id = txn_ctx.get_transaction().get_transaction_id();
+        let txn_manager = txn_ctx.get_transaction_manager();
+        let mut current_link = txn_manager.get_undo_link(rid);
+
+        while let Some(ref undo_link) = current_link {
+            let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
+                Ok(log) => log,
+                Err(e) => return Err(format!("Undo log missing: {}", e)),
+            };
 
-                    current_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                }
+            let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
+            // A version its writer overwrote itself was never committed
+            if undo_log.ts == INVALID_TS {
+                prev_meta.set_commit_timestamp_opt(None);
+            } else {
+                prev_meta.set_commit_timestamp(undo_log.ts);
+            }
+            // Delete undo logs store the pre-delete version; treat it as live.
+            prev_meta.set_deleted(undo_log.original_rid.is_none() && undo_log.is_deleted);
+            if undo_log.prev_version.is_valid() {
+                prev_meta
+                    .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
+                    .map_err(|e| e.to_string())?;
+            } else {
+                prev_meta.clear_undo_log_idx();
+            }
 
-                Err("No visible version found".to_string())
-            },
+            match prev_meta.visibility_status(txn_id, read_ts) {
+                TupleVisibility::Visible => {
+                    return Ok((Arc::new(prev_meta), undo_log.tuple.clone()));
+                },
+                TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
+                TupleVisibility::Invisible => { /* keep walking */ },
+            }
 
-            IsolationLevel::Snapshot => {
-                // For SNAPSHOT, assume similar behavior to SERIALIZABLE for now
-                // This may involve checking for a consistent snapshot version
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
+            current_link = if undo_log.prev_version.is_valid() {
+                Some(undo_log.prev_version.clone())
+            } else {
+                None
+            };
         }
+
+        Err("No visible version found".to_string())
     }
 
     /// Reads a tuple meta from the table. Note: if you want to get the tuple and meta together,
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..e1bee5a 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -448,7 +448,12 @@ impl TransactionalTableHeap {
 
         // Get latest version
         // Important: allow reading deleted tuples so MVCC can interpret tombstones.
-        let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
+        // The page stays latched until the chain has been walked: a version and its undo link
+        // are replaced together under the page's write latch.
+        let page_guard = self.table_heap.get_page(rid.get_page_id())?;
+        let page = page_guard.read();
+        let (meta, tuple) = page.get_tuple(&rid, true)?;
+        let (meta, tuple) = (Arc::new(meta), Arc::new(tuple));
 
         // Handle visibility based on isolation level
         match txn.get_isolation_level() {
@@ -468,17 +473,20 @@ impl TransactionalTableHeap {
                     }
                 } else {
                     // Head version is uncommitted by another transaction; walk the chain
-                    // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
+                    // to find the latest committed version, however recent.
+                    self.get_visible_version(rid, txn, txn_manager, meta, tuple, Timestamp::MAX)
                 }
             },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
+            _ => {
+                let read_ts = txn.read_ts();
+                self.get_visible_version(rid, txn, txn_manager, meta, tuple, read_ts)
+            },
         }
     }
 
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -490,15 +498,22 @@ impl TransactionalTableHeap {
             return Err("Transaction not in running state".to_string());
         }
 
+        // The check for a conflict, the undo log and the update are one step
+        let _latch = self.table_heap.acquire_table_write_lock();
+        let page_guard = self.table_heap.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+
         // Get current version for visibility check
-        let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
+        let (current_meta, current_tuple) = page.get_tuple(&rid, false)?;
+        let current_tuple = Arc::new(current_tuple);
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
+        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
             && !current_meta.is_committed()
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
         }
+        Self::check_write_conflict(&current_meta, &txn)?;
 
         // Create undo log with link to current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -554,9 +569,6 @@ impl TransactionalTableHeap {
             current_meta.get_undo_log_idx_raw_opt()
         );
 
-        // Update the undo link to point to the current version
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         // Uncommitted versions should not have a commit timestamp.
@@ -573,12 +585,30 @@ impl TransactionalTableHeap {
         );
 
         // Perform update
-        let result = self
-            .table_heap
-            .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
+        page.update_tuple(new_meta, tuple, rid)
+            .map_err(|e| format!("Failed to update tuple: {}", e))?;
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
-        Ok(result)
+        Ok(rid)
+    }
+
+    /// Above read-committed the first updater wins: a version committed after the
+    /// transaction's snapshot must not be overwritten unseen.
+    fn check_write_conflict(current_meta: &TupleMeta, txn: &Transaction) -> Result<(), String> {
+        let snapshot = !matches!(
+            txn.get_isolation_level(),
+            IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted
+        );
+        if snapshot
+            && current_meta.get_creator_txn_id() != txn.get_transaction_id()
+            && current_meta
+                .get_commit_timestamp()
+                .is_some_and(|ts| ts > txn.read_ts())
+        {
+            return Err("Write-write conflict: tuple changed after this snapshot".to_string());
+        }
+        Ok(())
     }
 
     // Helper method for REPEATABLE_READ and SERIALIZABLE
@@ -589,9 +619,9 @@ impl TransactionalTableHeap {
         txn_manager: Arc<TransactionManager>,
         meta: Arc<TupleMeta>,
         tuple: Arc<Tuple>,
+        read_ts: Timestamp,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
@@ -747,8 +777,14 @@ impl TransactionalTableHeap {
         // lock_manager.lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
+        // The check for a conflict, the undo log and the tombstone are one step
+        let _latch = self.table_heap.acquire_table_write_lock();
+        let page_guard = self.table_heap.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+
         // Get the current version for visibility check
-        let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
+        let (current_meta, current_tuple) = page.get_tuple(&rid, false)?;
+        let current_tuple = Arc::new(current_tuple);
 
         // Visibility checks
         if current_meta.get_creator_txn_id() != txn.get_transaction_id()
@@ -756,6 +792,7 @@ impl TransactionalTableHeap {
         {
             return Err("Cannot delete uncommitted tuple from another transaction".to_string());
         }
+        Self::check_write_conflict(&current_meta, &txn)?;
 
         // Create undo log with a link to the current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -799,9 +836,6 @@ impl TransactionalTableHeap {
             undo_link.prev_log_idx
         );
 
-        // Update version chain
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         new_meta.set_deleted(true); // Mark as deleted
@@ -819,8 +853,9 @@ impl TransactionalTableHeap {
         );
 
         // Update the tuple with deleted metadata
-        self.table_heap
-            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+        page.update_tuple(new_meta, &current_tuple, rid)
+            .map_err(|e| format!("Failed to delete tuple: {}", e))?;
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From 36bab2aa084cae8b88cb125dbeffbd269a80423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 18/45] fix: extendible hash table: tell colliding buckets
 apart when splitting, keep both halves of a merged bucket addressed

A split distributed the entries by the bucket's old bits, a failed directory growth leaked the new bucket, and a merge updated only one of the two directory entries.
---
 src/container/disk_extendable_hash_table.rs   | 22 ++++++++++---------
 .../extendable_hash_table_directory_page.rs   | 11 +++++-----
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 1e2e4ea..7f91804 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -538,11 +538,11 @@ impl DiskExtendableHashTable {
         };
 
         // If removal was successful and bucket is empty, try to merge
-        if removed {
-            let is_empty = bucket_page.read().is_empty();
-            if is_empty {
-                self.merge_bucket(directory_index, bucket_index);
-            }
+        let is_empty = bucket_page.read().is_empty();
+        if removed && is_empty {
+            // A page still in use cannot be deleted
+            drop(bucket_page);
+            self.merge_bucket(directory_index, bucket_index);
         }
 
         removed
@@ -678,15 +678,14 @@ impl DiskExtendableHashTable {
                 let entries = old_bucket.get_all_entries();
                 old_bucket.clear();
 
-                // Redistribute entries based on the new local depth
-                let new_local_depth = directory.get_local_depth(bucket_index as u32);
-                let mask = (1 << new_local_depth) - 1;
+                // The bit the split tells apart decides which bucket the directory
+                // sends a key to, whichever of the two `bucket_index` now refers to.
+                let distinguishing_bit = 1u32 << local_depth;
 
                 for (key, value) in entries {
                     let hash = self.hash_fn.get_hash(&key) as u32;
-                    let target_bucket_index = hash & mask;
 
-                    if target_bucket_index == bucket_index as u32 {
+                    if hash & distinguishing_bit == 0 {
                         old_bucket.insert(key, value);
                     } else {
                         new_bucket.insert(key, value);
@@ -697,6 +696,9 @@ impl DiskExtendableHashTable {
             }
         }
 
+        // The directory cannot grow: the new bucket is not needed
+        drop(new_bucket_page);
+        let _ = self.bpm.delete_page(new_bucket_page_id);
         false
     }
 
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 7988c4c..7d32cd5 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -630,18 +630,19 @@ impl ExtendableHTableDirectoryPage {
         }
 
         let buddy_page_id = self.get_bucket_page_id(buddy_bucket_index)?;
+        let removed_page_id = self.get_bucket_page_id(bucket_index)?;
 
-        // Update all entries pointing to this bucket to point to buddy
-        let mask = (1 << local_depth) - 1;
+        // All entries of the pair now share the buddy, one bit shallower
+        let mask = (1 << (local_depth - 1)) - 1;
         for i in 0..(1 << self.get_global_depth()) {
-            if (i & mask) == bucket_index {
+            if (i & mask) == (bucket_index & mask) {
                 self.set_bucket_page_id(i, buddy_page_id);
                 self.set_local_depth(i, local_depth - 1);
             }
         }
 
         // Return the page ID of the bucket being removed
-        self.get_bucket_page_id(bucket_index)
+        Some(removed_page_id)
     }
 
     // Helper method to find the correct bucket index for a given page ID
@@ -656,7 +657,7 @@ impl ExtendableHTableDirectoryPage {
 
     /// Grows the directory by doubling its size
     fn grow_directory(&mut self) -> bool {
-        if self.global_depth >= self.max_depth {
+        if self.global_depth >= self.max_depth || self.get_size() >= self.max_size() {
             debug!(
                 "Cannot increase global depth {} past max depth {}",
                 self.global_depth, self.max_depth
-- 
2.43.0


From b3381333cce83e37ca08ef8cf0e38937a8a30478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:44 +0000
Subject: [PATCH 19/45] fix: B+ tree index: structure changes exclude other
 operations, splits and merges keep every child and separator

Internal splits, merges and redistributions lost or duplicated children, separators were looked up by value after they had changed, and concurrent operations walked nodes that were being merged.
---
 src/storage/index/b_plus_tree_index.rs        | 362 ++++++------------
 .../page_types/b_plus_tree_internal_page.rs   |  38 ++
 2 files changed, 150 insertions(+), 250 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c83dffa..570c60e 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -151,6 +151,7 @@ use std::marker::PhantomData;
 use std::sync::Arc;
 
 use log::debug;
+use parking_lot::RwLock;
 use thiserror::Error;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
@@ -292,6 +293,10 @@ where
     buffer_pool_manager: Arc<BufferPoolManager>,
     /// ID of the header page for this B+ tree
     header_page_id: PageId,
+    /// Splits, merges and anything else that changes the shape of the tree hold this
+    /// exclusively; whoever only follows the shape down to the leaves shares it. The
+    /// contents of a leaf are protected by its page's own latch.
+    latch: RwLock<()>,
     /// Marker for generic types
     _marker: PhantomData<(K, V)>,
 }
@@ -326,6 +331,7 @@ where
             metadata: Box::new(metadata),
             buffer_pool_manager,
             header_page_id: INVALID_PAGE_ID,
+            latch: RwLock::new(()),
             _marker: PhantomData,
         }
     }
@@ -401,6 +407,7 @@ where
     /// but does not implement full latch crabbing. For high-concurrency workloads,
     /// consider using external synchronization or a concurrent B+ tree variant.
     pub fn insert(&self, key: K, value: V) -> Result<(), BPlusTreeError> {
+        let _latch = self.latch.write();
         // If tree is not initialized, initialize it first
         if self.header_page_id == INVALID_PAGE_ID {
             return Err(BPlusTreeError::BufferPoolError(
@@ -546,6 +553,7 @@ where
 
     /// Search for a key in the B+ tree
     pub fn search(&self, key: &K) -> Result<Option<V>, BPlusTreeError> {
+        let _latch = self.latch.read();
         // Check if the tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             return Ok(None);
@@ -579,6 +587,7 @@ where
 
     /// Remove a key-value pair from the B+ tree
     pub fn remove(&self, key: &K) -> Result<bool, BPlusTreeError> {
+        let _latch = self.latch.write();
         // Check if tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             return Ok(false);
@@ -635,6 +644,9 @@ where
         // If leaf is root and now empty, update tree to be empty
         if leaf.is_root() && leaf.get_size() == 0 {
             self.update_header(INVALID_PAGE_ID, 0, 0)?;
+            drop(leaf);
+            drop(leaf_page);
+            let _ = self.buffer_pool_manager.delete_page(root_page_id);
             return Ok(true);
         }
 
@@ -660,6 +672,7 @@ where
 
     /// Custom range scan to find all keys in a given range [start, end]
     pub fn range_scan(&self, start: &K, end: &K) -> Result<Vec<(K, V)>, BPlusTreeError> {
+        let _latch = self.latch.read();
         // Validate input range
         if (self.comparator)(start, end) == Ordering::Greater {
             return Ok(Vec::new()); // Empty range, return empty vector
@@ -1186,17 +1199,19 @@ where
         };
 
         if root_page_id == INVALID_PAGE_ID {
-            return self.insert_into_empty_tree(key, value);
+            return self.insert(key, value);
         }
 
         // Try optimistic insert first (fast path for non-splitting inserts)
-        match self.try_optimistic_insert(key.clone(), value.clone())? {
-            OptimisticResult::Success(()) => Ok(()),
-            OptimisticResult::NeedRestart => {
+        match self.try_optimistic_insert(key.clone(), value.clone()) {
+            Ok(OptimisticResult::Success(())) => Ok(()),
+            // The tree may have become empty in the meantime
+            Ok(OptimisticResult::NeedRestart) | Err(BPlusTreeError::KeyNotFound) => {
                 // Fall back to standard insert which handles splits correctly
                 debug!("Optimistic insert not safe, using standard insert path");
                 self.insert(key, value)
             },
+            Err(e) => Err(e),
         }
     }
 
@@ -1208,6 +1223,7 @@ where
         key: K,
         value: V,
     ) -> Result<OptimisticResult<()>, BPlusTreeError> {
+        let _latch = self.latch.read();
         let traversal = self.traverse_optimistic(&key, OperationType::Insert)?;
 
         if !traversal.is_safe {
@@ -1239,16 +1255,13 @@ where
             }
 
             // Insert new key-value pair
-            let inserted = leaf.insert_key_value(key, value);
-            if !inserted {
-                // Leaf was unexpectedly full (concurrent change or corrupted invariants).
-                // Restart so the caller can use the standard insert (which handles splits).
+            if !leaf.insert_key_value(key, value) {
                 return Ok(OptimisticResult::NeedRestart);
             }
-        }
 
-        // If we got here, we successfully inserted a new key (not an update).
-        self.increment_num_keys()?;
+            // Counted before anyone can see, and remove, the key
+            self.increment_num_keys()?;
+        }
 
         Ok(OptimisticResult::Success(()))
     }
@@ -1295,6 +1308,7 @@ where
     ///
     /// This is the fast path for removals that don't cause underflow.
     fn try_optimistic_remove(&self, key: &K) -> Result<OptimisticResult<bool>, BPlusTreeError> {
+        let _latch = self.latch.read();
         let traversal = match self.traverse_optimistic(key, OperationType::Delete) {
             Ok(t) => t,
             Err(BPlusTreeError::KeyNotFound) => return Ok(OptimisticResult::Success(false)),
@@ -1326,13 +1340,16 @@ where
                 return Ok(OptimisticResult::Success(false));
             }
 
-            // Remove the key
+            // Others may have taken keys since the traversal; the last key of the tree
+            // takes its root along
+            if !leaf.is_safe_for(OperationType::Delete) || leaf.get_size() <= 1 {
+                return Ok(OptimisticResult::NeedRestart);
+            }
+
             leaf.remove_key_value_at(key_index);
+            self.decrement_num_keys()?;
         }
 
-        // Decrement key count
-        self.decrement_num_keys()?;
-
         Ok(OptimisticResult::Success(true))
     }
 
@@ -1442,29 +1459,7 @@ where
             leaf_write.set_root_status(false);
         } else {
             // Get parent page ID from the path (O(1) instead of O(n) BFS)
-            let parent_page_id = Self::get_parent_from_path(path)?;
-            let parent_page = self
-                .buffer_pool_manager
-                .fetch_page::<BPlusTreeInternalPage<K, C>>(parent_page_id)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Failed to fetch parent page".to_string())
-                })?;
-
-            // Insert the separator key into the parent
-            let mut parent_write = parent_page.write();
-            parent_write.insert_key_value(separator_key, new_page_id);
-
-            // Check if parent is now full and needs splitting
-            if parent_write.get_size() >= self.calculate_internal_max_size() {
-                // Release parent write lock first
-                drop(parent_write);
-
-                // Get the path to the parent's ancestors for recursive split
-                let grandparent_path = Self::get_grandparent_path(path);
-
-                // Recursively split the parent
-                self.split_internal_page(&parent_page, &grandparent_path)?;
-            }
+            self.insert_into_parent(path, original_page_id, separator_key, new_page_id)?;
         }
 
         Ok(())
@@ -1509,44 +1504,18 @@ where
             let mut internal_write = internal_page.write();
             let mut new_internal_write = new_page.write();
 
-            // Initialize the new internal page
             new_internal_write.set_root_status(false);
 
-            // Determine split point - floor(max_size/2)
-            let split_point = internal_max_size / 2;
-            let current_size = internal_write.get_size();
-
-            // The middle key (at split_point) will be promoted to the parent
-            middle_key = internal_write
-                .get_key_at(split_point)
-                .ok_or(BPlusTreeError::InvalidPageType)?
-                .clone();
-
-            // Get the child that will be the leftmost pointer in the new page
-            // (This is the child pointer that goes immediately after the middle key)
-            let child_after_middle = internal_write
-                .get_value_at(split_point + 1)
-                .ok_or(BPlusTreeError::InvalidPageType)?;
-
-            // First insert the leftmost child pointer in the new page
-            // For an internal page, we need to setup the first child before any keys
-            new_internal_write.insert_key_value(middle_key.clone(), child_after_middle);
-            // This added a key and two pointers, but we only wanted one pointer (leftmost)
-            // We'll overwrite with the remaining keys and values
-
-            // Now move the remaining keys and values
-            for i in (split_point + 1)..current_size {
-                if let Some(key) = internal_write.get_key_at(i)
-                    && let Some(child_id) = internal_write.get_value_at(i + 1)
-                {
-                    new_internal_write.insert_key_value(key.clone(), child_id);
-                }
-            }
+            // The middle key moves up to the parent: what it separates stays with the
+            // two halves
+            let (mut keys, mut children) = internal_write.contents();
+            let split_point = keys.len() / 2;
+            let right_keys = keys.split_off(split_point + 1);
+            let right_children = children.split_off(split_point + 1);
+            middle_key = keys.pop().ok_or(BPlusTreeError::InvalidPageType)?;
 
-            // Now remove keys from original page: remove the middle key and all keys after it
-            for _ in split_point..current_size {
-                internal_write.remove_key_value_at(split_point);
-            }
+            internal_write.set_contents(keys, children);
+            new_internal_write.set_contents(right_keys, right_children);
         }
 
         // Now handle the parent insertion
@@ -1569,29 +1538,46 @@ where
             self.create_new_root(original_page_id, middle_key, new_page_id)?;
         } else {
             // Get parent page ID from the path (O(1) instead of O(n) BFS)
-            let parent_page_id = Self::get_parent_from_path(path)?;
-            let parent_page = self
-                .buffer_pool_manager
-                .fetch_page::<BPlusTreeInternalPage<K, C>>(parent_page_id)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Failed to fetch parent page".to_string())
-                })?;
+            self.insert_into_parent(path, original_page_id, middle_key, new_page_id)?;
+        }
 
-            // Insert the middle key into the parent, associating it with the new page ID
-            let mut parent_write = parent_page.write();
-            parent_write.insert_key_value(middle_key, new_page_id);
+        Ok(())
+    }
 
-            // Check if parent is now full and needs splitting
-            if parent_write.get_size() >= self.calculate_internal_max_size() {
-                // Release parent write lock first
-                drop(parent_write);
+    /// Adds the page split off from `left_page_id` to the parent, which splits in turn
+    /// if that is one key too many for it.
+    fn insert_into_parent(
+        &self,
+        path: &[PageId],
+        left_page_id: PageId,
+        separator_key: K,
+        right_page_id: PageId,
+    ) -> Result<(), BPlusTreeError> {
+        let parent_page_id = Self::get_parent_from_path(path)?;
+        let parent_page = self
+            .buffer_pool_manager
+            .fetch_page::<BPlusTreeInternalPage<K, C>>(parent_page_id)
+            .ok_or_else(|| {
+                BPlusTreeError::BufferPoolError("Failed to fetch parent page".to_string())
+            })?;
 
-                // Get the path to the parent's ancestors for recursive split
-                let grandparent_path = Self::get_grandparent_path(path);
+        let overflow = {
+            let mut parent_write = parent_page.write();
+            let (mut keys, mut children) = parent_write.contents();
+            let index = children
+                .iter()
+                .position(|child| *child == left_page_id)
+                .ok_or_else(|| {
+                    BPlusTreeError::BufferPoolError("Page not found in parent".to_string())
+                })?;
+            keys.insert(index, separator_key);
+            children.insert(index + 1, right_page_id);
+            parent_write.set_contents(keys, children);
+            parent_write.get_size() > parent_write.get_max_size()
+        };
 
-                // Recursively split the parent
-                self.split_internal_page(&parent_page, &grandparent_path)?;
-            }
+        if overflow {
+            self.split_internal_page(&parent_page, &Self::get_grandparent_path(path))?;
         }
 
         Ok(())
@@ -1658,7 +1644,7 @@ where
         left_write.set_next_page_id(right_write.get_next_page_id());
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -1801,11 +1787,7 @@ where
             // Update the separator key in parent to the first key in right page
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
-                // Fix: Replace set_key_at with proper method to update a key
-                if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
-                }
+                parent_write.set_key_at(parent_key_index, new_sep);
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
                     "Right page is unexpectedly empty after redistribution".to_string(),
@@ -1862,10 +1844,7 @@ where
             // Step 7: Update the separator key in parent to the first key in right page
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
-                if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
-                }
+                parent_write.set_key_at(parent_key_index, new_sep);
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
                     "Right page is unexpectedly empty after redistribution".to_string(),
@@ -1923,24 +1902,16 @@ where
             ));
         }
 
-        // 3. Move the separator key from parent to the left page
-        let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-            BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-        })?;
-        left_write.insert_key_value(separator_key, right_first_child);
-
-        // 4. Copy all keys and child pointers from right page to left page
-        // Skip the first child pointer of right page as it's already handled with the separator key
-        for i in 0..right_write.get_size() {
-            if let Some(key) = right_write.get_key_at(i)
-                && let Some(child_id) = right_write.get_value_at(i + 1)
-            {
-                left_write.insert_key_value(key.clone(), child_id);
-            }
-        }
+        // The separator comes down between the keys of the two
+        let (mut keys, mut children) = left_write.contents();
+        let (right_keys, right_children) = right_write.contents();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
+        left_write.set_contents(keys, children);
 
-        // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        // Remove the separator and the right page from the parent
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -2059,140 +2030,25 @@ where
             ));
         }
 
-        // Calculate target sizes after redistribution (approximately balanced)
-        let target_size = total_entries / 2;
-
-        // 4. Determine direction of redistribution
-        if left_size < right_size {
-            // Move entries from right to left
-            // First, get the leftmost child from right page
-            let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Move separator key from parent to left page, with rightmost child pointer
-            left_write.insert_key_value(separator_key, right_first_child);
-
-            // Calculate how many more keys to move (excluding the first child already moved)
-            let additional_keys_to_move = target_size - left_size - 1;
-
-            // Move additional keys and children from right to left
-            for i in 0..additional_keys_to_move {
-                let key_to_move = right_write.get_key_at(i);
-                let child_id_to_move = right_write.get_value_at(i + 1);
-
-                if let (Some(key), Some(child_id)) = (key_to_move, child_id_to_move) {
-                    left_write.insert_key_value(key, child_id);
-                }
-            }
-
-            // Get the new separator key from right page
-            let new_separator = right_write
-                .get_key_at(additional_keys_to_move)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Not enough keys in right page".to_string())
-                })?
-                .clone();
-
-            // Update parent with new separator key
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(new_separator, right_page.get_page_id());
-
-            // Update right page: remove moved keys and update leftmost child
-            // We need to keep the old rightmost child of right page as its new leftmost child
-            right_write
-                .get_value_at(additional_keys_to_move + 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Invalid right page layout".to_string())
-                })?;
-
-            // Remove the transferred keys/values from right page
-            for _ in 0..=additional_keys_to_move {
-                right_write.remove_key_value_at(0);
-            }
-        } else {
-            // Move entries from left to right
-
-            // First, get the rightmost key and child from left page
-            let left_size = left_write.get_size();
-            let left_last_key = left_write
-                .get_key_at(left_size - 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Left page has no keys".to_string())
-                })?
-                .clone();
-            let left_last_child = left_write.get_value_at(left_size).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Left page has invalid child count".to_string())
-            })?;
-
-            // Calculate how many keys to move
-            let keys_to_move = left_size - target_size;
-
-            // Save right page's leftmost child
-            right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
+        // The separator comes down between the keys of the two, and the key in the
+        // middle takes its place
+        let (mut keys, mut children) = left_write.contents();
+        let (right_keys, right_children) = right_write.contents();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
 
-            // Shift everything in right page to make room
-            // To avoid modifying while iterating, we'll collect all keys/values first
-            let right_size = right_write.get_size();
-            let mut right_kv_pairs = Vec::with_capacity(right_size);
-
-            for i in 0..right_size {
-                let key = right_write.get_key_at(i);
-                let child_id = right_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    right_kv_pairs.push((k, v));
-                }
-            }
-
-            // Clear right page except for its leftmost child pointer
-            while right_write.get_size() > 0 {
-                right_write.remove_key_value_at(0);
-            }
-
-            // Insert separator key from parent with left's rightmost child
-            right_write.insert_key_value(separator_key, left_last_child);
-
-            // Move the keys to move from left to right (except the last one that becomes the new separator)
-            let start_idx = left_size - keys_to_move;
-            let end_idx = left_size - 1; // Exclude the last key which becomes the separator
-
-            // Create a temporary vector of keys to move
-            let mut keys_to_move_vec = Vec::with_capacity(keys_to_move);
-            for i in start_idx..end_idx {
-                let key = left_write.get_key_at(i);
-                let child_id = left_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    keys_to_move_vec.push((k, v));
-                }
-            }
-
-            // Insert the keys to move
-            for (key, child_id) in keys_to_move_vec {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Put back the original keys in right page
-            for (key, child_id) in right_kv_pairs {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Update parent with last key from left as new separator
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(left_last_key, right_page.get_page_id());
+        let target_size = total_entries / 2;
+        let right_keys = keys.split_off(target_size + 1);
+        let right_children = children.split_off(target_size + 1);
+        let new_separator = keys.pop().ok_or_else(|| {
+            BPlusTreeError::BufferPoolError("Not enough keys for redistribution".to_string())
+        })?;
 
-            // Remove transferred keys from left page
-            // Store current size to avoid borrowing issues
-            let current_left_size = left_write.get_size();
-            for i in 0..keys_to_move {
-                left_write.remove_key_value_at(current_left_size - 1 - i);
-            }
-        }
+        left_write.set_contents(keys, children);
+        right_write.set_contents(right_keys, right_children);
+        parent_write.set_key_at(parent_key_index, new_separator);
 
-        // The locks will be released when the write guards are dropped
         Ok(())
     }
 
@@ -2739,6 +2595,7 @@ where
 
     /// Perform a level-order traversal (breadth-first) for debugging or visualization
     pub fn print_tree(&self) -> Result<(), BPlusTreeError> {
+        let _latch = self.latch.read();
         // Check if tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             println!("Empty tree - not initialized");
@@ -2877,6 +2734,7 @@ where
 
     /// Perform an in-order traversal of all keys (debug/verification)
     pub fn in_order_traversal(&self) -> Result<Vec<K>, BPlusTreeError> {
+        let _latch = self.latch.read();
         // If tree is empty, return empty vector
         if self.is_empty() {
             return Ok(Vec::new());
@@ -2982,6 +2840,7 @@ where
 
     /// Perform a pre-order traversal (useful for serialization)
     pub fn pre_order_traversal(&self) -> Result<Vec<PageId>, BPlusTreeError> {
+        let _latch = self.latch.read();
         // Check if tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             return Ok(Vec::new());
@@ -3035,6 +2894,7 @@ where
 
     /// Perform a post-order traversal (useful for safe deletion)
     pub fn post_order_traversal(&self) -> Result<Vec<PageId>, BPlusTreeError> {
+        let _latch = self.latch.read();
         // Check if tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             return Ok(Vec::new());
@@ -3094,6 +2954,7 @@ where
 
     /// Validate the B+Tree structure and return validation statistics
     pub fn validate_tree(&self) -> Result<ValidationStats, BPlusTreeError> {
+        let _latch = self.latch.read();
         // Check if tree is initialized
         if self.header_page_id == INVALID_PAGE_ID {
             return Ok(ValidationStats::new());
@@ -3313,6 +3174,7 @@ where
 
     /// Validate the linked list structure of leaf pages
     pub fn validate_leaf_links(&self) -> Result<(), BPlusTreeError> {
+        let _latch = self.latch.read();
         // Find the leftmost leaf
         let leftmost_leaf = match self.find_leftmost_leaf() {
             Ok(leaf) => leaf,
diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..5db3d66 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -661,6 +661,44 @@ impl<
         self.check_invariants().is_ok()
     }
 
+    /// The keys and children of this node: one child more than keys.
+    pub fn contents(&self) -> (Vec<KeyType>, Vec<PageId>) {
+        (self.keys.clone(), self.values.clone())
+    }
+
+    /// Replaces the keys and children of this node.
+    ///
+    /// The first child has no key: it holds everything below the first key.
+    pub fn set_contents(&mut self, keys: Vec<KeyType>, children: Vec<PageId>) {
+        debug_assert_eq!(keys.len() + 1, children.len());
+        self.size = keys.len();
+        self.keys = keys;
+        self.values = children;
+        self.is_dirty = true;
+    }
+
+    /// Removes a key and the child to its right. The leftmost child always stays.
+    pub fn remove_separator_at(&mut self, index: usize) -> bool {
+        if index >= self.keys.len() {
+            return false;
+        }
+        self.keys.remove(index);
+        self.values.remove(index + 1);
+        self.size = self.keys.len();
+        self.is_dirty = true;
+        true
+    }
+
+    /// Replaces one separator key, leaving the children as they are.
+    pub fn set_key_at(&mut self, index: usize, key: KeyType) -> bool {
+        if index >= self.keys.len() {
+            return false;
+        }
+        self.keys[index] = key;
+        self.is_dirty = true;
+        true
+    }
+
     /// Populate a new root node with two children
     /// Used when a child node splits and a new root needs to be created
     ///
-- 
2.43.0


From 25c0b3e090ddd8e88ee361654e988a5ccedddc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:44 +0000
Subject: [PATCH 20/45] fix: in-memory B+ tree: duplicates across leaves,
 merges of internal nodes, endless range iterators

Merging internal nodes removed two separators, splits placed the new node by key instead of by child, range scans started at the first leaf when every key was smaller, deletes raced with each other, and an iterator whose last key was below its end bound repeated it for ever.
---
 src/storage/index/b_plus_tree.rs        | 114 ++++++++++++------------
 src/storage/index/index_iterator_mem.rs |  14 ++-
 2 files changed, 68 insertions(+), 60 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..a1dec76 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -150,6 +150,8 @@ pub struct BPlusTree {
     root: Arc<RwLock<BPlusTreeNode>>,
     order: usize,
     metadata: Arc<IndexInfo>,
+    /// Shared by every handle on the tree: changes hold it exclusively, scans share it.
+    latch: Arc<RwLock<()>>,
 }
 
 impl BPlusTreeNode {
@@ -170,6 +172,7 @@ impl BPlusTree {
             root: Arc::new(RwLock::new(BPlusTreeNode::new(NodeType::Leaf))),
             order,
             metadata,
+            latch: Arc::new(RwLock::new(())),
         }
     }
 
@@ -180,9 +183,22 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        let latch = Arc::clone(&self.latch);
+        let _latch = latch.write();
+
+        // A key's entries can span several leaves, so the pair is looked for in all of them
+        if self
+            .collect_range(&key, &key, true)
+            .iter()
+            .any(|(_, r)| *r == rid)
+        {
+            debug!("Key-RID pair is already present");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
-            let is_full = root_guard.keys.len() == self.order - 1;
+            let is_full = root_guard.keys.len() >= self.order - 1;
             debug!(
                 "Root node status: keys={}, is_full={}",
                 root_guard.keys.len(),
@@ -222,6 +238,7 @@ impl BPlusTree {
 
     pub fn delete(&self, key: &Value, rid: RID) -> bool {
         debug!("Starting delete for key {:?} with RID {:?}", key, rid);
+        let _latch = self.latch.write();
         let mut nodes_to_check = vec![(Arc::clone(&self.root), Vec::new())];
         let found = false;
 
@@ -233,27 +250,14 @@ impl BPlusTree {
                     debug!("At internal node with keys: {:?}", node.keys);
 
                     // Find all children that could contain our key
-                    let mut child_indices = Vec::new();
-
-                    // Check each key to find potential paths
-                    for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
-                            // If this key is greater, we need to check the left child
-                            child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
-                            // If this key equals our search key, check both children
-                            child_indices.push(i);
-                            child_indices.push(i + 1);
-                        }
-                    }
-
-                    // Always check the rightmost child if we haven't found a greater key
-                    if !child_indices.contains(&(&node.children.len() - 1)) {
-                        child_indices.push(node.children.len() - 1);
-                    }
+                    let first = node
+                        .keys
+                        .iter()
+                        .position(|k| k.compare_greater_than_equals(key) == CmpBool::CmpTrue)
+                        .unwrap_or(node.keys.len());
+                    let last = self.find_insert_position(&node.keys, key);
 
-                    // Add all potential paths to our search queue
-                    for child_idx in child_indices {
+                    for child_idx in first..=last {
                         debug!("Adding child index {} for checking", child_idx);
                         let mut new_path = path.clone();
                         new_path.push((Arc::clone(&current_node), child_idx));
@@ -314,7 +318,17 @@ impl BPlusTree {
     ) -> Result<Vec<(Value, RID)>, String> {
         let start_key = self.extract_key(start_key);
         let end_key = self.extract_key(end_key);
+        let _latch = self.latch.read();
+        Ok(self.collect_range(&start_key, &end_key, include_end))
+    }
 
+    /// Collects the entries of a key range; the caller holds the tree latch.
+    fn collect_range(
+        &self,
+        start_key: &Value,
+        end_key: &Value,
+        include_end: bool,
+    ) -> Vec<(Value, RID)> {
         debug!("Starting range scan from {:?} to {:?}", start_key, end_key);
         let mut current_node = Arc::clone(&self.root);
         let mut entries = Vec::new();
@@ -329,8 +343,8 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
-                        .unwrap_or(0);
+                        .position(|k| k.compare_greater_than_equals(start_key) == CmpBool::CmpTrue)
+                        .unwrap_or(node.keys.len());
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
                     drop(node);
@@ -351,14 +365,14 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if key.compare_less_than(start_key) == CmpBool::CmpTrue {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
+                if key.compare_greater_than(end_key) == CmpBool::CmpTrue
+                    || (!include_end && key.compare_equals(end_key) == CmpBool::CmpTrue)
                 {
                     debug!("Found key beyond range, ending scan");
-                    return Ok(entries);
+                    return entries;
                 }
                 debug!("Found entry in range - Key: {:?}, RID: {:?}", key, rid);
                 entries.push((key.clone(), *rid));
@@ -380,11 +394,12 @@ impl BPlusTree {
         }
 
         debug!("Scan complete, collected {} entries", entries.len());
-        Ok(entries)
+        entries
     }
 
     pub fn scan_full(&self) -> Result<Vec<(Value, RID)>, String> {
         debug!("Starting full scan");
+        let _latch = self.latch.read();
 
         let mut current_node = Arc::clone(&self.root);
         let mut entries = Vec::new();
@@ -698,7 +713,7 @@ impl BPlusTree {
 
                 {
                     let mut child_guard = child_arc.write();
-                    let needs_split = child_guard.keys.len() == self.order - 1;
+                    let needs_split = child_guard.keys.len() >= self.order - 1;
                     debug!(
                         "Child node status: keys={}, needs_split={}",
                         child_guard.keys.len(),
@@ -762,17 +777,9 @@ impl BPlusTree {
                 // For leaf splits, use the first key of the right node as separator
                 let split_key = new_node_arc.read().keys[0].clone();
 
-                let mut insert_pos = self.find_insert_position(&parent.keys, &split_key);
-                insert_pos = insert_pos.min(parent.keys.len());
-
-                debug!(
-                    "Inserting separator key at position {} in parent (len={})",
-                    insert_pos,
-                    parent.keys.len()
-                );
-
-                parent.keys.insert(insert_pos, split_key);
-                parent.children.insert(insert_pos + 1, new_node_arc.clone());
+                // The new node follows the child it was split from, whatever keys surround it
+                parent.keys.insert(child_idx, split_key);
+                parent.children.insert(child_idx + 1, new_node_arc.clone());
 
                 debug!(
                     "Leaf split complete - Left node: {:?}, Right node: {:?}, Parent keys: {:?}",
@@ -798,15 +805,10 @@ impl BPlusTree {
                 child_guard.keys.remove(split_point);
 
                 // For internal splits, ensure the routing key is greater than all keys in left subtree
-                let mut insert_pos = self.find_insert_position(&parent.keys, &middle_key);
-                insert_pos = insert_pos.min(parent.keys.len());
-
-                debug!("Inserting middle key at position {} in parent", insert_pos);
-
-                parent.keys.insert(insert_pos, middle_key.clone());
+                parent.keys.insert(child_idx, middle_key.clone());
                 parent
                     .children
-                    .insert(insert_pos + 1, Arc::new(RwLock::new(new_node.clone())));
+                    .insert(child_idx + 1, Arc::new(RwLock::new(new_node.clone())));
 
                 debug!(
                     "Internal split complete - Left node: {:?}, Middle key: {:?}, Right node: {:?}",
@@ -996,6 +998,9 @@ impl BPlusTree {
         let mut left = left_sibling.write();
         let mut right = child.write();
 
+        // The separator leaves the parent; internal nodes keep it between their keys
+        let separator = parent.keys.remove(child_idx - 1);
+
         match right.node_type {
             NodeType::Leaf => {
                 // Move all entries from right to left
@@ -1006,7 +1011,6 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
-                let separator = parent.keys.remove(child_idx - 1);
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
@@ -1018,11 +1022,6 @@ impl BPlusTree {
         // Remove the right child from parent
         parent.children.remove(child_idx);
 
-        // Remove the separator key from parent if it exists
-        if child_idx - 1 < parent.keys.len() {
-            parent.keys.remove(child_idx - 1);
-        }
-
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
 
@@ -1034,6 +1033,9 @@ impl BPlusTree {
         let mut left = child.write();
         let mut right = right_sibling.write();
 
+        // The separator leaves the parent; internal nodes keep it between their keys
+        let separator = parent.keys.remove(child_idx);
+
         match left.node_type {
             NodeType::Leaf => {
                 // Move all entries from right to left
@@ -1044,7 +1046,6 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
-                let separator = parent.keys.remove(child_idx);
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
@@ -1056,11 +1057,6 @@ impl BPlusTree {
         // Remove the right sibling from parent
         parent.children.remove(child_idx + 1);
 
-        // Remove the separator key from parent
-        if child_idx < parent.keys.len() {
-            parent.keys.remove(child_idx);
-        }
-
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
 
diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..22e1a79 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -126,6 +126,7 @@ use parking_lot::RwLock;
 use crate::common::rid::RID;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// An iterator over entries in a B+ tree index.
@@ -259,7 +260,17 @@ impl IndexIterator {
                     start.clone()
                 };
 
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
+                // Entries up to the last key have been returned already
+                tree_guard
+                    .scan_range(&scan_start, end, true)
+                    .map(|mut entries| {
+                        if let Some(last_key) = &self.last_key {
+                            entries.retain(|(key, _)| {
+                                key.compare_greater_than(last_key) == CmpBool::CmpTrue
+                            });
+                        }
+                        entries
+                    })
             },
             _ => {
                 let msg =
@@ -303,6 +314,7 @@ impl IndexIterator {
         self.current_batch.clear();
         self.position = 0;
         self.exhausted = false;
+        self.last_key = None;
         self.last_error = None;
         // Ignore errors here; callers can observe them via `try_next()` which is fallible.
         let _ = self.fetch_next_batch();
-- 
2.43.0


From 4d20b0f169a4b8125329b2bcb6657f658c2fd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:54 +0000
Subject: [PATCH 21/45] fix: I/O completion tracker: a waiter no longer misses
 a completion between its check and its subscription, or when events lag

---
 src/storage/disk/async_disk/io/completion.rs | 57 ++++++++++++++------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..930381d 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,9 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe before the first check: what happens in between must not go unnoticed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,19 +570,24 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
             result = async {
-                while let Ok(event) = event_receiver.recv().await {
-                    if event.operation_id == op_id {
-                        return event.result;
+                loop {
+                    match event_receiver.recv().await {
+                        Ok(event) if event.operation_id == op_id => return event.result,
+                        Ok(_) => {},
+                        // Events were missed, perhaps this operation's: ask its status
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            if !self.is_operation_pending(op_id).await {
+                                break;
+                            }
+                        },
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
-                // If the broadcast channel is closed, check final status
+                // Without an event of its own, check the operation's final status
                 let operations = self.operations.read().await;
                 match operations.get(&op_id) {
                     Some(OperationStatus::Completed { result, .. }) => result.clone(),
@@ -805,6 +813,9 @@ impl CompletionTracker {
             return Ok(Vec::new());
         }
 
+        // Subscribe before the first check: what happens in between must not go unnoticed
+        let mut event_receiver = self.event_sender.subscribe();
+
         let mut results = Vec::new();
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
@@ -839,21 +850,33 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
                 while !remaining_ids.is_empty() {
-                    if let Ok(event) = event_receiver.recv().await {
-                        if remaining_ids.contains(&event.operation_id) {
-                            results.push((event.operation_id, event.result));
-                            remaining_ids.remove(&event.operation_id);
-                        }
-                    } else {
+                    match event_receiver.recv().await {
+                        Ok(event) => {
+                            if remaining_ids.remove(&event.operation_id) {
+                                results.push((event.operation_id, event.result));
+                            }
+                        },
+                        // Events were missed, perhaps some of these operations': ask their status
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            let operations = self.operations.read().await;
+                            remaining_ids.retain(|op_id| {
+                                let result = match operations.get(op_id) {
+                                    Some(OperationStatus::Completed { result, .. }) => result.clone(),
+                                    Some(OperationStatus::Cancelled { reason, .. }) => {
+                                        OperationResult::Error(format!("Operation was cancelled: {}", reason))
+                                    },
+                                    _ => return true,
+                                };
+                                results.push((*op_id, result));
+                                false
+                            });
+                        },
                         // Channel closed, break
-                        break;
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
             } => {}
-- 
2.43.0


From a612359711167a2859c66651e4e630c77a8381b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:54 +0000
Subject: [PATCH 22/45] fix: catalog: table ids are unique across databases, a
 rebuild leaves open tables alone, reopened heaps append at their real end

---
 src/catalog/catalog_impl.rs            | 40 +++++++++++++-------------
 src/catalog/database.rs                |  9 ++++++
 src/concurrency/transaction_manager.rs |  5 ++++
 src/storage/table/table_heap.rs        | 22 +++++++++++++-
 4 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..fc287a9 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -181,7 +181,7 @@
 //!   system catalog rows
 
 use core::fmt;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::{Display, Formatter};
 use std::fs;
 use std::path::Path;
@@ -659,42 +659,42 @@ impl Catalog {
     pub fn rebuild_from_system_catalog(&mut self) {
         let snapshot_path = Path::new("catalog.snapshot");
         let scan = TableScanIterator::new(self.system.tables.clone());
-        let mut rebuilt: Vec<TableInfo> = Vec::new();
-        let mut rows: Vec<TableCatalogRow> = Vec::new();
+        let mut rows: BTreeMap<TableOidT, TableCatalogRow> = BTreeMap::new();
 
         // Load snapshot first if available to seed faster rebuild
         if snapshot_path.exists()
             && let Ok(bytes) = fs::read(snapshot_path)
             && let Ok(snapshot_rows) = postcard::from_bytes::<Vec<TableCatalogRow>>(&bytes)
         {
-            for row in snapshot_rows {
-                if row.table_oid <= SYS_TABLES_OID {
-                    continue;
-                }
-                if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
-                }
-            }
+            rows.extend(snapshot_rows.into_iter().map(|row| (row.table_oid, row)));
         }
 
         for (_meta, tuple) in scan {
             if let Some(row) = TableCatalogRow::from_tuple(&tuple) {
-                // Skip system tables themselves
-                if row.table_oid <= SYS_TABLES_OID {
-                    continue;
-                }
-
-                if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
-                    rows.push(row);
-                }
+                rows.insert(row.table_oid, row);
             }
         }
 
+        // Skip system tables themselves
+        rows.retain(|oid, _| *oid > SYS_TABLES_OID);
+
+        // The system tables cover all databases; what any of them has open stays where it is
+        let rebuilt: Vec<TableInfo> = rows
+            .values()
+            .filter(|row| {
+                !self
+                    .databases
+                    .values()
+                    .any(|db| db.get_table_by_oid(row.table_oid).is_some())
+            })
+            .filter_map(|row| self.row_to_table_info(row))
+            .collect();
+
         if let Some(db) = self.get_current_database_mut() {
             db.load_tables_from_catalog(rebuilt);
         }
 
+        let rows: Vec<TableCatalogRow> = rows.into_values().collect();
         if !rows.is_empty()
             && let Ok(bytes) = postcard::to_allocvec(&rows)
         {
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..dd2aaa5 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -382,6 +382,10 @@ impl Database {
             return None;
         }
 
+        // Locks, undo and recovery know a table by its OID alone, whichever database it is in
+        while self.txn_manager.is_registered(self.next_table_oid) {
+            self.next_table_oid += 1;
+        }
         let table_oid = self.next_table_oid;
         let table_heap = Arc::new(TableHeap::new(self.bpm.clone(), table_oid));
 
@@ -585,6 +589,11 @@ impl Database {
         for table in tables {
             let oid = table.get_table_oidt();
             self.next_table_oid = self.next_table_oid.max(oid + 1);
+            self.txn_manager
+                .register_table(Arc::new(TransactionalTableHeap::new(
+                    table.get_table_heap(),
+                    oid,
+                )));
             self.table_names
                 .insert(table.get_table_name().to_string(), oid);
             self.tables.insert(oid, table);
diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 0426289..fcb0ed3 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -1099,6 +1099,11 @@ impl TransactionManager {
         table_heaps.insert(table_heap.get_table_oid(), table_heap);
     }
 
+    /// Tells whether a table heap is registered under an OID.
+    pub fn is_registered(&self, table_oid: TableOidT) -> bool {
+        self.state.table_heaps.read().contains_key(&table_oid)
+    }
+
     /// Gets a registered table heap by its OID.
     ///
     /// # Parameters
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 1245429..d6ee020 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -223,6 +223,7 @@
 //!   first_page_id                                        last_page_id
 //! ```
 
+use std::collections::HashSet;
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
 
@@ -362,12 +363,31 @@ impl TableHeap {
             last_page_id
         };
 
-        Self {
+        let heap = Self {
             bpm,
             first_page_id: RwLock::new(first_page_id),
             last_page_id: RwLock::new(resolved_last),
             table_oid,
             latch: RwLock::new(()),
+        };
+        heap.follow_to_last_page();
+        heap
+    }
+
+    /// Moves the last page pointer to the end of the page chain: the heap may have
+    /// grown since the pointer was recorded, and a page linked before the end would
+    /// cut off the pages behind it.
+    fn follow_to_last_page(&self) {
+        let mut last = self.last_page_id.write();
+        let mut seen = HashSet::new();
+        while *last != INVALID_PAGE_ID && seen.insert(*last) {
+            match self.get_page(*last) {
+                Ok(page) => match page.read().get_next_page_id() {
+                    INVALID_PAGE_ID => break,
+                    next => *last = next,
+                },
+                Err(_) => break,
+            }
         }
     }
 
-- 
2.43.0


From b5c66ec3cf33de28f1ba3a6169a017edcdd2624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 23/45] fix: tiered cache: invalidating a page follows the
 direction of promotions, so that none slips past it

---
 src/storage/disk/async_disk/cache/cache_manager.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 7a1d8b3..b0efb8f 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -1186,9 +1186,10 @@ impl CacheManager {
 
     /// Drops every cached copy of a page, in whichever tiers hold one.
     pub fn invalidate_page(&self, page_id: PageId) {
-        MutableCache::remove(&mut *Self::lock_tier(&self.hot_cache), &page_id);
-        MutableCache::remove(&mut *Self::lock_tier(&self.warm_cache), &page_id);
+        // In the direction of promotions, which carry a copy to the next tier while they hold its own
         Self::lock_tier(&self.cold_cache).remove(&page_id);
+        MutableCache::remove(&mut *Self::lock_tier(&self.warm_cache), &page_id);
+        MutableCache::remove(&mut *Self::lock_tier(&self.hot_cache), &page_id);
     }
 
     /// Acquires a cache tier from synchronous code; tiers are only ever held for short,
-- 
2.43.0


From ede1eee19f4ba1ac04b97f473e11ace93be2b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:02 +0000
Subject: [PATCH 24/45] fix: a multi-row INSERT inserts its rows

bulk_insert_tuples_from_values built every tuple with RID (0, 0), which the
page refuses unless it is the next slot of page 0: statements with several
rows always failed, some after storing part of them. Insert row by row
through the path that single-row inserts use.
---
 src/storage/table/transactional_table_heap.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index e1bee5a..46cdba3 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -912,8 +912,6 @@ impl TransactionalTableHeap {
             values_batch.len()
         );
 
-        // Single lock acquisition for the entire batch
-        let txn_id = txn_context.get_transaction_id();
         let mut successful_inserts = 0;
 
         // Pre-validate all tuples to fail fast if there are constraint violations
@@ -928,18 +926,8 @@ impl TransactionalTableHeap {
 
             // Process chunk and collect pages that need to be written
             for values in chunk {
-                let expanded_values = self
-                    .table_heap
-                    .expand_values_for_schema(values.clone(), schema)?;
-
-                // Create tuple
-                let tuple = Tuple::new(&expanded_values, schema, RID::new(0, 0));
-
-                // Create metadata for the tuple
-                let meta = Arc::new(TupleMeta::new(txn_id));
-
                 // Insert tuple and collect page info for batching
-                match self.insert_tuple(meta, &tuple, txn_context.clone()) {
+                match self.insert_tuple_from_values(values.clone(), schema, txn_context.clone()) {
                     Ok(rid) => {
                         successful_inserts += 1;
 
-- 
2.43.0


From c20a1fbd96349fd4729a43b24760460bbaae9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:02 +0000
Subject: [PATCH 25/45] fix: an inner hash join returns every match

The build side lived in an extendible hash table, which keeps one value per
key: of several right rows with the same key one was joined. Building it also
leaked its pages and ignored errors. Keep the build side as a map from key to
rows, and report a failing child from next().
---
 .../execution/executors/hash_join_executor.rs | 165 ++++++------------
 1 file changed, 53 insertions(+), 112 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..98e3564 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,13 +20,13 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ Hash(key) → in-memory table     │    │
+//! │  │ (id=1, 25)  │    │ table[key] += tuple             │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
+//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup key  │     │
 //! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
@@ -46,9 +46,9 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The build side is kept in memory: every right tuple, filed under its join key.
 
+use std::collections::HashMap;
 use std::sync::Arc;
 
 use log::debug;
@@ -57,20 +57,18 @@ use parking_lot::RwLock;
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
-/// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// build phase (right child) and probe phase (left child).
 ///
 /// # Join Types
 ///
@@ -79,11 +77,11 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Algorithm
 ///
-/// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+/// 1. **Build Phase**: Consume all tuples from right child and file
+///    each under its join key.
 ///
-/// 2. **Probe Phase**: For each left tuple, hash the join key, probe
-///    the hash table, and emit combined tuples for matches.
+/// 2. **Probe Phase**: For each left tuple, look its join key up and emit
+///    one combined tuple for every right tuple that shares it.
 ///
 /// # Example
 ///
@@ -99,9 +97,7 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Memory Management
 ///
-/// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// Right-side tuples are stored in memory for retrieval during the probe phase.
 pub struct HashJoinExecutor {
     /// Shared execution context for buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
@@ -111,12 +107,13 @@ pub struct HashJoinExecutor {
     left_child: Box<dyn AbstractExecutor>,
     /// Right child executor (build side).
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
+    /// Right tuples by join key, built from right child.
+    right_tuples: HashMap<Value, Vec<Arc<Tuple>>>,
+    /// Current left tuple being probed (None if need next), its join key and the number of
+    /// right tuples it has been combined with.
+    current_left_tuple: Option<(Arc<Tuple>, RID, Value, usize)>,
+    /// Why the build phase failed, if it did.
+    build_error: Option<DBError>,
     /// Flag indicating whether initialization is complete.
     initialized: bool,
 }
@@ -148,9 +145,9 @@ impl HashJoinExecutor {
             plan,
             left_child,
             right_child,
-            hash_table: None,
-            right_tuples: Vec::new(),
+            right_tuples: HashMap::new(),
             current_left_tuple: None,
+            build_error: None,
             initialized: false,
         }
     }
@@ -158,75 +155,24 @@ impl HashJoinExecutor {
     /// Builds the hash table from the right child (build phase).
     ///
     /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
-    ///
-    /// # Returns
-    ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
+    /// join key expression on each, and files the tuple under that key.
     ///
     /// # Side Effects
     ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
+    /// - Populates `self.right_tuples`
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
         debug!("Building hash table from right child");
 
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
-        ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
-        };
-
-        self.hash_table = Some(hash_table);
-
+        self.right_tuples.clear();
         self.right_child.init();
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
-            }
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let key = self.plan.get_right_key_expressions()[0]
+                .evaluate(&tuple, self.plan.get_right_schema())?;
+            self.right_tuples.entry(key).or_default().push(tuple);
         }
 
-        true
+        Ok(())
     }
 }
 
@@ -245,13 +191,14 @@ impl AbstractExecutor for HashJoinExecutor {
     /// # Failure Handling
     ///
     /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// the next `next()` call returns the error.
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
 
-            if !self.build_hash_table() {
+            if let Err(e) = self.build_hash_table() {
                 debug!("Failed to build hash table");
+                self.build_error = Some(e);
                 return;
             }
 
@@ -290,44 +237,38 @@ impl AbstractExecutor for HashJoinExecutor {
     /// ```
     fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
         if !self.initialized {
-            return Ok(None);
+            return match self.build_error.take() {
+                Some(e) => Err(e),
+                None => Ok(None),
+            };
         }
 
         loop {
             if self.current_left_tuple.is_none() {
                 match self.left_child.next()? {
                     Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
+                        match self.plan.get_left_key_expressions()[0]
+                            .evaluate(&tuple, self.plan.get_left_schema())
+                        {
+                            Ok(key) => self.current_left_tuple = Some((tuple, rid, key, 0)),
+                            Err(_) => {
+                                debug!("Failed to evaluate left key expression");
+                                continue;
+                            },
+                        }
                     },
                     None => return Ok(None),
                 }
             }
 
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
-            };
-
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
-            };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
+            if let Some((left_tuple, left_rid, key, used)) = &mut self.current_left_tuple
+                && let Some(right_tuple) = self
+                    .right_tuples
+                    .get(key)
+                    .and_then(|tuples| tuples.get(*used))
             {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
-                self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
+                *used += 1;
+                return Ok(Some((Arc::new(left_tuple.combine(right_tuple)), *left_rid)));
             }
 
             self.current_left_tuple = None;
-- 
2.43.0


From ac1973d504d11551d5eecbff5af7d10905577852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:02 +0000
Subject: [PATCH 26/45] fix: TopN returns its rows in order

BinaryHeap::into_iter yields them in arbitrary order.
---
 src/sql/execution/executors/topn_executor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..3b02d05 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -162,10 +162,13 @@ impl AbstractExecutor for TopNExecutor {
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        // The heap orders `Reverse`d tuples, so ascending order of those is descending order
+        // of the tuples themselves
+        self.sorted_tuples = heap
+            .into_sorted_vec()
+            .into_iter()
+            .map(|Reverse(t)| t)
+            .collect();
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
-- 
2.43.0


From bafb5fcbaed4a9197af61435c758c59c8c3d61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 27/45] fix: a scan that cannot read a page fails instead of
 skipping its rows

The table iterator took a page that could not be fetched, because the read
failed or because every frame was pinned, for one without visible rows, and
get_first_page_id passed over such pages: queries, updates and deletes
silently worked on a part of the table. Remember the error and let the scan
executors return it.
---
 .../execution/executors/seq_scan_executor.rs  |  4 +++
 .../executors/table_scan_executor.rs          |  6 ++++
 src/storage/table/table_heap.rs               | 14 ++++----
 src/storage/table/table_iterator.rs           | 34 ++++++++++++++++++-
 4 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/executors/seq_scan_executor.rs b/src/sql/execution/executors/seq_scan_executor.rs
index fcc4429..60d4b62 100644
--- a/src/sql/execution/executors/seq_scan_executor.rs
+++ b/src/sql/execution/executors/seq_scan_executor.rs
@@ -419,6 +419,10 @@ impl AbstractExecutor for SeqScanExecutor {
             return Ok(Some((tuple, rid)));
         }
 
+        if let Some(e) = iter.take_error() {
+            return Err(DBError::Execution(format!("Table scan failed: {}", e)));
+        }
+
         trace!("Reached end of table scan");
         Ok(None)
     }
diff --git a/src/sql/execution/executors/table_scan_executor.rs b/src/sql/execution/executors/table_scan_executor.rs
index caa7f5f..5ac8751 100644
--- a/src/sql/execution/executors/table_scan_executor.rs
+++ b/src/sql/execution/executors/table_scan_executor.rs
@@ -287,6 +287,12 @@ impl AbstractExecutor for TableScanExecutor {
                             Ok(Some((tuple.clone(), tuple.get_rid())))
                         },
                         None => {
+                            if let Some(e) = iter.take_error() {
+                                return Err(DBError::Execution(format!(
+                                    "Table scan failed: {}",
+                                    e
+                                )));
+                            }
                             debug!("No more tuples to scan");
                             Ok(None)
                         },
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index d6ee020..7124542 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -777,14 +777,16 @@ impl TableHeap {
 
         // Find the first page with tuples
         while current_page_id != INVALID_PAGE_ID {
-            if let Ok(page_guard) = self.get_page(current_page_id) {
-                let page = page_guard.read();
-                if page.get_num_tuples() > 0 {
-                    return current_page_id;
-                }
+            let Ok(page_guard) = self.get_page(current_page_id) else {
+                // It may well have tuples: whoever reads on finds that it cannot be read
+                return current_page_id;
+            };
+            let page = page_guard.read();
+            if page.get_num_tuples() > 0 {
+                return current_page_id;
             }
             // Move to the next page
-            current_page_id = self.get_next_page_id(current_page_id);
+            current_page_id = page.get_next_page_id();
         }
 
         // If no pages with tuples found, return INVALID_PAGE_ID
diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index 9d33069..fb8bc22 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -199,6 +199,8 @@ pub struct TableIterator {
     stop_at_rid: RID,
     /// Optional transaction context for visibility checks
     txn_ctx: Option<Arc<TransactionContext>>,
+    /// Why the iteration ended before the end of the table, if it did
+    error: Option<String>,
 }
 
 /// Iterator for scanning a table sequentially.
@@ -228,6 +230,7 @@ impl TableIterator {
             last_returned_rid: None,
             stop_at_rid: stop_rid,
             txn_ctx,
+            error: None,
         };
         iterator.initialize();
         iterator
@@ -335,10 +338,24 @@ impl TableIterator {
                 self.current_rid = RID::new(self.current_rid.get_page_id(), next_slot);
             }
         } else {
-            self.current_rid = RID::new(INVALID_PAGE_ID, 0);
+            self.fail(format!(
+                "Failed to fetch page {}",
+                self.current_rid.get_page_id()
+            ));
         }
     }
 
+    /// Ends the iteration because the rest of the table cannot be read.
+    fn fail(&mut self, error: String) {
+        self.current_rid = RID::new(INVALID_PAGE_ID, 0);
+        self.error = Some(error);
+    }
+
+    /// After `next` returned `None`: why there are rows that were not returned, if so.
+    pub fn take_error(&mut self) -> Option<String> {
+        self.error.take()
+    }
+
     /// Check if a page exists and is valid
     fn is_valid_page(&self, page_id: PageId) -> bool {
         self.table_heap.get_table_heap().get_page(page_id).is_ok()
@@ -412,6 +429,11 @@ impl TableScanIterator {
     pub fn get_table_info(&self) -> &Arc<TableInfo> {
         &self.table_info
     }
+
+    /// After `next` returned `None`: why there are rows that were not returned, if so.
+    pub fn take_error(&mut self) -> Option<String> {
+        self.inner.take_error()
+    }
 }
 
 impl Iterator for TableScanIterator {
@@ -445,6 +467,16 @@ impl Iterator for TableIterator {
             let rid = self.current_rid;
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
+            // A page that cannot be read is not a page without visible tuples. It stays pinned
+            // until the iterator has moved on.
+            let _page = match self.table_heap.get_table_heap().get_page(rid.get_page_id()) {
+                Ok(page) => page,
+                Err(e) => {
+                    self.fail(e);
+                    break;
+                },
+            };
+
             let result = if let Some(txn_ctx) = &self.txn_ctx {
                 // Use transactional get_tuple for MVCC
                 self.table_heap
-- 
2.43.0


From 4b34f6ecde1d749b8f554dc38e5b8ab1bd476937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 28/45] fix: sort, top-n, aggregation and HAVING return their
 child's error

They collect their input in init, where an error was logged and the rows read
so far were taken for all of them.
---
 src/sql/execution/executors/aggregation_executor.rs | 12 +++++++++++-
 src/sql/execution/executors/filter_executor.rs      |  9 +++++++++
 src/sql/execution/executors/sort_executor.rs        | 10 ++++++++++
 src/sql/execution/executors/topn_executor.rs        |  9 +++++++++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..8734089 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -209,6 +209,8 @@ pub struct AggregationExecutor {
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
     groups_to_return: Vec<(GroupKey, AggregateValues)>,
+    /// The child's error, if `init` ran into one; `next` reports it.
+    error: Option<DBError>,
 }
 
 impl AggregationExecutor {
@@ -237,6 +239,7 @@ impl AggregationExecutor {
             groups: HashMap::new(),
             avg_counts: HashMap::new(),
             groups_to_return: Vec::new(),
+            error: None,
             output_schema: plan.get_output_schema().clone(),
             initialized: false,
         }
@@ -442,7 +445,10 @@ impl AbstractExecutor for AggregationExecutor {
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        // init cannot fail: next() reports it
+                        self.error = Some(e);
+                        self.initialized = true;
+                        return;
                     },
                 }
             }
@@ -527,6 +533,10 @@ impl AbstractExecutor for AggregationExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
             debug!(
diff --git a/src/sql/execution/executors/filter_executor.rs b/src/sql/execution/executors/filter_executor.rs
index 2cb7da8..4340fbe 100644
--- a/src/sql/execution/executors/filter_executor.rs
+++ b/src/sql/execution/executors/filter_executor.rs
@@ -119,6 +119,8 @@ pub struct FilterExecutor {
     group_tuples: Vec<Arc<Tuple>>,
     /// Current index in group_tuples for HAVING mode iteration.
     current_group_idx: usize,
+    /// The child's error, if `init` ran into one; `next` reports it.
+    error: Option<DBError>,
 }
 
 impl FilterExecutor {
@@ -145,6 +147,7 @@ impl FilterExecutor {
             initialized: false,
             group_tuples: Vec::new(),
             current_group_idx: 0,
+            error: None,
         }
     }
 
@@ -474,6 +477,7 @@ impl AbstractExecutor for FilterExecutor {
                     Ok(None) => break,
                     Err(e) => {
                         error!("Error during FilterExecutor initialization: {}", e);
+                        self.error = Some(e);
                         break;
                     },
                 }
@@ -509,6 +513,11 @@ impl AbstractExecutor for FilterExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            self.group_tuples.clear();
+            return Err(e);
+        }
+
         match self.plan.get_filter_expression().get_filter_type() {
             FilterType::Where => loop {
                 match self.child_executor.next()? {
diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..29a1766 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -192,6 +192,9 @@ pub struct SortExecutor {
 
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
+
+    /// The child's error, if `init` ran into one; `next` reports it.
+    error: Option<DBError>,
 }
 
 impl SortExecutor {
@@ -251,6 +254,7 @@ impl SortExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            error: None,
         }
     }
 }
@@ -322,6 +326,7 @@ impl AbstractExecutor for SortExecutor {
                     },
                     Err(e) => {
                         error!("Error collecting tuples from child executor: {}", e);
+                        self.error = Some(e);
                         break;
                     },
                 }
@@ -435,6 +440,11 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            self.sorted_tuples.clear();
+            return Err(e);
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 3b02d05..7b222e0 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -71,6 +71,8 @@ pub struct TopNExecutor {
     sorted_tuples: Vec<TupleWithKeys>,
     current_index: usize,
     initialized: bool,
+    // The child's error, if init ran into one; next reports it
+    error: Option<DBError>,
 }
 
 impl TopNExecutor {
@@ -92,6 +94,7 @@ impl TopNExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            error: None,
         }
     }
 
@@ -157,6 +160,7 @@ impl AbstractExecutor for TopNExecutor {
                 },
                 Err(e) => {
                     debug!("Error processing child tuple: {}", e);
+                    self.error = Some(e);
                     break;
                 },
             }
@@ -182,6 +186,11 @@ impl AbstractExecutor for TopNExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            self.sorted_tuples.clear();
+            return Err(e);
+        }
+
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
             self.current_index += 1;
-- 
2.43.0


From 459879421a33271e8e81bcea75bc312a87428795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 29/45] fix: right and full outer joins return every unmatched
 right row

Without a left row, no right row was seen; equal right rows counted as one.
---
 .../executors/nested_loop_join_executor.rs    | 80 ++++++++++---------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..4ba772b 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -188,9 +188,15 @@ pub struct JoinState {
     pub unmatched_left_tuples: Vec<(Arc<Tuple>, RID)>,
     pub unmatched_left_index: usize,
 
-    /// All right tuples seen during main join (for full outer joins)
+    /// All right tuples (for right/full outer joins), read once before the main join
     pub all_right_tuples: Vec<(Arc<Tuple>, RID)>,
 
+    /// Whether `all_right_tuples` has been filled
+    pub right_tuples_loaded: bool,
+
+    /// The next of `all_right_tuples` for the current left tuple
+    pub right_tuple_index: usize,
+
     /// Right tuples that have been matched (for full outer joins)
     pub matched_right_tuples: std::collections::HashSet<usize>,
 }
@@ -215,6 +221,8 @@ impl JoinState {
             unmatched_left_tuples: Vec::new(),
             unmatched_left_index: 0,
             all_right_tuples: Vec::new(),
+            right_tuples_loaded: false,
+            right_tuple_index: 0,
             matched_right_tuples: std::collections::HashSet::new(),
         }
     }
@@ -224,6 +232,7 @@ impl JoinState {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_tuple_index = 0;
     }
 
     /// Mark current left tuple as matched
@@ -303,6 +312,13 @@ impl JoinState {
         self.all_right_tuples.push(tuple);
     }
 
+    /// Get the next right tuple for the current left tuple (for right/full outer joins)
+    pub fn next_right_tuple(&mut self) -> Option<(Arc<Tuple>, RID)> {
+        let tuple = self.all_right_tuples.get(self.right_tuple_index).cloned()?;
+        self.right_tuple_index += 1;
+        Some(tuple)
+    }
+
     /// Mark a right tuple as matched (for full outer joins)
     pub fn mark_right_tuple_matched(&mut self, index: usize) {
         self.matched_right_tuples.insert(index);
@@ -1058,6 +1074,18 @@ impl NestedLoopJoinExecutor {
     /// * `Ok(Some((tuple, rid)))` - Next join result
     /// * `Ok(None)` - Main join phase complete, moved to next phase
     fn execute_main_join(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
+        // Right and full outer joins have to know every right tuple, even if there is no left one
+        let keeps_right_tuples = matches!(
+            self.join_handler.join_type,
+            JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+        );
+        if keeps_right_tuples && !self.join_state.right_tuples_loaded {
+            while let Some(right_tuple) = self.executor_manager.get_next_right_tuple()? {
+                self.join_state.add_right_tuple(right_tuple);
+            }
+            self.join_state.right_tuples_loaded = true;
+        }
+
         loop {
             debug!(
                 "JOIN: Loop iteration - current_left_tuple: {:?}, left_exhausted: {}, right_exhausted: {}",
@@ -1074,7 +1102,9 @@ impl NestedLoopJoinExecutor {
                     Some(left_tuple) => {
                         info!("JOIN: Processing new left tuple");
                         self.join_state.reset_for_new_left_tuple(left_tuple);
-                        self.executor_manager.reset_right_executor()?;
+                        if !keeps_right_tuples {
+                            self.executor_manager.reset_right_executor()?;
+                        }
                     },
                     None => {
                         info!("JOIN: Left executor exhausted");
@@ -1086,48 +1116,22 @@ impl NestedLoopJoinExecutor {
             // Process current left tuple with right tuples
             if let Some((left_tuple, left_rid)) = &self.join_state.current_left_tuple.clone() {
                 if !self.join_state.right_executor_exhausted {
-                    match self.executor_manager.get_next_right_tuple()? {
-                        Some((right_tuple, right_rid)) => {
-                            // For right and full outer joins, track all right tuples
-                            if matches!(
-                                self.join_handler.join_type,
-                                JoinType::Right(_)
-                                    | JoinType::RightOuter(_)
-                                    | JoinType::FullOuter(_)
-                            ) {
-                                // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
-                                    self.join_state
-                                        .add_right_tuple((right_tuple.clone(), right_rid));
-                                }
-                            }
-
+                    let next_right_tuple = if keeps_right_tuples {
+                        self.join_state.next_right_tuple()
+                    } else {
+                        self.executor_manager.get_next_right_tuple()?
+                    };
+                    match next_right_tuple {
+                        Some((right_tuple, _)) => {
                             if let Some(result) = self.join_handler.process_tuple_pair(
                                 left_tuple,
                                 &right_tuple,
                                 &mut self.join_state,
                             )? {
                                 // For right and full outer joins, mark the right tuple as matched
-                                if matches!(
-                                    self.join_handler.join_type,
-                                    JoinType::Right(_)
-                                        | JoinType::RightOuter(_)
-                                        | JoinType::FullOuter(_)
-                                ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
+                                if keeps_right_tuples {
+                                    let index = self.join_state.right_tuple_index - 1;
+                                    self.join_state.mark_right_tuple_matched(index);
                                 }
                                 return Ok(Some(result));
                             }
-- 
2.43.0


From b6b2a864698dc30e113b485d9b06a57699f6a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 30/45] fix: a hash join matches no NULL keys

---
 src/sql/execution/executors/hash_join_executor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index 98e3564..addc2f0 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -169,6 +169,10 @@ impl HashJoinExecutor {
         while let Some((tuple, _)) = self.right_child.next()? {
             let key = self.plan.get_right_key_expressions()[0]
                 .evaluate(&tuple, self.plan.get_right_schema())?;
+            // NULL equals nothing, not even another NULL
+            if key.is_null() {
+                continue;
+            }
             self.right_tuples.entry(key).or_default().push(tuple);
         }
 
-- 
2.43.0


From 75d8b9acaf994769a18aaf81de533200d3e8a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 31/45] fix: COUNT of an expression leaves out NULLs

---
 src/sql/execution/executors/aggregation_executor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index 8734089..a29d756 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -309,7 +309,17 @@ impl AggregationExecutor {
                                 }
                             }
                         },
-                        AggregationType::Count | AggregationType::CountStar => {
+                        AggregationType::Count => {
+                            // COUNT(expression) leaves out the rows where it is NULL
+                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let one = Value::new(i64::from(!arg_val.is_null()));
+                            agg_value.values[i] = if agg_value.values[i].is_null() {
+                                one
+                            } else {
+                                agg_value.values[i].add(&one)?
+                            };
+                        },
+                        AggregationType::CountStar => {
                             let count = if agg_value.values[i].is_null() {
                                 Value::new(1i64)
                             } else {
-- 
2.43.0


From 4bd2388f39383403e4a33f00fb2cb98ed3f0e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 32/45] fix: window, top-n per group and index join return
 their child's error

Aggregation also fails when an aggregate cannot be computed, instead of leaving
the row out.
---
 src/sql/execution/executors/aggregation_executor.rs  |  3 +++
 .../executors/nested_index_join_executor.rs          |  6 +++---
 .../execution/executors/topn_per_group_executor.rs   | 12 +++++++++++-
 src/sql/execution/executors/window_executor.rs       | 11 ++++++++++-
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index a29d756..76a4d25 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -450,6 +450,9 @@ impl AbstractExecutor for AggregationExecutor {
                             schema,
                         ) {
                             error!("Error computing aggregate: {}", e);
+                            self.error = Some(DBError::Execution(e));
+                            self.initialized = true;
+                            return;
                         }
                     },
                     Ok(None) => break,
diff --git a/src/sql/execution/executors/nested_index_join_executor.rs b/src/sql/execution/executors/nested_index_join_executor.rs
index 2333381..ef789ae 100644
--- a/src/sql/execution/executors/nested_index_join_executor.rs
+++ b/src/sql/execution/executors/nested_index_join_executor.rs
@@ -296,7 +296,7 @@ impl NestedIndexJoinExecutor {
         // Updated to handle Result type from child executors
         // If we have a current right executor, try to get next tuple from it
         if let Some(executor) = &mut self.current_right_executor {
-            while let Ok(Some(tuple_and_rid)) = executor.next() {
+            while let Some(tuple_and_rid) = executor.next()? {
                 let right_rid = tuple_and_rid.1;
                 // Skip if we've already processed this right tuple for the current left tuple
                 if self.processed_right_rids.contains(&right_rid) {
@@ -324,7 +324,7 @@ impl NestedIndexJoinExecutor {
 
         // Now try to get the first result with the newly created executor
         if let Some(executor) = &mut self.current_right_executor
-            && let Ok(Some(tuple_and_rid)) = executor.next()
+            && let Some(tuple_and_rid) = executor.next()?
         {
             let right_rid = tuple_and_rid.1;
 
@@ -576,7 +576,7 @@ impl AbstractExecutor for NestedIndexJoinExecutor {
 
                     // Try to get next matching tuple from right relation using index
                     debug!("Attempting to get next inner tuple");
-                    if let Ok(Some((right_tuple, _))) = self.get_next_inner_tuple() {
+                    if let Some((right_tuple, _)) = self.get_next_inner_tuple()? {
                         debug!("Got right tuple: {:?}", right_tuple.get_values());
 
                         // Double-check the predicate since get_next_inner_tuple already filters by key equality
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..47ce03f 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -76,6 +76,8 @@ pub struct TopNPerGroupExecutor {
     current_group_tuples: Vec<TupleWithKeys>,
     current_tuple_index: usize,
     initialized: bool,
+    // The child's error, if init ran into one; next reports it
+    error: Option<DBError>,
 }
 
 impl TopNPerGroupExecutor {
@@ -98,6 +100,7 @@ impl TopNPerGroupExecutor {
             current_group_tuples: Vec::new(),
             current_tuple_index: 0,
             initialized: false,
+            error: None,
         }
     }
 
@@ -201,7 +204,10 @@ impl AbstractExecutor for TopNPerGroupExecutor {
                 Ok(None) => break,
                 Err(e) => {
                     debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
+                    self.groups.clear();
+                    self.error = Some(e);
+                    self.initialized = true;
+                    return;
                 },
             }
         }
@@ -223,6 +229,10 @@ impl AbstractExecutor for TopNPerGroupExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         loop {
             // If we have tuples from the current group, return them
             if self.current_tuple_index < self.current_group_tuples.len() {
diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 2e4659a..4fefadc 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -77,6 +77,8 @@ pub struct WindowExecutor {
     partition_index: usize,
     tuple_index: usize,
     initialized: bool,
+    // The child's error, if init ran into one; next reports it
+    error: Option<DBError>,
 }
 
 impl WindowExecutor {
@@ -95,6 +97,7 @@ impl WindowExecutor {
             partition_index: 0,
             tuple_index: 0,
             initialized: false,
+            error: None,
         }
     }
 
@@ -142,7 +145,9 @@ impl AbstractExecutor for WindowExecutor {
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.error = Some(e);
+                        self.initialized = true;
+                        return;
                     },
                 }
             }
@@ -204,6 +209,10 @@ impl AbstractExecutor for WindowExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         // Check if we have more partitions to process
         if self.partition_index >= self.current_partition_keys.len() {
             return Ok(None);
-- 
2.43.0


From 5726a7a075a64dfb336326472948210eb471526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:18 +0000
Subject: [PATCH 33/45] fix: merging projections keeps the outer one's columns

---
 src/sql/optimizer/optimizer_impl.rs | 76 ++++++++++-------------------
 1 file changed, 25 insertions(+), 51 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..bb31042 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -818,13 +818,13 @@ impl Optimizer {
             },
             LogicalPlanType::Projection {
                 expressions,
-                schema: _,
+                schema,
                 column_mappings: _,
             } => {
                 // Combine consecutive projections
                 if let Some(child) = plan.children.pop() {
-                    if let LogicalPlanType::Projection { .. } = child.plan_type {
-                        return self.merge_projections(expressions.clone(), child);
+                    if let Some(merged) = self.merge_projections(expressions, schema, &child) {
+                        return self.apply_rewrite_rules(merged);
                     }
                     plan.children = vec![self.apply_rewrite_rules(child)?];
                     Ok(plan)
@@ -1078,60 +1078,34 @@ impl Optimizer {
     /// # Arguments
     ///
     /// * `expressions` - Expressions from the outer projection
+    /// * `schema` - Schema of the outer projection
     /// * `child` - The child plan (potentially another projection)
     ///
     /// # Returns
     ///
-    /// A merged projection or the original structure if merging isn't beneficial.
-    ///
-    /// # Note
-    ///
-    /// Full projection merging logic is TODO - currently returns the child as-is
-    /// if it's a projection.
+    /// The merged projection, or `None` when the child is no projection or an
+    /// outer expression is more than a reference to one of its columns.
     fn merge_projections(
         &self,
-        expressions: Vec<Arc<Expression>>,
-        child: Box<LogicalPlan>,
-    ) -> Result<Box<LogicalPlan>, DBError> {
-        if let LogicalPlanType::Projection { .. } = child.clone().plan_type {
-            // TODO: Implement projection merging logic
-            // This would involve rewriting the outer expressions in terms of the inner ones
-            Ok(child)
-        } else {
-            // Calculate column mappings
-            let input_schema = child.get_schema().unwrap();
-            let mut column_mappings = Vec::with_capacity(expressions.len());
-
-            for expr in &expressions {
-                if let Expression::ColumnRef(col_ref) = expr.as_ref() {
-                    let col_name = col_ref.get_return_type().get_name();
-
-                    // Try to find the column in the input schema
-                    let input_idx = input_schema
-                        .get_columns()
-                        .iter()
-                        .position(|c| c.get_name() == col_name)
-                        .unwrap_or(0); // Default to first column if not found
-
-                    column_mappings.push(input_idx);
-                } else {
-                    // For non-column references, use a placeholder mapping
-                    column_mappings.push(0);
-                }
-            }
-
-            // TODO: Compute correct schema
-            let output_schema = Schema::new(vec![]);
-
-            Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Projection {
-                    expressions,
-                    schema: output_schema,
-                    column_mappings,
-                },
-                vec![child],
-            )))
-        }
+        expressions: &[Arc<Expression>],
+        schema: &Schema,
+        child: &LogicalPlan,
+    ) -> Option<Box<LogicalPlan>> {
+        let LogicalPlanType::Projection {
+            expressions: inner, ..
+        } = &child.plan_type
+        else {
+            return None;
+        };
+        let merged = expressions
+            .iter()
+            .map(|expr| match expr.as_ref() {
+                Expression::ColumnRef(col_ref) => inner.get(col_ref.get_column_index()).cloned(),
+                _ => None,
+            })
+            .collect::<Option<Vec<_>>>()?;
+        let input = child.children.first()?.clone();
+        Some(LogicalPlan::project(merged, schema.clone(), input))
     }
 
     /// Determines whether to convert a nested loop join to a hash join.
-- 
2.43.0


From 7fcc437a36e1c1db4692dc7adf9f84e092795b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:19 +0000
Subject: [PATCH 34/45] fix: only a descending sort of a limit becomes a TopN

---
 src/sql/optimizer/optimizer_impl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index bb31042..babb261 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -172,6 +172,7 @@ use crate::common::exception::DBError;
 use crate::sql::execution::check_option::{CheckOption, CheckOptions};
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 use crate::sql::planner::logical_plan::{LogicalPlan, LogicalPlanType};
 // Additional imports for constraint index creation
 use crate::storage::index::IndexType;
@@ -923,8 +924,15 @@ impl Optimizer {
                 schema,
             } => {
                 if let Some(child) = plan.children.pop() {
-                    // Look for opportunities to use TopN instead of Sort
-                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type {
+                    // Look for opportunities to use TopN instead of Sort; TopN
+                    // sorts downwards and keeps at least one row
+                    let descending = sort_specifications
+                        .iter()
+                        .all(|spec| spec.get_direction() == OrderDirection::Desc);
+                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type
+                        && limit > 0
+                        && descending
+                    {
                         return Ok(Box::new(LogicalPlan::new(
                             LogicalPlanType::TopN {
                                 k: limit,
-- 
2.43.0


From 303d133937c36d5379c26bd283cf5f3a79e66d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:25 +0000
Subject: [PATCH 35/45] fix: a join condition may name the right table's column
 first

---
 src/sql/planner/logical_plan.rs | 76 ++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index e149826..355ef6e 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3173,7 +3173,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&resolve_join_sides(predicate, left_schema)) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3201,7 +3201,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&resolve_join_sides(predicate, left_schema)) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3229,7 +3229,7 @@ impl<'a> PlanConverter<'a> {
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&resolve_join_sides(predicate, left_schema)) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3590,6 +3590,60 @@ impl Display for LogicalPlan {
     }
 }
 
+/// Says which side of the join each column of a predicate belongs to.
+///
+/// The parser numbers the columns of a join condition through the joined row.
+/// References to the right table are turned into references to the right tuple,
+/// and the operands of a comparison are put in the order of the tables, so that
+/// `b.id = a.id` becomes `a.id = b.id`.
+///
+/// # Arguments
+///
+/// * `predicate` - The join predicate expression to analyze
+/// * `left_schema` - Schema of the left side
+fn resolve_join_sides(predicate: &Arc<Expression>, left_schema: &Schema) -> Arc<Expression> {
+    match predicate.as_ref() {
+        Expression::ColumnRef(col_ref) => {
+            let left_columns = left_schema.get_column_count() as usize;
+            if col_ref.get_tuple_index() == 0 && col_ref.get_column_index() >= left_columns {
+                Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                    1,
+                    col_ref.get_column_index() - left_columns,
+                    col_ref.get_return_type().clone(),
+                    vec![],
+                )))
+            } else {
+                predicate.clone()
+            }
+        },
+        Expression::Comparison(comp) if comp.get_comp_type() == ComparisonType::Equal => {
+            let is_right = |e: &Arc<Expression>| matches!(e.as_ref(), Expression::ColumnRef(c) if c.get_tuple_index() == 1);
+            let mut left = resolve_join_sides(comp.get_left(), left_schema);
+            let mut right = resolve_join_sides(comp.get_right(), left_schema);
+            if is_right(&left) && !is_right(&right) {
+                std::mem::swap(&mut left, &mut right);
+            }
+            Arc::new(Expression::Comparison(ComparisonExpression::new(
+                left.clone(),
+                right.clone(),
+                ComparisonType::Equal,
+                vec![left, right],
+            )))
+        },
+        Expression::Logic(logic) if logic.get_logic_type() == LogicType::And => {
+            let left = resolve_join_sides(logic.get_left(), left_schema);
+            let right = resolve_join_sides(logic.get_right(), left_schema);
+            Arc::new(Expression::Logic(LogicExpression::new(
+                left.clone(),
+                right.clone(),
+                LogicType::And,
+                vec![left, right],
+            )))
+        },
+        _ => predicate.clone(),
+    }
+}
+
 /// Extracts and normalizes join key expressions from a join predicate.
 ///
 /// This function analyzes a join predicate (typically from an ON clause) and:
@@ -3632,8 +3686,9 @@ impl Display for LogicalPlan {
 ///
 /// # Special Cases
 ///
-/// When the right column name is exactly "d.id", the column index is
-/// normalized to 0 (handles specific test case for department joins).
+/// When the right column name is exactly "d.id" and its table is not resolved
+/// (tuple_index=0), the column index is normalized to 0 (handles specific test
+/// case for department joins).
 #[allow(clippy::type_complexity)] // Return type reflects distinct semantic components
 fn extract_join_keys(
     predicate: &Arc<Expression>,
@@ -3666,11 +3721,12 @@ fn extract_join_keys(
 
                         // Step 2.1.5: Special handling for "d.id" - fix column index to 0
                         let col_name = right_ref.get_return_type().get_name();
-                        let (tuple_index, column_index) = if col_name == "d.id" {
-                            (1, 0) // Right tuple index always 1, and "d.id" is first column
-                        } else {
-                            (1, right_ref.get_column_index()) // Right tuple index always 1
-                        };
+                        let (tuple_index, column_index) =
+                            if col_name == "d.id" && right_ref.get_tuple_index() == 0 {
+                                (1, 0) // Right tuple index always 1, and "d.id" is first column
+                            } else {
+                                (1, right_ref.get_column_index()) // Right tuple index always 1
+                            };
 
                         let right_key = Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
                             tuple_index,
-- 
2.43.0


From 3ef9d25bccd5db3564cdaa1e591c3e4b53a4f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:06 +0000
Subject: [PATCH 36/45] fix: an unknown condition of a CASE does not match

---
 src/sql/execution/expressions/case_expression.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..b2d48cc 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -113,7 +113,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => !base.is_null() && base == &when_value,
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +123,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // an unknown condition does not match
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +178,10 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => !base.is_null() && base == &when_value,
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
-- 
2.43.0


From 401b819b0e32e95b7a168c28183ba0239adb8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:47 +0000
Subject: [PATCH 37/45] fix: a condition that cannot be evaluated fails the
 statement

---
 .../execution/executors/filter_executor.rs    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sql/execution/executors/filter_executor.rs b/src/sql/execution/executors/filter_executor.rs
index 4340fbe..9d8c29d 100644
--- a/src/sql/execution/executors/filter_executor.rs
+++ b/src/sql/execution/executors/filter_executor.rs
@@ -162,14 +162,15 @@ impl FilterExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if the tuple passes the filter, `false` otherwise.
-    fn apply_filter(&self, tuple: &Tuple) -> bool {
+    /// `true` if the tuple passes the filter, `false` otherwise; an error if
+    /// the predicate cannot be evaluated.
+    fn apply_filter(&self, tuple: &Tuple) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         let schema = self.child_executor.get_output_schema();
 
         match filter_expr.get_filter_type() {
             FilterType::Where => self.apply_where_filter(tuple, schema),
-            FilterType::Having => self.apply_having_filter(schema),
+            FilterType::Having => Ok(self.apply_having_filter(schema)),
         }
     }
 
@@ -185,8 +186,9 @@ impl FilterExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if predicate evaluates to true, `false` otherwise (including errors).
-    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> bool {
+    /// `true` if predicate evaluates to true, `false` if it does not; the
+    /// error if it cannot be evaluated.
+    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         debug!(
             "Evaluating WHERE filter on tuple with values: {:?}",
@@ -201,19 +203,19 @@ impl FilterExecutor {
                         b,
                         tuple.get_values()
                     );
-                    *b
+                    Ok(*b)
                 },
                 _ => {
                     error!(
                         "WHERE filter evaluation returned non-boolean value: {:?}",
                         value
                     );
-                    false
+                    Ok(false)
                 },
             },
             Err(e) => {
                 error!("Failed to evaluate WHERE filter: {}", e);
-                false
+                Err(e.into())
             },
         }
     }
@@ -523,7 +525,7 @@ impl AbstractExecutor for FilterExecutor {
                 match self.child_executor.next()? {
                     Some((tuple, rid)) => {
                         debug!("Processing tuple with RID {:?}", rid);
-                        if self.apply_filter(&tuple) {
+                        if self.apply_filter(&tuple)? {
                             debug!("Found matching tuple with RID {:?}", rid);
                             return Ok(Some((tuple, rid)));
                         }
@@ -541,7 +543,7 @@ impl AbstractExecutor for FilterExecutor {
                     let rid = tuple.get_rid();
                     self.current_group_idx += 1;
 
-                    if self.apply_filter(tuple) {
+                    if self.apply_filter(tuple)? {
                         debug!("Found matching tuple for HAVING clause");
                         return Ok(Some((tuple.clone(), rid)));
                     }
-- 
2.43.0


From 5dfb7b346271145ac2724781857275b78950791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:31 +0000
Subject: [PATCH 38/45] fix: the optimizer does not take the catalog's read
 lock twice

---
 src/sql/optimizer/optimizer_impl.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index babb261..374319f 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -335,13 +335,16 @@ impl Optimizer {
             },
             LogicalPlanType::TableScan { table_name, .. } => {
                 // Check if this table needs constraint indexes
-                let catalog = self.catalog.read();
-                if let Some(table_info) = catalog.get_table(table_name) {
-                    let schema = table_info.get_table_schema();
-
+                // (the read lock is released before it is taken again: a waiting writer
+                // would keep a second, nested read from ever being granted)
+                let schema = self
+                    .catalog
+                    .read()
+                    .get_table(table_name)
+                    .map(|table_info| table_info.get_table_schema());
+                if let Some(schema) = schema {
                     // Check if constraint indexes are missing
                     if self.needs_constraint_indexes(table_name, &schema) {
-                        drop(catalog); // Release read lock
                         info!(
                             "Creating missing constraint indexes for table '{}'",
                             table_name
-- 
2.43.0


From a517afa3859111c25edb4de5eca85e4757d77e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 39/45] fix: a decimal keeps its fraction when it is compared
 with an integer

---
 src/sql/execution/expressions/comparison_expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..e67c6f6 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -94,8 +94,14 @@ impl ComparisonExpression {
 
         // If types are different, try casting to make them comparable
         if lhs.get_type_id() != rhs.get_type_id() {
+            // As an integer, a fractional value would lose its fraction
+            let fractional = matches!(lhs.get_type_id(), TypeId::Decimal | TypeId::Float)
+                && matches!(
+                    rhs.get_type_id(),
+                    TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt
+                );
             // Try casting left to right type first
-            if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
+            if !fractional && let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
                     ComparisonType::Equal => cast_lhs.compare_equals(rhs),
                     ComparisonType::NotEqual => cast_lhs.compare_not_equals(rhs),
-- 
2.43.0


From 2fed7cf5a57e67a8a3ea4c07cdc2287ea330e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 40/45] fix: UPPER and LOWER of NULL are NULL

---
 src/sql/execution/expressions/string_expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sql/execution/expressions/string_expression.rs b/src/sql/execution/expressions/string_expression.rs
index 7271f8d..76fddfa 100644
--- a/src/sql/execution/expressions/string_expression.rs
+++ b/src/sql/execution/expressions/string_expression.rs
@@ -62,6 +62,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
@@ -81,6 +82,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
-- 
2.43.0


From a6a8f7288cd109fcc6a23132a240d2df848886aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 41/45] fix: SUBSTRING, OVERLAY and POSITION count characters,
 not bytes

---
 .../expressions/overlay_expression.rs         | 22 ++++++++++---------
 .../expressions/position_expression.rs        |  8 +++----
 .../expressions/substring_expression.rs       | 14 +++++++-----
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/sql/execution/expressions/overlay_expression.rs b/src/sql/execution/expressions/overlay_expression.rs
index 5f811bb..5499a0d 100644
--- a/src/sql/execution/expressions/overlay_expression.rs
+++ b/src/sql/execution/expressions/overlay_expression.rs
@@ -58,7 +58,8 @@ impl ExpressionOps for OverlayExpression {
 
         // Extract string values
         let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            // Positions and lengths count characters, not bytes
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "OVERLAY base expression must be a string, got {:?}",
@@ -115,13 +116,13 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
         let result = if start_pos >= base_text.len() {
             // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
+            format!("{}{}", base_text.iter().collect::<String>(), overlay_text)
         } else {
             // Calculate the end position for replacement
             let end_pos = if replace_len == 0 {
@@ -131,9 +132,9 @@ impl ExpressionOps for OverlayExpression {
             };
             format!(
                 "{}{}{}",
-                &base_text[0..start_pos],
+                base_text[0..start_pos].iter().collect::<String>(),
                 overlay_text,
-                &base_text[end_pos..]
+                base_text[end_pos..].iter().collect::<String>()
             )
         };
 
@@ -164,7 +165,8 @@ impl ExpressionOps for OverlayExpression {
 
         // Extract string values
         let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            // Positions and lengths count characters, not bytes
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "OVERLAY base expression must be a string, got {:?}",
@@ -221,13 +223,13 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
         let result = if start_pos >= base_text.len() {
             // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
+            format!("{}{}", base_text.iter().collect::<String>(), overlay_text)
         } else {
             // Calculate the end position for replacement
             let end_pos = if replace_len == 0 {
@@ -239,9 +241,9 @@ impl ExpressionOps for OverlayExpression {
             // Construct the result string
             format!(
                 "{}{}{}",
-                &base_text[0..start_pos],
+                base_text[0..start_pos].iter().collect::<String>(),
                 overlay_text,
-                &base_text[end_pos..]
+                base_text[end_pos..].iter().collect::<String>()
             )
         };
 
diff --git a/src/sql/execution/expressions/position_expression.rs b/src/sql/execution/expressions/position_expression.rs
index 0ac8adb..73acbf3 100644
--- a/src/sql/execution/expressions/position_expression.rs
+++ b/src/sql/execution/expressions/position_expression.rs
@@ -68,8 +68,8 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
+            None => 0,                                                   // Not found
         };
 
         Ok(Value::new(position))
@@ -116,8 +116,8 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
+            None => 0,                                                   // Not found
         };
 
         Ok(Value::new(position))
diff --git a/src/sql/execution/expressions/substring_expression.rs b/src/sql/execution/expressions/substring_expression.rs
index 9e5bcf1..1fbb520 100644
--- a/src/sql/execution/expressions/substring_expression.rs
+++ b/src/sql/execution/expressions/substring_expression.rs
@@ -71,7 +71,8 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            // Positions and lengths count characters, not bytes
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -150,11 +151,11 @@ impl ExpressionOps for SubstringExpression {
             let end_idx = std::cmp::min(start_idx + length as usize, string.len());
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string[start_idx..].iter().collect::<String>();
             Ok(Value::new(result))
         }
     }
@@ -176,7 +177,8 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            // Positions and lengths count characters, not bytes
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -258,11 +260,11 @@ impl ExpressionOps for SubstringExpression {
             let end_idx = std::cmp::min(start_idx + length as usize, string.len());
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string[start_idx..].iter().collect::<String>();
             Ok(Value::new(result))
         }
     }
-- 
2.43.0


From 081d214f349fe0be1597db9bd5935ee08af5e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 42/45] fix: LIKE and regular expressions are unknown for NULL

---
 src/sql/execution/expressions/like_expression.rs  | 8 ++++++++
 src/sql/execution/expressions/regex_expression.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..dd52870 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -120,6 +120,10 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -141,6 +145,10 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
diff --git a/src/sql/execution/expressions/regex_expression.rs b/src/sql/execution/expressions/regex_expression.rs
index 75f5bd2..1365afc 100644
--- a/src/sql/execution/expressions/regex_expression.rs
+++ b/src/sql/execution/expressions/regex_expression.rs
@@ -134,6 +134,10 @@ impl ExpressionOps for RegexExpression {
         let value = self.expr().evaluate(tuple, schema)?;
         let pattern = self.pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -184,6 +188,10 @@ impl ExpressionOps for RegexExpression {
                     right_tuple,
                     right_schema,
                 )?;
+                if value.is_null() || pattern.is_null() {
+                    return Ok(Value::new(crate::types_db::value::Val::Null));
+                }
+
                 let value_str = value.to_string();
                 let pattern_str = pattern.to_string();
 
-- 
2.43.0


From 71daf2e089a6dad5f1ffcee73b2d29ac37ce32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 43/45] fix: LIKE steps over characters, not bytes

---
 src/sql/execution/expressions/like_expression.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index dd52870..9d2fed6 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -75,6 +75,9 @@ impl LikeExpression {
 
                     let remaining_value: String = value_chars.clone().collect();
                     for i in 0..=remaining_value.len() {
+                        if !remaining_value.is_char_boundary(i) {
+                            continue;
+                        }
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
-- 
2.43.0


From b66be05a1e21ffb82bf28cc15fd1cf35ef4aa123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:14 +0000
Subject: [PATCH 44/45] fix: top rows and windows order NULL before any value,
 as a sort does

---
 src/sql/execution/executors/topn_executor.rs  | 14 +++-------
 .../executors/topn_per_group_executor.rs      | 28 ++++++-------------
 .../execution/executors/window_executor.rs    | 26 ++++++-----------
 3 files changed, 20 insertions(+), 48 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 7b222e0..14ea00d 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -46,16 +46,10 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                // NULL comes before any value, as in a sort
+                Some(Ordering::Equal) | None => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 47ce03f..07674a5 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -46,16 +46,10 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                // NULL comes before any value, as in a sort
+                Some(Ordering::Equal) | None => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -133,16 +127,10 @@ impl TopNPerGroupExecutor {
     /// Compare two group keys using the Value comparison methods
     fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
         for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a_val.partial_cmp(b_val) {
+                // NULL comes before any value, as in a sort
+                Some(Ordering::Equal) | None => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         // If all values are equal or we run out of values, compare lengths
diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 4fefadc..8bfc7e6 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -50,16 +50,10 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal,
+            match a.partial_cmp(b) {
+                // NULL comes before any value, as in a sort
+                Some(Ordering::Equal) | None => continue, // Equal, check next key
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -165,14 +159,10 @@ impl AbstractExecutor for WindowExecutor {
             self.current_partition_keys = partitions_map.keys().cloned().collect();
             self.current_partition_keys.sort_by(|a, b| {
                 for (a_val, b_val) in a.iter().zip(b.iter()) {
-                    match a_val.compare_less_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Less,
-                        CmpBool::CmpFalse => match a_val.compare_greater_than(b_val) {
-                            CmpBool::CmpTrue => return Ordering::Greater,
-                            CmpBool::CmpFalse => continue,
-                            CmpBool::CmpNull => return Ordering::Equal,
-                        },
-                        CmpBool::CmpNull => return Ordering::Equal,
+                    match a_val.partial_cmp(b_val) {
+                        // NULL comes before any value, as in a sort
+                        Some(Ordering::Equal) | None => continue, // Equal, check next key
+                        Some(ordering) => return ordering,
                     }
                 }
                 a.len().cmp(&b.len())
-- 
2.43.0


From 5e5189e36e5992a01a87e1b49e6be24146be88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:32 +0000
Subject: [PATCH 45/45] fix: removing from a B+ tree does not fail because a
 flush has the merged page in use

---
 src/storage/index/b_plus_tree_index.rs | 40 ++++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index 570c60e..6d67e51 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -646,7 +646,7 @@ where
             self.update_header(INVALID_PAGE_ID, 0, 0)?;
             drop(leaf);
             drop(leaf_page);
-            let _ = self.buffer_pool_manager.delete_page(root_page_id);
+            self.discard_page(root_page_id);
             return Ok(true);
         }
 
@@ -1583,6 +1583,16 @@ where
         Ok(())
     }
 
+    /// Deletes a page that is no longer part of the tree.
+    ///
+    /// The change of the tree is complete without it: a page that a flush has in use right now
+    /// stays behind unused.
+    fn discard_page(&self, page_id: PageId) {
+        if let Err(e) = self.buffer_pool_manager.delete_page(page_id) {
+            debug!("Page {} stays behind: {}", page_id, e);
+        }
+    }
+
     /// Merge two leaf pages when they become too empty
     ///
     /// # Arguments
@@ -1681,14 +1691,10 @@ where
             drop(right_page);
 
             // Release the parent page (it's no longer needed)
-            self.buffer_pool_manager
-                .delete_page(parent_page_id)
-                .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+            self.discard_page(parent_page_id);
 
             // Release the right page (it's been merged)
-            self.buffer_pool_manager
-                .delete_page(right_page_id)
-                .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+            self.discard_page(right_page_id);
 
             return Ok(());
         }
@@ -1711,9 +1717,7 @@ where
         drop(right_page);
 
         // Now safe to delete the right page
-        self.buffer_pool_manager
-            .delete_page(right_page_id)
-            .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+        self.discard_page(right_page_id);
 
         // Check if parent needs rebalancing after removing a key
         if parent_needs_rebalancing {
@@ -1948,13 +1952,9 @@ where
             drop(right_page);
 
             // Release the parent page and right page
-            self.buffer_pool_manager
-                .delete_page(parent_page_id)
-                .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+            self.discard_page(parent_page_id);
 
-            self.buffer_pool_manager
-                .delete_page(right_page_id)
-                .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+            self.discard_page(right_page_id);
 
             return Ok(());
         }
@@ -1975,9 +1975,7 @@ where
         drop(right_page);
 
         // Delete the right page as it's no longer needed
-        self.buffer_pool_manager
-            .delete_page(right_page_id)
-            .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+        self.discard_page(right_page_id);
 
         // 8. Check if parent needs rebalancing after removing a key
         if parent_needs_rebalancing {
@@ -2364,9 +2362,7 @@ where
                     }
 
                     // Delete the old root page
-                    self.buffer_pool_manager
-                        .delete_page(page_id)
-                        .map_err(|e| BPlusTreeError::BufferPoolError(e.to_string()))?;
+                    self.discard_page(page_id);
 
                     return Ok(true); // Tree structure changed
                 }
-- 
2.43.0

