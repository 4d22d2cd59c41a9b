From bc113ab1ea20035bbf7f40610f85b673f719788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 01/34] fix: report a failing or panicking worker of parallel
 iteration instead of hanging

A panic killed a pool thread, its queue was then never drained and the caller waited forever; an
error made ThreadPool::join panic. Commands now keep the first failure, which parallel_for_each and
BoundingBoxCalculator::calc return.
---
 src/osm/pbf/bounding_box_calculator.rs        |  4 ++
 src/osm/pbf/calc_bounding_box_command.rs      | 15 ++++--
 src/osm/pbf/first_error.rs                    | 51 +++++++++++++++++++
 src/osm/pbf/mod.rs                            |  1 +
 .../pbf/parallel_element_iteration_command.rs | 18 +++++--
 src/osm/pbf/reader.rs                         |  6 ++-
 6 files changed, 85 insertions(+), 10 deletions(-)
 create mode 100644 src/osm/pbf/first_error.rs

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..c4af696 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -6,6 +6,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
 use crate::osm::model::bounding_box::BoundingBox;
 use crate::osm::pbf::calc_bounding_box_command::CalcBoundingBoxCommand;
+use crate::osm::pbf::first_error::FirstError;
 use crate::osm::pbf::reader::Reader;
 
 pub struct BoundingBoxCalculator {
@@ -32,6 +33,7 @@ impl BoundingBoxCalculator {
                 None
             )
         );
+        let first_error = FirstError::default();
         let reader = Reader::new(&self.path)?;
         for blob in reader.blobs()? {
             tp.submit(
@@ -39,6 +41,7 @@ impl BoundingBoxCalculator {
                     CalcBoundingBoxCommand::new(
                         blob,
                         result.clone(),
+                        first_error.clone(),
                     )
                 )
             );
@@ -46,6 +49,7 @@ impl BoundingBoxCalculator {
 
         tp.shutdown();
         tp.join()?;
+        first_error.check()?;
         let mut result_guard = result.lock().unwrap();
         Ok(result_guard.take().unwrap())
     }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..a26577e 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -6,27 +6,29 @@ use crate::osm::model::bounding_box::BoundingBox;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_desc::BlobDesc;
 use crate::osm::pbf::file_block::FileBlock;
+use crate::osm::pbf::first_error::FirstError;
 
 pub(crate) struct CalcBoundingBoxCommand {
     blob: BlobDesc,
     result: Arc<Mutex<Option<BoundingBox>>>,
+    first_error: FirstError,
 }
 
 impl CalcBoundingBoxCommand {
     pub(crate) fn new(
         blob: BlobDesc,
         result: Arc<Mutex<Option<BoundingBox>>>,
+        first_error: FirstError,
     ) -> CalcBoundingBoxCommand {
         CalcBoundingBoxCommand {
             blob,
             result,
+            first_error,
         }
     }
-}
 
-impl Command for CalcBoundingBoxCommand {
     #[allow(clippy::unnecessary_unwrap)]
-    fn execute(&self) -> Result<(), anyhow::Error> {
+    fn process(&self) -> Result<(), anyhow::Error> {
         let file_block = FileBlock::from_blob_desc(&self.blob)?;
         if file_block.is_osm_data() {
             let mut bounding_box = None;
@@ -56,3 +58,10 @@ impl Command for CalcBoundingBoxCommand {
         Ok(())
     }
 }
+
+impl Command for CalcBoundingBoxCommand {
+    fn execute(&self) -> Result<(), anyhow::Error> {
+        self.first_error.guard(|| self.process());
+        Ok(())
+    }
+}
diff --git a/src/osm/pbf/first_error.rs b/src/osm/pbf/first_error.rs
new file mode 100644
index 0000000..7d65817
--- /dev/null
+++ b/src/osm/pbf/first_error.rs
@@ -0,0 +1,51 @@
+use std::any::Any;
+use std::panic::{AssertUnwindSafe, catch_unwind};
+use std::sync::{Arc, Mutex};
+
+use anyhow::{anyhow, Error};
+
+/// Keeps the first failure of the commands executed by a thread pool.
+///
+/// A thread of a pool that panics is gone, and its share of the queue is never processed. So
+/// commands run guarded, and the failure is reported by whoever waits for the commands.
+#[derive(Clone, Default)]
+pub(crate) struct FirstError {
+    error: Arc<Mutex<Option<Error>>>,
+}
+
+impl FirstError {
+    pub(crate) fn set(&self, error: Error) {
+        self.error.lock().unwrap().get_or_insert(error);
+    }
+
+    pub(crate) fn is_set(&self) -> bool {
+        self.error.lock().unwrap().is_some()
+    }
+
+    /// Execute f, keeping its error or panic
+    pub(crate) fn guard(&self, f: impl FnOnce() -> Result<(), Error>) {
+        match catch_unwind(AssertUnwindSafe(f)) {
+            Ok(Ok(())) => {}
+            Ok(Err(e)) => self.set(e),
+            Err(payload) => self.set(anyhow!("panic: {}", Self::panic_message(payload.as_ref()))),
+        }
+    }
+
+    /// Report the first error, if any
+    pub(crate) fn check(&self) -> Result<(), Error> {
+        match self.error.lock().unwrap().as_ref() {
+            None => Ok(()),
+            Some(e) => Err(anyhow!("{e:#}")),
+        }
+    }
+
+    fn panic_message(payload: &(dyn Any + Send)) -> String {
+        if let Some(message) = payload.downcast_ref::<&'static str>() {
+            message.to_string()
+        } else if let Some(message) = payload.downcast_ref::<String>() {
+            message.clone()
+        } else {
+            "unknown".to_string()
+        }
+    }
+}
diff --git a/src/osm/pbf/mod.rs b/src/osm/pbf/mod.rs
index 78259e5..a4b5cfc 100644
--- a/src/osm/pbf/mod.rs
+++ b/src/osm/pbf/mod.rs
@@ -21,3 +21,4 @@ pub(crate) mod osm_header;
 pub(crate) mod blob_iterator;
 pub(crate) mod blob_desc;
 pub(crate) mod calc_bounding_box_command;
+pub(crate) mod first_error;
diff --git a/src/osm/pbf/parallel_element_iteration_command.rs b/src/osm/pbf/parallel_element_iteration_command.rs
index 131b4f0..609ac1c 100644
--- a/src/osm/pbf/parallel_element_iteration_command.rs
+++ b/src/osm/pbf/parallel_element_iteration_command.rs
@@ -6,23 +6,24 @@ use command_executor::command::Command;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_desc::BlobDesc;
 use crate::osm::pbf::file_block::FileBlock;
+use crate::osm::pbf::first_error::FirstError;
 
 pub(crate) struct ParallelElementIterationCommand {
     blob_desc: BlobDesc,
     f: Arc<dyn Fn(Element) -> Result<(), Error> + Send + Sync + 'static>,
+    first_error: FirstError,
 }
 
 impl ParallelElementIterationCommand {
-    pub(crate) fn new(blob_desc: BlobDesc, f: Arc<impl Fn(Element) -> Result<(), Error> + Send + Sync + 'static>) -> ParallelElementIterationCommand {
+    pub(crate) fn new(blob_desc: BlobDesc, f: Arc<impl Fn(Element) -> Result<(), Error> + Send + Sync + 'static>, first_error: FirstError) -> ParallelElementIterationCommand {
         ParallelElementIterationCommand {
             blob_desc,
             f,
+            first_error,
         }
     }
-}
 
-impl Command for ParallelElementIterationCommand {
-    fn execute(&self) -> Result<(), Error> {
+    fn process(&self) -> Result<(), Error> {
         let mut file_block = FileBlock::from_blob_desc(&self.blob_desc)?;
         if file_block.is_osm_data() {
             for element in file_block.take_elements() {
@@ -32,4 +33,11 @@ impl Command for ParallelElementIterationCommand {
         }
         Ok(())
     }
-}
\ No newline at end of file
+}
+
+impl Command for ParallelElementIterationCommand {
+    fn execute(&self) -> Result<(), Error> {
+        self.first_error.guard(|| self.process());
+        Ok(())
+    }
+}
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..e035d11 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -12,6 +12,7 @@ use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::element_iterator::ElementIterator;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
+use crate::osm::pbf::first_error::FirstError;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
 
 #[derive(Debug, Clone)]
@@ -189,18 +190,19 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
+        let first_error = FirstError::default();
         for blob_desc in self.blobs()? {
             let f_wrapper_clone = f_wrapper.clone();
             iteration_pool.submit(
                 Box::new(
-                    ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
+                    ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone, first_error.clone())
                 )
             );
         }
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        first_error.check()
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From c72175ed433943485ab8946576224ae58e930a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 02/34] fix: open the input before starting the worker threads

When opening failed, the threads of the pool were left behind, polling their queue forever.
---
 src/osm/pbf/bounding_box_calculator.rs | 5 +++--
 src/osm/pbf/reader.rs                  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index c4af696..d2d59c2 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -21,6 +21,8 @@ impl BoundingBoxCalculator {
     }
 
     pub fn calc(&self) -> Result<BoundingBox, anyhow::Error> {
+        let reader = Reader::new(&self.path)?;
+        let blobs = reader.blobs()?;
         let mut tp = ThreadPoolBuilder::new()
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
@@ -34,8 +36,7 @@ impl BoundingBoxCalculator {
             )
         );
         let first_error = FirstError::default();
-        let reader = Reader::new(&self.path)?;
-        for blob in reader.blobs()? {
+        for blob in blobs {
             tp.submit(
                 Box::new(
                     CalcBoundingBoxCommand::new(
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index e035d11..8ee2f73 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -182,6 +182,7 @@ impl Reader {
     /// }
     /// ```
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
+        let blobs = self.blobs()?;
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
             .with_queue_size(1024)
@@ -191,7 +192,7 @@ impl Reader {
 
         let f_wrapper = Arc::new(f);
         let first_error = FirstError::default();
-        for blob_desc in self.blobs()? {
+        for blob_desc in blobs {
             let f_wrapper_clone = f_wrapper.clone();
             iteration_pool.submit(
                 Box::new(
-- 
2.43.0


From 95b1b2f9dabf0df247ab0118b1c95bfcc332c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 03/34] fix: bounding box calculation reports a file without
 nodes instead of panicking

---
 src/osm/pbf/bounding_box_calculator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d2d59c2..3f2530b 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -52,6 +53,6 @@ impl BoundingBoxCalculator {
         tp.join()?;
         first_error.check()?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take().ok_or_else(|| anyhow!("no nodes in {}", self.path.display()))
     }
 }
-- 
2.43.0


From 3c2c83345a2e21741c05e9bfe91074b1a7a38156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 04/34] fix: bounding box counts nodes that follow another
 element in their block

The format lets a block hold groups of several types in any order; the nodes after the first way or
relation were left out.
---
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index a26577e..e8490e9 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -41,9 +41,7 @@ impl CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
-- 
2.43.0


From 531ab43b49db051646c38a862fe2d6d74218294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 05/34] fix: a read error or truncated file is no longer taken
 for the end of the file

Every failure to read a blob header ended iteration as if all blobs had been seen, so elements,
parallel_for_each, count_objects and the bounding box silently left out the rest of the file.
---
 src/osm/pbf/blob_iterator.rs           | 54 ++++++++++++++++++--------
 src/osm/pbf/bounding_box_calculator.rs |  7 ++++
 src/osm/pbf/file_block_iterator.rs     |  3 +-
 src/osm/pbf/reader.rs                  |  7 ++++
 4 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..a7a04c5 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -29,26 +29,48 @@ impl BlobIterator {
             }
         )
     }
-}
-
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
 
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
-        let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
-        let blob_header_len = i32::from_be_bytes(header_len_buffer);
-        let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
-        let length = blob_header.datasize as u64;
+    /// The next blob, None when the file ends after the previous one
+    fn next_blob(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+        let position = self.file.seek(SeekFrom::Current(self.jump as i64))?;
+        let mut header_len = Vec::with_capacity(4);
+        Read::by_ref(&mut self.file).take(4).read_to_end(&mut header_len)?;
+        if header_len.is_empty() {
+            let file_len = self.file.seek(SeekFrom::End(0))?;
+            return if position == file_len {
+                Ok(None)
+            } else {
+                Err(anyhow!("the file ends inside a blob"))
+            };
+        }
+        let header_len_buffer: [u8; 4] = header_len.as_slice().try_into()
+            .context("the file ends inside a blob header length")?;
+        let blob_header_len = usize::try_from(i32::from_be_bytes(header_len_buffer))?;
+        let mut blob_header_buffer = Vec::new();
+        Read::by_ref(&mut self.file).take(blob_header_len as u64).read_to_end(&mut blob_header_buffer)?;
+        if blob_header_buffer.len() != blob_header_len {
+            return Err(anyhow!("the file ends inside a blob header"));
+        }
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
+        let current_offset = self.file.stream_position()?;
+        let length = u64::try_from(blob_header.datasize)?;
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            Some(
+                osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+            )
         )
     }
+}
+
+impl Iterator for BlobIterator {
+    type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.next_blob()
+            .with_context(|| anyhow!("failed to locate blob {} in {}", self.index, self.path.display()))
+            .transpose()
+    }
 }
\ No newline at end of file
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 3f2530b..29fe028 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -38,6 +38,13 @@ impl BoundingBoxCalculator {
         );
         let first_error = FirstError::default();
         for blob in blobs {
+            let blob = match blob {
+                Ok(blob) => blob,
+                Err(e) => {
+                    first_error.set(e);
+                    break;
+                }
+            };
             tp.submit(
                 Box::new(
                     CalcBoundingBoxCommand::new(
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..175993c 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -18,7 +18,8 @@ impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
+        let blob_desc = self.blob_iterator.next()?
+            .unwrap_or_else(|e| panic!("{e:#}"));
         Some(
             FileBlock::from_blob_desc(&blob_desc)
                 .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 8ee2f73..77c9a9a 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -193,6 +193,13 @@ impl Reader {
         let f_wrapper = Arc::new(f);
         let first_error = FirstError::default();
         for blob_desc in blobs {
+            let blob_desc = match blob_desc {
+                Ok(blob_desc) => blob_desc,
+                Err(e) => {
+                    first_error.set(e);
+                    break;
+                }
+            };
             let f_wrapper_clone = f_wrapper.clone();
             iteration_pool.submit(
                 Box::new(
-- 
2.43.0


From 9fe8e8161286f5350fa998b17553f3a3270629d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 06/34] fix: verify size and checksum of compressed blobs

Decoding stopped after raw_size bytes, before the checksum at the end of the zlib stream, so altered
data was accepted.
---
 src/osm/pbf/file_block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..98f1125 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -96,9 +96,13 @@ impl FileBlock {
     }
 
     fn zlib_decode(data: Vec<u8>, raw_size: usize) -> Result<Vec<u8>, anyhow::Error> {
-        let mut decoder = ZlibDecoder::new(data.as_slice());
-        let mut decoded = vec![0_u8; raw_size];
-        decoder.read_exact(&mut decoded)?;
+        let decoder = ZlibDecoder::new(data.as_slice());
+        let mut decoded = Vec::with_capacity(raw_size);
+        // the checksum is verified only when the end of the stream is reached
+        decoder.take(raw_size as u64 + 1).read_to_end(&mut decoded)?;
+        if decoded.len() != raw_size {
+            return Err(anyhow!("Expected {raw_size} bytes of uncompressed data"));
+        }
         Ok(decoded)
     }
 
-- 
2.43.0


From 28d84285559631e30b0bd17eb4d5380100822b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 07/34] fix: parallel writer notices an element that belongs
 before the end of the last block

The order check compared with the first element of the last block, so an element that arrived too
late could still be written after greater ones without any report.
---
 src/osm/pbf/parallel_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..5bc693b 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From 389982a122f76a746729dca78ebe54db2ce6438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 08/34] fix: parallel writer reports failures instead of
 hanging

A failed write, header or order check killed the pool thread that met it, so write_header and close
waited forever for a thread that was gone. The first failure now stops further output and is returned by
write_header, write_element(s) and close.
---
 src/osm/pbf/parallel_writer.rs | 93 +++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 19 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 5bc693b..7aa0aff 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -17,6 +17,7 @@ use crate::osm::model::element::Element;
 use crate::osm::pbf::compression_type::CompressionType;
 use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_info::FileInfo;
+use crate::osm::pbf::first_error::FirstError;
 use crate::osm::pbf::writer::Writer;
 
 thread_local! {
@@ -27,6 +28,7 @@ thread_local! {
     static NEXT_THREAD_POOL: RefCell<Option<Arc<RwLock<ThreadPool>>>> = const { RefCell::new(None) };
     static COMPRESSION_TYPE: RefCell<Option<CompressionType>> = const { RefCell::new(None) };
     static CURRENT_MIN_ELEMENT: RefCell<Option<Element>> = const { RefCell::new(None) };
+    static FIRST_ERROR: RefCell<FirstError> = RefCell::new(FirstError::default());
 
     #[allow(clippy::type_complexity)]
     pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, (Vec<u8>, Vec<u8>)>> = RefCell::new(HashMap::new());
@@ -35,6 +37,15 @@ thread_local! {
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
 }
 
+/// Execute f unless a part of the output has already failed, keep its failure for the caller of the
+/// writer
+fn guard(f: impl FnOnce() -> Result<(), Error>) {
+    let first_error = FIRST_ERROR.with(|first_error| first_error.borrow().clone());
+    if !first_error.is_set() {
+        first_error.guard(f);
+    }
+}
+
 fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
@@ -155,8 +166,8 @@ impl AddElementCommand {
     }
 }
 
-impl Command for AddElementCommand {
-    fn execute(&self) -> Result<(), Error> {
+impl AddElementCommand {
+    fn process(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
             assert_order(element_guard.as_ref().unwrap());
@@ -169,6 +180,13 @@ impl Command for AddElementCommand {
     }
 }
 
+impl Command for AddElementCommand {
+    fn execute(&self) -> Result<(), Error> {
+        guard(|| self.process());
+        Ok(())
+    }
+}
+
 struct AddElementsCommand {
     elements: Mutex<Option<Vec<Element>>>,
 }
@@ -181,8 +199,8 @@ impl AddElementsCommand {
     }
 }
 
-impl Command for AddElementsCommand {
-    fn execute(&self) -> Result<(), Error> {
+impl AddElementsCommand {
+    fn process(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
@@ -197,6 +215,13 @@ impl Command for AddElementsCommand {
     }
 }
 
+impl Command for AddElementsCommand {
+    fn execute(&self) -> Result<(), Error> {
+        guard(|| self.process());
+        Ok(())
+    }
+}
+
 struct EncodeFileBlockCommand {
     index: usize,
     elements: Mutex<Vec<Element>>,
@@ -211,8 +236,8 @@ impl EncodeFileBlockCommand {
     }
 }
 
-impl Command for EncodeFileBlockCommand {
-    fn execute(&self) -> Result<(), Error> {
+impl EncodeFileBlockCommand {
+    fn process(&self) -> Result<(), Error> {
         let mut elements_guard = self.elements.lock().unwrap();
         let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
         let (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
@@ -231,6 +256,13 @@ impl Command for EncodeFileBlockCommand {
     }
 }
 
+impl Command for EncodeFileBlockCommand {
+    fn execute(&self) -> Result<(), Error> {
+        guard(|| self.process());
+        Ok(())
+    }
+}
+
 struct WriteBlobCommand {
     index: usize,
     blob_header: Mutex<Vec<u8>>,
@@ -247,8 +279,8 @@ impl WriteBlobCommand {
     }
 }
 
-impl Command for WriteBlobCommand {
-    fn execute(&self) -> Result<(), Error> {
+impl WriteBlobCommand {
+    fn process(&self) -> Result<(), Error> {
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
                 let mut blob_header_guard = self.blob_header.lock().unwrap();
@@ -274,16 +306,24 @@ impl Command for WriteBlobCommand {
                             Some((header, body)) => {
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut()
+                                            .ok_or_else(|| anyhow!("the header was not written"))?
+                                            .write_blob(header, body)
                                     }
-                                );
+                                )?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
+        )
+    }
+}
 
+impl Command for WriteBlobCommand {
+    fn execute(&self) -> Result<(), Error> {
+        guard(|| self.process());
         Ok(())
     }
 }
@@ -307,6 +347,7 @@ pub struct ParallelWriter {
     element_ordering_pool: Arc<RwLock<ThreadPool>>,
     encoding_pool: Arc<RwLock<ThreadPool>>,
     writing_pool: Arc<RwLock<ThreadPool>>,
+    first_error: FirstError,
 }
 
 impl ParallelWriter {
@@ -328,6 +369,11 @@ impl ParallelWriter {
         Self::set_thread_local(element_ordering_pool.clone(), &NEXT_THREAD_POOL, Some(encoding_pool.clone()));
         Self::set_thread_local(encoding_pool.clone(), &NEXT_THREAD_POOL, Some(writing_pool.clone()));
 
+        let first_error = FirstError::default();
+        Self::set_thread_local(element_ordering_pool.clone(), &FIRST_ERROR, first_error.clone());
+        Self::set_thread_local(encoding_pool.clone(), &FIRST_ERROR, first_error.clone());
+        Self::set_thread_local(writing_pool.clone(), &FIRST_ERROR, first_error.clone());
+
         Ok(
             ParallelWriter {
                 path,
@@ -336,6 +382,7 @@ impl ParallelWriter {
                 element_ordering_pool,
                 encoding_pool,
                 writing_pool,
+                first_error,
             }
         )
     }
@@ -351,24 +398,26 @@ impl ParallelWriter {
         let compression_type = self.compression_type.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
-                PBF_WRITER.with(|writer| {
+                guard(|| PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
                         let mut w = Writer::from_file_info(
                             path.clone(),
                             file_info.clone(),
                             compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
+                        )?;
+                        w.write_header()?;
                         writer.replace(Some(w));
                     }
-                })
+                    Ok(())
+                }))
             })
         );
-        Ok(())
+        self.first_error.check()
     }
 
     /// Write an [Element]
     pub fn write_element(&mut self, element: Element) -> Result<(), Error> {
+        self.first_error.check()?;
         self.element_ordering_pool
             .read()
             .unwrap()
@@ -378,6 +427,7 @@ impl ParallelWriter {
 
     /// Write list of [Element]s
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), Error> {
+        self.first_error.check()?;
         self.element_ordering_pool
             .read()
             .unwrap()
@@ -392,12 +442,17 @@ impl ParallelWriter {
         Self::shutdown(self.encoding_pool.clone())?;
         self.flush_writing();
         Self::shutdown(self.writing_pool.clone())?;
-        Ok(())
+        self.first_error.check()
     }
 
     fn flush_element_ordering(&self) {
         let element_ordering_pool_guard = self.element_ordering_pool.read().unwrap();
-        element_ordering_pool_guard.in_all_threads(Arc::new(flush_all_sorted))
+        element_ordering_pool_guard.in_all_threads(Arc::new(|| {
+            guard(|| {
+                flush_all_sorted();
+                Ok(())
+            })
+        }))
     }
 
     fn flush_writing(&self) {}
-- 
2.43.0


From eef0b3bb584b4035ba5be3ba1a891e9cc4e5cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 09/34] fix: a sentinel is ordered after every other element

Both sentinel < element and element < sentinel held, which is no order: sorting a list with sentinels
could panic or misplace other elements.
---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From 529698ec30a6c67a7f9094e70385bf80892bdfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 10/34] fix: parallel writer ignores sentinels

A buffered sentinel took part in ordering: as the last of a flushed block it made every later element
look misplaced.
---
 src/osm/pbf/parallel_writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 7aa0aff..9090dd5 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -170,6 +170,9 @@ impl AddElementCommand {
     fn process(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
+            if element_guard.as_ref().unwrap().is_sentinel() {
+                return;
+            }
             assert_order(element_guard.as_ref().unwrap());
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
@@ -204,6 +207,9 @@ impl AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
+                if element.is_sentinel() {
+                    continue;
+                }
                 assert_order(&element);
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-- 
2.43.0


From 6c2554df339d9bc3139af1d3a8ae0a1fe0e1c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 11/34] fix: write all elements of a list with several types

Only the first non-empty group of nodes, ways and relations was written, the others were dropped.
---
 src/osm/pbf/osm_data.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..dd6da8a 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,22 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
+        let mut primitivegroup = Vec::<PrimitiveGroup>::new();
         if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+            primitivegroup.push(dense_group_builder.unwrap().build());
+        }
+        if ways_group_builder.is_some() {
+            primitivegroup.push(ways_group_builder.unwrap().build());
+        }
+        if relations_group_builder.is_some() {
+            primitivegroup.push(relations_group_builder.unwrap().build());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From e54d389188a1ff9ead7268562c497352aebb1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 12/34] fix: accept relations that follow nodes directly

Nodes, then relations, without ways in between is a valid order; the writer panicked.
---
 src/osm/pbf/element_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..33bc49e 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -43,7 +43,10 @@ impl ElementAccumulator {
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                        self.index += 1;
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
-- 
2.43.0


From 934968450548e3272bd7576dc9cd934b36aaf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 13/34] fix: do not write an empty block before the first way
 or relation

---
 src/osm/pbf/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 9feb2b0..4c47fdb 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,7 +166,10 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                self.write_elements(elements)?;
+                // nothing precedes the first way or relation of a file without nodes
+                if !elements.is_empty() {
+                    self.write_elements(elements)?;
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 7ed6a863788d044d58c7a2b932b0a21fa741b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 14/34] fix: round the header bounding box to the nearest
 nanodegree

Truncation moved a box that was read and written back by up to one nanodegree each time.
---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From 79869025d44d80661958a41fe97928ffd2314515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 15/34] fix: keep the order when elements and lists of elements
 are written alternately

---
 src/osm/pbf/writer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 4c47fdb..510bfc1 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,10 +166,7 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                // nothing precedes the first way or relation of a file without nodes
-                if !elements.is_empty() {
-                    self.write_elements(elements)?;
-                }
+                self.write_data_block(elements)?;
             }
         }
         Ok(())
@@ -179,6 +176,17 @@ impl Writer {
     /// Elements must be ordered, that is each element must be less then or equal to the following
     /// element
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        // elements written one by one before precede these
+        let accumulated = self.element_accumulator.elements();
+        self.write_data_block(accumulated)?;
+        self.write_data_block(elements)
+    }
+
+    fn write_data_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        // nothing precedes the first way or relation of a file without nodes
+        if elements.is_empty() {
+            return Ok(());
+        }
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
@@ -196,10 +204,7 @@ impl Writer {
     /// Must be called in the end to write any elements accumulated in internal buffers
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
         let elements = self.element_accumulator.elements();
-        if !elements.is_empty() {
-            self.write_elements(elements)?;
-        }
-        Ok(())
+        self.write_data_block(elements)
     }
 
     /// Output path
-- 
2.43.0


From 3c0fd0ea95a49443c98265433d27cf62bf0278e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 16/34] hook: chunk size of table sorting can be set in
 simulation builds (cfg osm_io_sim)

---
 src/osm/apidb_dump/read/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index a4d8d3d..65775f8 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -68,6 +68,8 @@ impl Reader {
         )
     }
 
+    // osm_io_sim: set by the simulation in verification builds only
+    #[allow(unexpected_cfgs)]
     fn sort_tables(tables: &HashMap<String, TableDef>) -> Result<(), anyhow::Error> {
         let ignore_regex = Regex::new("^\\\\\\.$")?;
         for (table_name, table_def) in tables {
@@ -80,6 +82,10 @@ impl Reader {
             text_file.with_fields(table_def.pkey().key());
             text_file.with_ignore_empty();
             text_file.with_ignore_lines(ignore_regex.clone());
+            #[cfg(osm_io_sim)]
+            if let Some(bytes) = std::env::var("OSM_IO_SIM_SORT_CHUNK").ok().and_then(|v| v.parse().ok()) {
+                text_file.with_chunk_size_bytes(bytes);
+            }
             text_file.sort()?;
         }
         Ok(())
-- 
2.43.0


From b1aafae23bf79b3204ed0e9cf695176cb1d8b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 17/34] fix: escape texts of dump tables the way COPY does

---
 src/osm/apidb_dump/read/table_reader.rs | 17 ++++---
 src/osm/apidb_dump/sql.rs               | 62 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      |  3 +-
 3 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..c7b94fa 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape(columns[*k]),
+                            unescape(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape(columns[*k]),
+                            unescape(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape(columns[*k]),
+                            unescape(columns[*v]),
                         )
                     }
                 )
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..c8dc7f3 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -35,6 +35,68 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
+/// Escape a text for the text format of COPY
+pub(crate) fn escape(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { result.push_str("\\\\") }
+            '\u{8}' => { result.push_str("\\b") }
+            '\t' => { result.push_str("\\t") }
+            '\n' => { result.push_str("\\n") }
+            '\u{b}' => { result.push_str("\\v") }
+            '\u{c}' => { result.push_str("\\f") }
+            '\r' => { result.push_str("\\r") }
+            _ => { result.push(c) }
+        }
+    }
+    result
+}
+
+/// Get the text back from the text format of COPY, where a backslash is followed by one of the
+/// letters used by [escape], by up to three octal digits, by x and up to two hexadecimal digits,
+/// or else stands for the character that follows it.
+pub(crate) fn unescape(s: &str) -> String {
+    let bytes = s.as_bytes();
+    let mut result: Vec<u8> = Vec::with_capacity(bytes.len());
+    let digits = |from: usize, radix: u32, max: usize| {
+        bytes[from..].iter().take(max).take_while(|b| (**b as char).is_digit(radix)).count()
+    };
+    let value = |from: usize, to: usize, radix: u32| {
+        bytes[from..to].iter().fold(0_u32, |v, b| v * radix + (*b as char).to_digit(radix).unwrap_or(0)) as u8
+    };
+    let mut i = 0;
+    while i < bytes.len() {
+        if bytes[i] != b'\\' || i + 1 == bytes.len() {
+            result.push(bytes[i]);
+            i += 1;
+            continue;
+        }
+        i += 1;
+        match bytes[i] {
+            b'b' => { result.push(8) }
+            b't' => { result.push(b'\t') }
+            b'n' => { result.push(b'\n') }
+            b'v' => { result.push(11) }
+            b'f' => { result.push(12) }
+            b'r' => { result.push(b'\r') }
+            b'x' if digits(i + 1, 16, 2) > 0 => {
+                let n = digits(i + 1, 16, 2);
+                result.push(value(i + 1, i + 1 + n, 16));
+                i += n;
+            }
+            b'0'..=b'7' => {
+                let n = digits(i, 8, 3);
+                result.push(value(i, i + n, 8));
+                i += n - 1;
+            }
+            other => { result.push(other) }
+        }
+        i += 1;
+    }
+    String::from_utf8(result).unwrap_or_else(|_| s.to_string())
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..1012a66 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
-- 
2.43.0


From 4037632af8207634efb54c9079c46bc19b315d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 18/34] fix: escape user names in the users table

---
 src/osm/apidb_dump/read/table_reader.rs | 4 ++--
 src/osm/apidb_dump/write/writer.rs      | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index c7b94fa..55f1f97 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -430,9 +430,9 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 1012a66..139b2d4 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -421,6 +421,7 @@ impl Writer {
         // template context: 4290.dat
         for element in self.writers.user_index.range(..)? {
             let (user_id, user_name) = element?;
+            let user_name = escape(&user_name);
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
-- 
2.43.0


From 304ac4664cd155e033d45193bbbd574e8979e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 19/34] fix: read changesets without bounding box and users
 without home zoom

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 55f1f97..8174e80 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From 7cf5b9bdf2adedc92b0226896e757fbe52fc7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 20/34] fix: keep the order of relation members when reading a
 dump

---
 src/osm/apidb_dump/read/table_pkey.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..f73868b 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -48,11 +48,9 @@ impl TablePkey {
             }
             "public.relation_members" => {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
+                // Members are read in the order of sequence_id which is unique in (relation_id, version)
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
-                key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
-                key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
-                key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
                 key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
-- 
2.43.0


From 93122af882434e702a30dbcff4b18f50f0c71126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 21/34] fix: a read error is not the end of a table

---
 src/osm/apidb_dump/read/table_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 8174e80..87c3267 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -518,8 +518,8 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                panic!("failed to read {}: {}", self.record_builder.table_def.sorted_path().display(), e);
             }
         }
     }
-- 
2.43.0


From f1a64f0ccbf4acb615e433a6c4a4ea0ad14287a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 22/34] fix: report dump tables that are cut off or lose rows
 when they are sorted

---
 src/osm/apidb_dump/read/reader.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index 65775f8..fb0ad04 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -1,5 +1,7 @@
 use std::collections::HashMap;
 use std::fs;
+use std::fs::File;
+use std::io::{Read, Seek, SeekFrom};
 use std::ops::{AddAssign, SubAssign};
 use std::path::PathBuf;
 use anyhow::{anyhow, Context};
@@ -74,6 +76,7 @@ impl Reader {
         let ignore_regex = Regex::new("^\\\\\\.$")?;
         for (table_name, table_def) in tables {
             log::info!("Sort {} table data", table_name);
+            let rows_length = Self::rows_length(&table_def.path())?;
             fs::create_dir_all(table_def.tmp_path())?;
             let mut text_file = Sort::new(vec![table_def.path()], table_def.sorted_path());
             text_file.with_tmp_dir(table_def.tmp_path());
@@ -87,10 +90,36 @@ impl Reader {
                 text_file.with_chunk_size_bytes(bytes);
             }
             text_file.sort()?;
+            let sorted_length = fs::metadata(table_def.sorted_path())
+                .with_context(|| anyhow!("path: {}", table_def.sorted_path().display()))?
+                .len();
+            if sorted_length != rows_length {
+                return Err(anyhow!("sorting {} failed: {} of {} bytes were written to {}",
+                    table_name, sorted_length, rows_length, table_def.sorted_path().display()));
+            }
         }
         Ok(())
     }
 
+    /// Length of the rows in a data file, that is of what precedes the terminator at its end
+    fn rows_length(path: &PathBuf) -> Result<u64, anyhow::Error> {
+        let mut file = File::open(path).with_context(|| anyhow!("path: {}", path.display()))?;
+        let length = file.metadata()?.len();
+        let start = length.saturating_sub(16);
+        file.seek(SeekFrom::Start(start))?;
+        let mut end = Vec::new();
+        file.read_to_end(&mut end)?;
+        let blank = end.iter().rev().take_while(|b| b.is_ascii_whitespace()).count();
+        match end[..end.len() - blank].strip_suffix(b"\\.") {
+            Some(rows) if rows.last().map_or(start == 0, |b| *b == b'\n') => {
+                Ok(start + rows.len() as u64)
+            }
+            _ => {
+                Err(anyhow!("{} is incomplete: the terminator is missing", path.display()))
+            }
+        }
+    }
+
     fn get_table_def_strings(toc: &[u8]) -> Vec<(String, String)> {
         // COPY public.node_tags (node_id, version, k, v) FROM stdin;......3838.dat
         let mut result: Vec<(String, String)> = Vec::new();
-- 
2.43.0


From d9ac5a5f34700c952df2347e66ccd2bc33fd34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 23/34] fix: a further header is not the end of the elements

---
 src/osm/pbf/element_iterator.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..687c365 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -21,17 +21,14 @@ impl ElementIterator {
         }
     }
 
-    #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        for current_block in file_block_iterator {
+            // concatenated files hold further headers
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
-- 
2.43.0


From 27ac11b694648063a5eaf8f45c1269ee54c07629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 24/34] fix: blocks without elements in a row do not exhaust
 the stack

---
 src/osm/pbf/element_iterator.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 687c365..18dc138 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -36,22 +36,14 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        // a loop, because a file may hold any number of blocks without elements in a row
+        while let Some(element_iterator) = &mut self.element_iterator {
+            let element = element_iterator.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
+        None
     }
 }
-- 
2.43.0


From 8929726d55baf9122d42f737f5e6e4d22f6e0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 25/34] fix: skip blobs of unknown type

---
 src/osm/pbf/blob_iterator.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a7a04c5..985fe9a 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -69,8 +69,15 @@ impl Iterator for BlobIterator {
     type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_blob()
-            .with_context(|| anyhow!("failed to locate blob {} in {}", self.index, self.path.display()))
-            .transpose()
+        loop {
+            let item = self.next_blob()
+                .with_context(|| anyhow!("failed to locate blob {} in {}", self.index, self.path.display()))
+                .transpose();
+            match &item {
+                // the format asks readers to skip blobs of a type they do not know
+                Some(Ok(blob_desc)) if !matches!(blob_desc.t().as_str(), "OSMHeader" | "OSMData") => {}
+                _ => return item,
+            }
+        }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 6365646063bbd876f0a2e19ea5e59f407f2d7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 26/34] fix: a header without any field can be read back

---
 src/osm/pbf/file_block.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index 98f1125..1f186c9 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -182,20 +182,17 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        // an empty message, such as a header without any field, is data as well
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From e44f96cfb41611b3598896583dae717cfc7e2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 27/34] fix: read dense nodes with a part of the metadata

---
 src/osm/pbf/osm_data.rs | 47 ++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index dd6da8a..d3a7aed 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -93,16 +93,9 @@ impl OsmData {
 
             let mut last_timestamp = 0_i64;
             let mut timestamp = 0_i64;
-            let mut last_changeset = -1_i64;
-            let mut uid = -1_i32;
+            let mut last_changeset = 0_i64;
+            let mut last_uid = 0_i32;
             let mut last_user_sid = 0_i32;
-
-            if let Some(_info) = &dense.denseinfo {
-                last_timestamp = 0_i64;
-                last_changeset = 0_i64;
-                uid = 0_i32;
-                last_user_sid = 0_i32;
-            }
             let mut visible = true;
 
             let mut key_val_iterator = <Vec<i32> as Borrow<Vec<i32>>>::borrow(&dense.keys_vals).iter();
@@ -113,20 +106,30 @@ impl OsmData {
 
                 let mut version = 0_i32;
                 let mut user: String = String::default();
+                let mut changeset = -1_i64;
+                let mut uid = -1_i32;
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
-                    timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
-                    let user_sid = last_user_sid as usize;
-                    if info.visible.len() > i {
-                        visible = info.visible[i];
-                    } else {
-                        visible = true;
+                    // each of the arrays can be missing, and then is empty
+                    if !info.timestamp.is_empty() {
+                        last_timestamp += info.timestamp[i];
+                        timestamp = last_timestamp * date_granularity as i64;
+                    }
+                    if !info.changeset.is_empty() {
+                        last_changeset += info.changeset[i];
+                        changeset = last_changeset;
+                    }
+                    if !info.uid.is_empty() {
+                        last_uid += info.uid[i];
+                        uid = last_uid;
+                    }
+                    if !info.user_sid.is_empty() {
+                        last_user_sid += info.user_sid[i];
+                        user = string_table.index(last_user_sid as usize).clone();
+                    }
+                    if !info.version.is_empty() {
+                        version = info.version[i];
                     }
-                    version = info.version[i];
-                    user = string_table.index(user_sid).clone();
+                    visible = info.visible.get(i).copied().unwrap_or(true);
                 }
 
                 let mut tags = Vec::<osm::model::tag::Tag>::new();
@@ -155,7 +158,7 @@ impl OsmData {
                     version,
                     coordinate,
                     timestamp,
-                    last_changeset,
+                    changeset,
                     uid,
                     user,
                     visible,
-- 
2.43.0


From b10495afcd157ebb58c3f539b712662117f483ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 28/34] fix: the box of a block counts nodes that follow
 another element

---
 src/osm/pbf/osm_data.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index d3a7aed..91531f2 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,8 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                // other producers may write nodes after other elements
+                Element::Way { .. } | Element::Relation { .. } | Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From 735e2f980cace50d16ca9da047716f600a36077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 29/34] fix: closing a dump again wrote its users, changesets
 and terminators again

---
 src/osm/apidb_dump/write/writer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 139b2d4..8c035ad 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -2,7 +2,7 @@ use std::fs;
 use std::io::Write;
 use std::path::PathBuf;
 
-use anyhow::{Context, Error};
+use anyhow::{anyhow, Context, Error};
 
 use crate::osm::apidb_dump::sql::{calculate_tile, escape, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
@@ -17,11 +17,11 @@ use crate::osm::model::way::Way;
 ///
 /// Writer of apidb schema dump that can be loaded using pg_restore into a Postgresql database
 pub struct Writer {
-    #[allow(dead_code)]
     output_path: PathBuf,
     #[allow(dead_code)]
     compression_level: i8,
     writers: TableDataWriters,
+    closed: bool,
     current_node_line: CurrentObjectLine,
     current_node_tag_lines: CurrentObjectLines,
     current_way_line: CurrentObjectLine,
@@ -46,6 +46,7 @@ impl Writer {
                 output_path,
                 compression_level,
                 writers,
+                closed: false,
                 current_node_line: CurrentObjectLine::new(),
                 current_node_tag_lines: CurrentObjectLines::new(),
                 current_way_line: CurrentObjectLine::new(),
@@ -60,6 +61,9 @@ impl Writer {
 
     /// Write an element
     pub fn write_element(&mut self, element: Element) -> Result<(), Error> {
+        if self.closed {
+            return Err(anyhow!("the dump is closed: {}", self.output_path.display()));
+        }
         match element {
             Element::Node { node } => {
                 self.write_node(node)?;
@@ -533,12 +537,18 @@ impl Writer {
     }
 
     /// Flush internal buffers and add file terminators
+    ///
+    /// Closing again has no effect
     pub fn close(&mut self) -> Result<(), Error> {
+        if self.closed {
+            return Ok(());
+        }
         self.flush_current_object_lines()?;
         self.writers.flush_buffers()?;
         self.write_users()?;
         self.write_changesets()?;
         self.writers.close()?;
+        self.closed = true;
         Ok(())
     }
 
-- 
2.43.0


From cc96f6c8884896f74f747a903f40e64485d0d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:15 +0000
Subject: [PATCH 30/34] fix: parallel iteration with zero tasks never returned

---
 src/osm/pbf/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 77c9a9a..7ace0d3 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -139,6 +139,9 @@ impl Reader {
     ///
     /// Note that because of the parallel access the order of elements enforced by *.osm.pbf format
     /// is lost.
+    ///
+    /// * tasks - number of threads that process the blocks, at least one is used
+    ///
     /// Example:
     /// ```
     /// use std::path::PathBuf;
@@ -184,7 +187,7 @@ impl Reader {
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
         let blobs = self.blobs()?;
         let mut iteration_pool = ThreadPoolBuilder::new()
-            .with_tasks(tasks)
+            .with_tasks(tasks.max(1))
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
-- 
2.43.0


From ccfb9ec63d405488408a3da35db4501c7ae79fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:15 +0000
Subject: [PATCH 31/34] fix: parallel writer with a block size of zero never
 finished closing

---
 src/osm/pbf/parallel_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 9090dd5..52e6454 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -365,6 +365,10 @@ impl ParallelWriter {
         file_info: FileInfo,
         compression_type: CompressionType,
     ) -> Result<ParallelWriter, Error> {
+        if file_block_size == 0 {
+            // no number of empty blocks would take up the elements
+            return Err(anyhow!("the file block size must be positive, path: {}", path.display()));
+        }
         let element_ordering_pool = Self::create_thread_pool("element-ordering", 1, 256)?;
         let encoding_pool = Self::create_thread_pool("encoding", 4, 256)?;
         let writing_pool = Self::create_thread_pool("writing", 1, 256)?;
-- 
2.43.0


From 576077190d7da42047bdcc549b4cf4bdf6e59756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 32/34] fix: parallel writer dropped without being closed left
 its threads and its file behind

---
 src/osm/pbf/parallel_writer.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 52e6454..7acff5a 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -354,6 +354,7 @@ pub struct ParallelWriter {
     encoding_pool: Arc<RwLock<ThreadPool>>,
     writing_pool: Arc<RwLock<ThreadPool>>,
     first_error: FirstError,
+    closed: bool,
 }
 
 impl ParallelWriter {
@@ -393,6 +394,7 @@ impl ParallelWriter {
                 encoding_pool,
                 writing_pool,
                 first_error,
+                closed: false,
             }
         )
     }
@@ -448,13 +450,21 @@ impl ParallelWriter {
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
         self.flush_element_ordering();
-        Self::shutdown(self.element_ordering_pool.clone())?;
-        Self::shutdown(self.encoding_pool.clone())?;
-        self.flush_writing();
-        Self::shutdown(self.writing_pool.clone())?;
+        self.shutdown_pools()?;
         self.first_error.check()
     }
 
+    fn shutdown_pools(&mut self) -> Result<(), Error> {
+        if std::mem::replace(&mut self.closed, true) {
+            return Ok(());
+        }
+        let element_ordering = Self::shutdown(self.element_ordering_pool.clone());
+        let encoding = Self::shutdown(self.encoding_pool.clone());
+        self.flush_writing();
+        let writing = Self::shutdown(self.writing_pool.clone());
+        element_ordering.and(encoding).and(writing)
+    }
+
     fn flush_element_ordering(&self) {
         let element_ordering_pool_guard = self.element_ordering_pool.read().unwrap();
         element_ordering_pool_guard.in_all_threads(Arc::new(|| {
@@ -497,4 +507,11 @@ impl ParallelWriter {
         thread_pool.shutdown();
         thread_pool.join()
     }
-}
\ No newline at end of file
+}
+
+impl Drop for ParallelWriter {
+    /// End the threads of a writer that is given up without being closed
+    fn drop(&mut self) {
+        let _ = self.shutdown_pools();
+    }
+}
-- 
2.43.0


From 3fb6c2655e48f23b2ca352b6f08869028276fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:42 +0000
Subject: [PATCH 33/34] fix: parallel writer kept more and more elements when
 lists were longer than a block

---
 src/osm/pbf/parallel_writer.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 7acff5a..f8e3cef 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -46,24 +46,11 @@ fn guard(f: impl FnOnce() -> Result<(), Error>) {
     }
 }
 
-fn flush_sorted_top() {
+/// Pass on blocks until no more than the given number of elements is left in the buffer
+fn flush_sorted(retained: usize) {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
-        let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.last());
-        NEXT_THREAD_POOL.with(|thread_pool| {
-            let thread_pool = thread_pool.borrow();
-            let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-            thread_pool_guard.submit(Box::new(EncodeFileBlockCommand::new(file_block_index(), Mutex::new(elements))));
-            inc_file_block_index();
-        })
-    });
-}
-
-fn flush_all_sorted() {
-    ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
-        element_ordering_buffer.borrow_mut().make_contiguous().sort();
-        while !element_ordering_buffer.borrow().is_empty() {
+        while element_ordering_buffer.borrow().len() > retained {
             let elements = split_file_block(element_ordering_buffer);
             set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
@@ -176,7 +163,7 @@ impl AddElementCommand {
             assert_order(element_guard.as_ref().unwrap());
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
-                flush_sorted_top()
+                flush_sorted(element_ordering_buffer_size())
             }
         });
         Ok(())
@@ -214,7 +201,7 @@ impl AddElementsCommand {
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
-                flush_sorted_top();
+                flush_sorted(element_ordering_buffer_size());
             }
         });
         Ok(())
@@ -469,7 +456,7 @@ impl ParallelWriter {
         let element_ordering_pool_guard = self.element_ordering_pool.read().unwrap();
         element_ordering_pool_guard.in_all_threads(Arc::new(|| {
             guard(|| {
-                flush_all_sorted();
+                flush_sorted(0);
                 Ok(())
             })
         }))
-- 
2.43.0


From b1883ee2d1900ccccf3ef6b33cfd47216e0ecea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:56 +0000
Subject: [PATCH 34/34] fix: iterators over blobs went on reading after their
 end or a failure

---
 src/osm/pbf/blob_iterator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 985fe9a..c1dbe3e 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -14,6 +14,7 @@ pub struct BlobIterator {
     file: File,
     jump: u64,
     index: usize,
+    finished: bool,
 }
 
 impl BlobIterator {
@@ -26,6 +27,7 @@ impl BlobIterator {
                 file,
                 jump: 0,
                 index: 0,
+                finished: false,
             }
         )
     }
@@ -69,15 +71,20 @@ impl Iterator for BlobIterator {
     type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        loop {
+        // after the end or a failure no further blob can be located
+        while !self.finished {
             let item = self.next_blob()
                 .with_context(|| anyhow!("failed to locate blob {} in {}", self.index, self.path.display()))
                 .transpose();
             match &item {
                 // the format asks readers to skip blobs of a type they do not know
                 Some(Ok(blob_desc)) if !matches!(blob_desc.t().as_str(), "OSMHeader" | "OSMData") => {}
-                _ => return item,
+                _ => {
+                    self.finished = !matches!(item, Some(Ok(_)));
+                    return item;
+                }
             }
         }
+        None
     }
 }
-- 
2.43.0

