From a27586979183d0cd6671ce2e782f700a4a47fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 01/18] fix: reject seeks to negative positions instead of
 wrapping around

---
 crates/stream-download/src/lib.rs             | 14 ++++++++++++--
 crates/stream-download/src/storage/bounded.rs |  6 ++++--
 crates/stream-download/src/storage/memory.rs  |  8 +++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..1be78ca 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -432,12 +432,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                checked_seek(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    checked_seek(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -621,6 +621,16 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
     }
 }
 
+/// Applies a relative seek offset, failing if the result would be out of range.
+pub(crate) fn checked_seek(base: u64, offset: i64) -> io::Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 pub(crate) trait WrapIoResult {
     fn wrap_err(self, msg: &str) -> Self;
 }
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..e683387 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -29,7 +29,7 @@ use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
-use crate::WrapIoResult;
+use crate::{WrapIoResult, checked_seek};
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
 #[derive(Clone, Debug)]
@@ -251,7 +251,9 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => {
+            Ok(checked_seek(current_position as u64, from_current)? as usize)
+        }
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..d0e353f 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -10,7 +10,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use parking_lot::RwLock;
 
 use super::StorageProvider;
-use crate::WrapIoResult;
+use crate::{WrapIoResult, checked_seek};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
@@ -74,8 +74,10 @@ impl Seek for MemoryStorage {
         let len = self.inner.read().len();
         let new_position = match position {
             SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
+            SeekFrom::Current(from_current) => {
+                checked_seek(self.position as u64, from_current)? as usize
+            }
+            SeekFrom::End(from_end) => checked_seek(len as u64, from_end)? as usize,
         };
 
         self.position = new_position;
-- 
2.43.0


From fcda4b0d9e24d65ac78bd9fa74232d5e25b5b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 02/18] fix: don't panic when reading past the end of memory
 storage

---
 crates/stream-download/src/storage/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index d0e353f..61e2721 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -63,6 +63,10 @@ impl Read for MemoryStorage {
         let available_len =
             (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            // The position may be past the end of the buffer
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
-- 
2.43.0


From 231a3f04b36edb3f93855b71ab90b002d36488a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 03/18] fix: prevent counter underflow when seeking bounded
 storage forwards then backwards

---
 crates/stream-download/src/storage/bounded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index e683387..64b1231 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -242,7 +242,10 @@ where
         // If we performed a backwards seek,we need to adjust the absolute read position.
         // Otherwise, if we've moved the read position back, but keep incrementing the
         // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
+        // The adjustment may be larger than the counter if we previously seeked forward over data
+        // that was never read.
+        let moved_back = shared_info.read_position.saturating_sub(new_position);
+        shared_info.read = shared_info.read.saturating_sub(moved_back);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -345,7 +348,8 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
+        let moved_back = shared_info.write_position.saturating_sub(new_position);
+        shared_info.written = shared_info.written.saturating_sub(moved_back);
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 417e056b3fe9cfc5532a1192df56141648329904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 04/18] fix: accept reads up to the configured capacity when
 bounded content is shorter

---
 crates/stream-download/src/storage/bounded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 64b1231..7349cc2 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -73,6 +73,7 @@ where
         self,
         content_length: Option<u64>,
     ) -> io::Result<(Self::Reader, Self::Writer)> {
+        let max_capacity = self.buffer_size;
         // We need to take the smaller of the two sizes here to prevent excess memory allocation
         let buffer_size = if let Some(content_length) = content_length {
             content_length.min(self.buffer_size as u64)
@@ -90,6 +91,7 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
+            max_capacity,
             read: 0,
             written: 0,
             read_position: 0,
@@ -110,6 +112,7 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
+    max_capacity: usize,
     read: usize,
     written: usize,
     read_position: usize,
@@ -147,13 +150,14 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut shared_info = self.shared_info.lock();
 
-        if buf.len() > shared_info.size {
+        // The buffer may be smaller than the configured capacity if the content length is shorter
+        if buf.len() > shared_info.max_capacity {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
                     "read size {} is greater than buffer size {}",
                     buf.len(),
-                    shared_info.size
+                    shared_info.max_capacity
                 ),
             ));
         }
-- 
2.43.0


From 210da267f26dc1fca6dfd865f27b05ac6f6f7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 05/18] fix: don't panic when reporting progress for an empty
 chunk

---
 crates/stream-download/src/source/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..c0110b3 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -513,10 +513,11 @@ where
             stream,
             StreamState {
                 current_position: pos,
+                // The chunk may be empty, so there may not be anything downloaded before this position
                 current_chunk: self
                     .downloaded
-                    .get(new_position - 1)
-                    .expect("position already downloaded"),
+                    .get(new_position.max(1) - 1)
+                    .unwrap_or_default(),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Downloading { chunk_size },
             },
-- 
2.43.0


From 3cc25156cc88883b450c8c0a57ce21c7456dcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 06/18] fix: discard leftover bytes from the previous position
 on seek

---
 crates/stream-download/src/source/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c0110b3..d2a67b5 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -466,6 +466,8 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
+        // Any leftover bytes belong to the previous position
+        self.remaining_bytes = None;
         self.writer.seek(SeekFrom::Start(start))?;
         Ok(())
     }
-- 
2.43.0


From 4734cd3daf730528f72c8722a377af4d2a36d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 07/18] fix: discard leftover bytes after reconnecting and
 ignore failed reconnects

---
 crates/stream-download/src/source/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index d2a67b5..d7bbeb6 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -275,13 +275,18 @@ where
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
-        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
-        if reconnect_pos
-            .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
-            .is_ok()
-            && let Some(on_reconnect) = &mut self.on_reconnect
-        {
-            on_reconnect(stream, &self.cancellation_token);
+        let reconnect_res = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
+        match reconnect_res {
+            Ok(Ok(())) => {
+                // The stream resumes at the writer's position, so any leftover bytes will be
+                // received again
+                self.remaining_bytes = None;
+                if let Some(on_reconnect) = &mut self.on_reconnect {
+                    on_reconnect(stream, &self.cancellation_token);
+                }
+            }
+            Ok(Err(e)) => warn!("error attempting to reconnect: {e:?}"),
+            Err(e) => warn!("timed out attempting to reconnect: {e:?}"),
         }
 
         Ok(())
-- 
2.43.0


From b7911130422cbfecb7a2fd3697e831c27595a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 08/18] fix: prevent overflow when computing the prefetch
 target

---
 crates/stream-download/src/source/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index d7bbeb6..7739e04 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -323,7 +323,8 @@ where
             );
             self.remaining_bytes = Some(bytes.slice(written..));
         }
-        if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
+        if (stream_position >= start_position.saturating_add(self.prefetch_bytes)) || partial_write
+        {
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
-- 
2.43.0


From 553caae7035f2aeb1e5d686bc85a98addf9365df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 09/18] fix: never request a seek range that ends before it
 starts

---
 crates/stream-download/src/source/mod.rs | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 7739e04..802aa95 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -248,19 +248,26 @@ where
                 self.prefetch_complete = true;
             }
             if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
                 debug!(
-                    start = min_start_position,
+                    start = position,
                     end = content_length,
                     "checking for seek range",
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
+                // Only consider gaps from the requested position onwards, otherwise we could end up
+                // with the end of a gap that's before the requested position
+                let gap = if position < content_length {
+                    self.downloaded.next_gap(position..content_length)
+                } else {
+                    // Nothing to download past the end, request an empty range
+                    Some(position..content_length.max(position))
+                };
+                if let Some(gap) = gap {
+                    debug!(
+                        seek_start = gap.start,
+                        seek_end = gap.end,
+                        "requesting seek range"
+                    );
+                    self.seek(stream, gap.start, Some(gap.end)).await?;
                 }
             } else {
                 self.seek(stream, position, None).await?;
-- 
2.43.0


From 7010e6e488c87361a40a65c8f7c1eb7925fa9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 10/18] fix: don't stream the body of an HTTP error response
 after reconnecting

---
 crates/stream-download/src/http/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..26b3a00 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -350,6 +350,14 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
+            let response = match response.into_result() {
+                Ok(response) => Ok(response),
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url))
+                }
+            }?;
             self.stream = Box::new(response.stream());
             Ok(())
         }
-- 
2.43.0


From e6a0f3ca34ed33db236eed9f10ed3b0e1d5906da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 11/18] fix: don't buffer temp storage reads that may go stale

---
 crates/stream-download/src/storage/temp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..57dea81 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -124,9 +124,7 @@ impl StorageProvider for TempStorageProvider {
         .wrap_err("error creating temp file")?;
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
-        let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
-        };
+        let reader = TempStorageReader { reader: tempfile };
         let writer = handle
             .try_clone()
             .wrap_err("error cloning temporary file")?;
@@ -137,7 +135,9 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    // This can't be buffered since the buffer could hold on to a region of the file that gets written
+    // to afterwards
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From 6e196b57925ed2cba88c2589e226bf45611220b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 12/18] fix: never return data from a region that was skipped
 by a seek

---
 crates/stream-download/src/lib.rs           | 39 ++++++++++++++-------
 crates/stream-download/src/source/handle.rs | 10 +++---
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 1be78ca..323b914 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -448,8 +448,10 @@ impl<P: StorageProvider> StreamDownload<P> {
         })
     }
 
-    fn handle_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let res = self.output_reader.read(buf).inspect(|l| {
+    fn handle_read(&mut self, buf: &mut [u8], available: u64) -> io::Result<usize> {
+        // Anything past the available range may not have been written yet
+        let read_len = available.min(buf.len() as u64) as usize;
+        let res = self.output_reader.read(&mut buf[..read_len]).inspect(|l| {
             trace!(read_length = format!("{l:?}"), "returning read");
         });
         self.handle.notify_read();
@@ -567,23 +569,36 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             );
             if closest_set.end >= requested_position {
                 trace!("requested position already downloaded");
-                return self.handle_read(buf);
+                return self.handle_read(buf, closest_set.end - stream_position);
             }
             debug!("requested position not yet downloaded");
         } else {
             debug!("stream position not yet downloaded");
         }
 
-        self.handle.wait_for_position(requested_position);
-        self.check_for_failure()?;
-        debug!(
-            current_position = stream_position,
-            requested_position = requested_position,
-            output_stream_position = self.output_reader.stream_position()?,
-            "reached requested position"
-        );
+        loop {
+            let stream_done = self.handle.wait_for_position(requested_position);
+            self.check_for_failure()?;
+            debug!(
+                current_position = stream_position,
+                requested_position = requested_position,
+                output_stream_position = self.output_reader.stream_position()?,
+                "reached requested position"
+            );
 
-        self.handle_read(buf)
+            let available_end = self
+                .handle
+                .get_downloaded_at_position(stream_position)
+                .map_or(stream_position, |range| range.end);
+            if stream_done || available_end >= requested_position {
+                return self.handle_read(buf, available_end - stream_position);
+            }
+            // The writer is already past the requested position, but it skipped over part of the
+            // range we need so we have to ask it to come back.
+            debug!(available_end, "requested range was skipped");
+            self.handle.seek(available_end);
+            self.check_for_failure()?;
+        }
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..4b70bc7 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -27,14 +27,15 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
+    /// Returns `true` if the stream is done, in which case the position may not have been reached.
+    pub(crate) fn wait_for_position(&self, requested_position: u64) -> bool {
         self.request_position(requested_position);
         debug!(
             requested_position = requested_position,
             "waiting for requested position"
         );
         self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+        self.position_reached.wait_for_position_reached()
     }
 
     pub(crate) fn seek(&self, seek_position: u64) {
@@ -127,11 +128,11 @@ impl PositionReached {
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    fn wait_for_position_reached(&self) -> bool {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return true;
         }
 
         let wait_start = Instant::now();
@@ -146,6 +147,7 @@ impl PositionReached {
         if !waiter.stream_done {
             waiter.position_reached = false;
         }
+        waiter.stream_done
     }
 }
 
-- 
2.43.0


From 87dcbc50f9b711965993279be479ccecaae9c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 13/18] fix: don't report skipped data as part of the current
 chunk while prefetching

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 802aa95..433d202 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -506,7 +506,7 @@ where
             stream,
             StreamState {
                 current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_chunk: (self.prefetch_start_position..stream_position),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From 0cc43304e3d2653933624e9c6b1975a809157cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 14/18] fix: don't restart the prefetch when seeking doesn't
 move the stream

---
 crates/stream-download/src/source/mod.rs | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 433d202..cc15edb 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -237,17 +237,14 @@ where
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
             let current_stream_position = self.writer.stream_position()?;
-            if self.prefetch_complete {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = position;
-                self.prefetch_complete = false;
-            } else {
+            let restart_prefetch = self.prefetch_complete;
+            if !self.prefetch_complete {
                 debug!("seeking during prefetch, ending prefetch early");
                 self.downloaded
                     .add(self.prefetch_start_position..current_stream_position);
                 self.prefetch_complete = true;
             }
-            if let Some(content_length) = self.content_length {
+            let (seek_start, seek_end) = if let Some(content_length) = self.content_length {
                 debug!(
                     start = position,
                     end = content_length,
@@ -255,23 +252,26 @@ where
                 );
                 // Only consider gaps from the requested position onwards, otherwise we could end up
                 // with the end of a gap that's before the requested position
-                let gap = if position < content_length {
-                    self.downloaded.next_gap(position..content_length)
+                if position < content_length {
+                    let Some(gap) = self.downloaded.next_gap(position..content_length) else {
+                        // Nothing left to download from this position, keep the current stream
+                        return Ok(());
+                    };
+                    (gap.start, Some(gap.end))
                 } else {
                     // Nothing to download past the end, request an empty range
-                    Some(position..content_length.max(position))
-                };
-                if let Some(gap) = gap {
-                    debug!(
-                        seek_start = gap.start,
-                        seek_end = gap.end,
-                        "requesting seek range"
-                    );
-                    self.seek(stream, gap.start, Some(gap.end)).await?;
+                    (position, Some(position))
                 }
             } else {
-                self.seek(stream, position, None).await?;
+                (position, None)
+            };
+            if restart_prefetch {
+                debug!("re-starting prefetch");
+                self.prefetch_start_position = position;
+                self.prefetch_complete = false;
             }
+            debug!(seek_start, seek_end, "requesting seek range");
+            self.seek(stream, seek_start, seek_end).await?;
         }
         Ok(())
     }
-- 
2.43.0


From d4720a54118d44acecdb6958090547be5bcba710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 15/18] fix: prevent overflow when reading at a position close
 to the maximum

---
 crates/stream-download/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 323b914..aab753f 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -556,7 +556,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
         let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+            self.normalize_requested_position(stream_position.saturating_add(buf.len() as u64));
         trace!(
             current_position = stream_position,
             requested_position = requested_position
-- 
2.43.0


From 03030184c5fba9f0e241dbbc771ddb4f97c5796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 16/18] fix: wake up a waiting reader when the prefetch ends

---
 crates/stream-download/src/source/mod.rs | 34 +++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index cc15edb..1181ba4 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -312,6 +312,9 @@ where
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
             self.downloaded.add(start_position..position);
+            if position > start_position {
+                self.notify_if_reached(position);
+            }
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -335,6 +338,7 @@ where
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
+            self.notify_if_reached(stream_position);
         }
 
         self.report_prefetch_progress(stream, stream_position, download_start, written);
@@ -435,19 +439,7 @@ where
                 self.downloaded.add(position..new_position);
             }
 
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
+            self.notify_if_reached(new_position);
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
@@ -465,6 +457,22 @@ where
         Ok(new_position)
     }
 
+    fn notify_if_reached(&self, new_position: u64) {
+        if let Some(requested) = self.requested_position.get() {
+            debug!(
+                requested_position = requested,
+                current_position = new_position,
+                "received requested position"
+            );
+
+            if new_position >= requested {
+                debug!("notifying position reached");
+                self.requested_position.clear();
+                self.position_reached.notify_position_reached();
+            }
+        }
+    }
+
     fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
         if !stream.supports_seek() {
             warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
-- 
2.43.0


From 04f4c5fe7c7e1811309cd5671aba15420d6217ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 17/18] fix: track which positions a bounded storage holds

---
 crates/stream-download/src/storage/bounded.rs | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 7349cc2..bc3640a 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -26,7 +26,8 @@ use std::sync::Arc;
 
 use educe::Educe;
 use parking_lot::Mutex;
-use tracing::{debug, instrument, trace, warn};
+use rangemap::RangeSet;
+use tracing::{instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
 use crate::{WrapIoResult, checked_seek};
@@ -92,8 +93,7 @@ where
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
             max_capacity,
-            read: 0,
-            written: 0,
+            stored: RangeSet::new(),
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -113,8 +113,9 @@ where
 #[derive(Debug)]
 struct SharedInfo {
     max_capacity: usize,
-    read: usize,
-    written: usize,
+    // Absolute positions that are currently held by the buffer. The writer may be repositioned, so
+    // we can't assume that everything behind it is available.
+    stored: RangeSet<usize>,
     read_position: usize,
     write_position: usize,
     size: usize,
@@ -128,6 +129,18 @@ impl SharedInfo {
     fn mapped_write_position(&self, val: usize) -> usize {
         (val + (self.write_position % self.size)) % self.size
     }
+
+    /// Removes the positions that will be overwritten by the next `len` bytes.
+    fn evict(&mut self, len: usize) {
+        let end = self.write_position + len;
+        // Any position less than `size` away from all of the new positions is stored elsewhere
+        if end > self.size {
+            self.stored.remove(0..end - self.size);
+        }
+        self.stored
+            .remove(self.write_position + self.size..usize::MAX);
+        self.stored.remove(self.write_position..end);
+    }
 }
 
 /// Reader created by a [`BoundedStorageProvider`]. Reads from a fixed-size circular buffer.
@@ -162,26 +175,25 @@ where
             ));
         }
 
+        let size = shared_info.size;
         let available_len = shared_info
-            .write_position
-            .saturating_sub(shared_info.read_position);
-
-        if available_len > shared_info.size {
+            .stored
+            .get(&shared_info.read_position)
+            .map_or(0, |range| range.end - shared_info.read_position);
+
+        if available_len == 0
+            && !buf.is_empty()
+            && shared_info.read_position < shared_info.write_position
+        {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
-                    "read position {} is too far behind write position {}, size {}",
-                    shared_info.read_position, shared_info.write_position, shared_info.size
+                    "read position {} is not available, write position {}, size {size}",
+                    shared_info.read_position, shared_info.write_position
                 ),
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
-            return Ok(0);
-        }
-
-        let size = shared_info.size.min(shared_info.write_position);
         let available_buf_size = available_len.min(buf.len());
 
         trace!(buf_len = buf.len(), "original buf len");
@@ -199,7 +211,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -228,7 +239,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -243,13 +253,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        // The adjustment may be larger than the counter if we previously seeked forward over data
-        // that was never read.
-        let moved_back = shared_info.read_position.saturating_sub(new_position);
-        shared_info.read = shared_info.read.saturating_sub(moved_back);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -305,10 +308,11 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
+        shared_info.evict(buf.len());
+
         self.inner
             .seek(SeekFrom::Start(start as u64))
             .wrap_err("error seeking to mapped write start")?;
@@ -330,8 +334,10 @@ where
         }
 
         let buf_len = buf.len();
+        let start_position = shared_info.write_position;
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
+        let end_position = shared_info.write_position;
+        shared_info.stored.insert(start_position..end_position);
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -352,8 +358,6 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        let moved_back = shared_info.write_position.saturating_sub(new_position);
-        shared_info.written = shared_info.written.saturating_sub(moved_back);
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From d66ceeaf2460717fb0763472c69d5ebd45c83a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 18/18] fix: report lost data as an error instead of the end of
 the stream

---
 crates/stream-download/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index aab753f..b1b65e6 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -455,6 +455,13 @@ impl<P: StorageProvider> StreamDownload<P> {
             trace!(read_length = format!("{l:?}"), "returning read");
         });
         self.handle.notify_read();
+        if read_len > 0 && matches!(res, Ok(0)) {
+            // The storage no longer has the data, this shouldn't be reported as the end of the stream
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "read position is no longer available in the storage",
+            ));
+        }
         res
     }
 
-- 
2.43.0

