From 8cc4332c66314c05c4b0cef2b99ca6685ec45dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 01/15] fix: request a well-formed range when seeking behind
 the writer

When the writer was before the requested position but not within the same
downloaded range, the requested range could start after it ended.
---
 crates/stream-download/src/source/handle.rs |  3 +++
 crates/stream-download/src/source/mod.rs    | 23 ++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..994469b 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -165,6 +165,9 @@ impl Downloaded {
     }
 
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
+        if range.is_empty() {
+            return None;
+        }
         self.0.read().gaps(&range).next()
     }
 }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..b0e84bf 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -248,20 +248,19 @@ where
                 self.prefetch_complete = true;
             }
             if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
+                // The seek position may already be downloaded if the writer is somewhere else in
+                // the stream, so look for the first gap after it. Anything before the position
+                // is handled once the rest of the stream is finished.
+                let gap = self
+                    .downloaded
+                    .next_gap(position..content_length)
+                    .unwrap_or(position..content_length);
                 debug!(
-                    start = min_start_position,
-                    end = content_length,
-                    "checking for seek range",
+                    seek_start = gap.start,
+                    seek_end = gap.end,
+                    "requesting seek range"
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
-                }
+                self.seek(stream, gap.start, Some(gap.end)).await?;
             } else {
                 self.seek(stream, position, None).await?;
             }
-- 
2.43.0


From 8a56aa85c3dd7209cde2f3383ffd8ab74bdd4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 02/15] fix: do not panic when reading past the end of memory
 storage

---
 crates/stream-download/src/storage/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..8d3775e 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -63,6 +63,10 @@ impl Read for MemoryStorage {
         let available_len =
             (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            // the position may be past the end of the buffer
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
-- 
2.43.0


From fb80469e9ca7ffef052974e964adc9a782062e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 03/15] fix: reject seeks to negative or overflowing positions

---
 crates/stream-download/src/lib.rs             |  4 ++--
 crates/stream-download/src/storage/bounded.rs |  6 ++++--
 crates/stream-download/src/storage/memory.rs  |  8 +++++---
 crates/stream-download/src/storage/mod.rs     | 10 ++++++++++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..06120a9 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -432,12 +432,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                storage::offset_position(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    storage::offset_position(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..12b5c62 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -28,7 +28,7 @@ use educe::Educe;
 use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
-use super::{StorageProvider, StorageReader, StorageWriter};
+use super::{StorageProvider, StorageReader, StorageWriter, offset_position};
 use crate::WrapIoResult;
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
@@ -251,7 +251,9 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => {
+            Ok(offset_position(current_position as u64, from_current)? as usize)
+        }
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 8d3775e..f010571 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -9,7 +9,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 
 use parking_lot::RwLock;
 
-use super::StorageProvider;
+use super::{StorageProvider, offset_position};
 use crate::WrapIoResult;
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
@@ -78,8 +78,10 @@ impl Seek for MemoryStorage {
         let len = self.inner.read().len();
         let new_position = match position {
             SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
+            SeekFrom::Current(from_current) => {
+                offset_position(self.position as u64, from_current)? as usize
+            }
+            SeekFrom::End(from_end) => offset_position(len as u64, from_end)? as usize,
         };
 
         self.position = new_position;
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..3e390c6 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -30,6 +30,16 @@ pub trait StorageProvider: Send {
     }
 }
 
+/// Applies a relative seek offset, ensuring the result is a valid position.
+pub(crate) fn offset_position(base: u64, offset: i64) -> io::Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 /// Trait used to read from a storage layer
 pub trait StorageReader: Read + Seek + Send {}
 
-- 
2.43.0


From aafc8d41509e29256b1308fd8372413a7c76edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 04/15] fix: observe cancellation while seeking, reconnecting
 or waiting for the reader

---
 crates/stream-download/src/source/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index b0e84bf..8e6640c 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -171,7 +171,16 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        // The task may be waiting on something other than the next chunk (such as a seek or for the
+        // reader to make space in the storage), so the whole download needs to be cancellable.
+        let res = cancellation_token
+            .run_until_cancelled(self.download_inner(&mut stream))
+            .await
+            .unwrap_or_else(|| {
+                debug!("received cancellation request, stopping download task");
+                Ok(StreamOutcome::CancelledByUser)
+            });
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
@@ -223,10 +232,6 @@ where
                         break;
                     }
                 }
-                () = self.cancellation_token.cancelled() => {
-                    debug!("received cancellation request, stopping download task");
-                    return Ok(StreamOutcome::CancelledByUser);
-                }
             };
         }
         self.report_download_complete(stream, download_start)?;
-- 
2.43.0


From fcc8e200709f1c1ee41679aa33165cf3551e17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 05/15] fix: wake a writer that is waiting for the reader when
 seeking

---
 crates/stream-download/src/source/handle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 994469b..74e9548 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -44,6 +44,7 @@ impl SourceHandle {
             requested_position = seek_position,
             "waiting for requested position"
         );
+        self.notify_read.notify_waiting();
         self.position_reached.wait_for_position_reached();
     }
 
-- 
2.43.0


From 7677b4abf50e7b56507e71d111fa2e8e60b1e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 06/15] fix: do not treat a failed reconnect as successful

---
 crates/stream-download/src/source/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8e6640c..932c54b 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -281,6 +281,8 @@ where
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
         let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
         if reconnect_pos
+            .map_err(io::Error::from)
+            .flatten()
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
             && let Some(on_reconnect) = &mut self.on_reconnect
-- 
2.43.0


From 4ad64401450b969abaaf918f2382f45d72dfccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 07/15] fix: do not write bytes left over from before a seek or
 reconnect at the wrong position

---
 crates/stream-download/src/source/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 932c54b..75b45b7 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -275,7 +275,9 @@ where
 
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
         warn!("timed out reading next chunk, retrying");
-        let pos = self.writer.stream_position()?;
+        // Bytes that were received but not written yet don't need to be requested again
+        let remaining_len = self.remaining_bytes.as_ref().map_or(0, Bytes::len);
+        let pos = self.writer.stream_position()? + remaining_len as u64;
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
@@ -473,6 +475,8 @@ where
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        // Any bytes left over from the previous position don't belong at the new one
+        self.remaining_bytes = None;
         Ok(())
     }
 
-- 
2.43.0


From 24c22c07c906cec54777544f721eb2b3c2c5ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 08/15] fix: do not panic when an empty chunk is received at
 the start of the stream

---
 crates/stream-download/src/source/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 75b45b7..5871f6b 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -525,8 +525,9 @@ where
                 current_position: pos,
                 current_chunk: self
                     .downloaded
-                    .get(new_position - 1)
-                    .expect("position already downloaded"),
+                    // an empty chunk may be received before anything is written
+                    .get(new_position.max(1) - 1)
+                    .unwrap_or_default(),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Downloading { chunk_size },
             },
-- 
2.43.0


From a43128a6b95d2eb64e14656d05ad9170c90b1b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 09/15] fix: do not end reads early or panic after seeking in
 bounded storage

The byte counters did not account for forward seeks, so a later backward seek
could underflow them. The positions are enough to determine what's available.
---
 crates/stream-download/src/storage/bounded.rs | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 12b5c62..356cc25 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -90,8 +90,6 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -110,8 +108,6 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
     read_position: usize,
     write_position: usize,
     size: usize,
@@ -172,11 +168,6 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
-            return Ok(0);
-        }
-
         let size = shared_info.size.min(shared_info.write_position);
         let available_buf_size = available_len.min(buf.len());
 
@@ -184,6 +175,7 @@ where
 
         let buf = &mut buf[..available_buf_size];
         if buf.is_empty() {
+            debug!("no bytes available, ending read");
             return Ok(0);
         }
 
@@ -195,7 +187,7 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
+            read_position = shared_info.read_position,
             "bounded read"
         );
 
@@ -224,7 +216,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -239,10 +230,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -298,7 +285,7 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
+            write_position = shared_info.write_position,
             "bounded write"
         );
 
@@ -324,7 +311,6 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -345,7 +331,6 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 7520f7ed2dd4bc4d0686dfd6d0433d74c8fe89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 10/15] fix: allow reads larger than a source that is smaller
 than the bounded storage

---
 crates/stream-download/src/storage/bounded.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 356cc25..271e425 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -96,6 +96,7 @@ where
         })));
         let reader = BoundedStorageReader {
             inner: reader,
+            capacity: self.buffer_size,
             shared_info: shared_info.clone(),
         };
         let writer = BoundedStorageWriter {
@@ -132,6 +133,8 @@ where
 {
     #[educe(Debug = false)]
     inner: T,
+    // The requested buffer size, this may be larger than what was allocated if the source is small
+    capacity: usize,
     shared_info: Arc<AssertUnwindSafe<Mutex<SharedInfo>>>,
 }
 
@@ -143,13 +146,13 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut shared_info = self.shared_info.lock();
 
-        if buf.len() > shared_info.size {
+        if buf.len() > self.capacity {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
                     "read size {} is greater than buffer size {}",
                     buf.len(),
-                    shared_info.size
+                    self.capacity
                 ),
             ));
         }
-- 
2.43.0


From 0f18d41ad7813e366c593eae17c802579e470ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 11/15] fix: only report completion after the download task has
 finished

---
 crates/stream-download/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 06120a9..9cb12a5 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -65,6 +65,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    download_task_finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -373,7 +374,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.download_task_finished.clone(),
         }
     }
 
@@ -405,11 +406,16 @@ impl<P: StorageProvider> StreamDownload<P> {
         let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
         let handle = source.source_handle();
 
+        // This needs to be separate from the token used to request cancellation, otherwise the
+        // download would be considered finished before the task had a chance to clean up.
+        let download_finished = CancellationToken::new();
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
+            let download_finished = download_finished.clone();
             async move {
                 source.download(stream).await;
                 cancellation_token.cancel();
+                download_finished.cancel();
                 debug!("download task finished");
             }
         });
@@ -418,6 +424,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            download_task_finished: download_finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From efd3957c06c1ce6fbfb865503e6d42ee3380207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 12/15] fix: check the response status when reconnecting
 without range requests

---
 crates/stream-download/src/http/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..26b3a00 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -350,6 +350,14 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
+            let response = match response.into_result() {
+                Ok(response) => Ok(response),
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url))
+                }
+            }?;
             self.stream = Box::new(response.stream());
             Ok(())
         }
-- 
2.43.0


From 7c2db12cc35df54abfe8441b75734cb5c1797f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 13/15] fix: never return bytes from a gap in the downloaded
 data

Reading only waited for the download to move past the requested position. If
the download was ahead of a gap left by an earlier seek, the read returned
whatever the storage contained instead of downloading the missing data.
---
 crates/stream-download/src/lib.rs           | 36 +++++++++++++++++++--
 crates/stream-download/src/source/handle.rs | 21 ++++++++++++
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 9cb12a5..de65881 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -6,6 +6,7 @@
 use std::fmt::Debug;
 use std::future::{self, Future};
 use std::io::{self, Read, Seek, SeekFrom};
+use std::ops::Range;
 
 use educe::Educe;
 pub use settings::*;
@@ -455,6 +456,34 @@ impl<P: StorageProvider> StreamDownload<P> {
         })
     }
 
+    /// Waits for the requested range to be downloaded and returns the end of the data
+    /// that can be read.
+    ///
+    /// Reaching the end position isn't enough to know that the data is available since the download
+    /// could be ahead of a gap that was left by an earlier seek.
+    fn wait_for_range(&self, range: Range<u64>) -> io::Result<u64> {
+        self.handle.wait_for_position(range.end);
+        loop {
+            self.check_for_failure()?;
+            // This needs to be checked before looking for the gap, no more data is added after this
+            let stream_done = self.handle.is_stream_done();
+            let Some(gap) = self.handle.next_gap(range.clone()) else {
+                return Ok(range.end);
+            };
+            if stream_done {
+                if gap.start == range.start && self.handle.downloaded_end() > gap.start {
+                    return Err(io::Error::other("stream position was never downloaded"));
+                }
+                return Ok(gap.start);
+            }
+            debug!(gap = format!("{gap:?}"), "requesting missing stream chunk");
+            self.handle.seek(gap.start);
+            if self.handle.next_gap(range.clone()).is_some() {
+                self.handle.wait_for_position(range.end);
+            }
+        }
+    }
+
     fn handle_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let res = self.output_reader.read(buf).inspect(|l| {
             trace!(read_length = format!("{l:?}"), "returning read");
@@ -581,8 +610,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             debug!("stream position not yet downloaded");
         }
 
-        self.handle.wait_for_position(requested_position);
-        self.check_for_failure()?;
+        let readable_end = self.wait_for_range(stream_position..requested_position)?;
         debug!(
             current_position = stream_position,
             requested_position = requested_position,
@@ -590,6 +618,10 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             "reached requested position"
         );
 
+        if readable_end < requested_position {
+            let readable_len = (readable_end - stream_position) as usize;
+            return self.handle_read(&mut buf[..readable_len]);
+        }
         self.handle_read(buf)
     }
 }
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 74e9548..db2f4df 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -27,6 +27,18 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
+    pub(crate) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
+        self.downloaded.next_gap(range)
+    }
+
+    pub(crate) fn downloaded_end(&self) -> u64 {
+        self.downloaded.end()
+    }
+
+    pub(crate) fn is_stream_done(&self) -> bool {
+        self.position_reached.is_stream_done()
+    }
+
     pub(crate) fn wait_for_position(&self, requested_position: u64) {
         self.request_position(requested_position);
         debug!(
@@ -128,6 +140,11 @@ impl PositionReached {
         cvar.notify_all();
     }
 
+    fn is_stream_done(&self) -> bool {
+        let (mutex, _) = self.0.as_ref();
+        mutex.lock().stream_done
+    }
+
     fn wait_for_position_reached(&self) {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
@@ -165,6 +182,10 @@ impl Downloaded {
         self.0.read().get(&position).cloned()
     }
 
+    fn end(&self) -> u64 {
+        self.0.read().last().map_or(0, |range| range.end)
+    }
+
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
         if range.is_empty() {
             return None;
-- 
2.43.0


From 7999e89363e176d3719da07a4b2d2fa6e8fb1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 14/15] fix: don't advance the bounded write position if
 flushing fails

---
 crates/stream-download/src/storage/bounded.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 271e425..057c354 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -312,11 +312,11 @@ where
                 .wrap_err("error writing second mapped segment")?;
         }
 
+        self.inner.flush().wrap_err("error flushing during write")?;
+
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
 
-        self.inner.flush().wrap_err("error flushing during write")?;
-
         Ok(buf_len)
     }
 
-- 
2.43.0


From fe78748202caacc98a87dc55bcbf85492d338484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 15/15] fix: reap the intermediate processes of a command
 pipeline

---
 .../src/process/command_builder.rs            | 23 +++++++++++--------
 crates/stream-download/src/process/mod.rs     |  4 ++--
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 2102b11..4c00bf7 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -40,30 +40,35 @@ impl SpawnCommand for CommandBuilder {
         let mut stderr_files = Vec::new();
 
         for command in self.commands {
-            let mut std_command = std::process::Command::new(command.program);
-            std_command
+            // The handle isn't kept, so this needs to be a tokio command since tokio reaps the process
+            // in the background after the handle is dropped
+            let mut tokio_command = tokio::process::Command::new(command.program);
+            tokio_command
                 .args(command.args.clone())
                 .stdout(Stdio::piped());
             if let Some(handle) = command.stderr_handle {
-                std_command.stderr(handle);
+                tokio_command.stderr(handle);
             } else {
                 let (stdio, stderr_file) = stdio_to_tmp_file()?;
-                std_command.stderr(stdio);
+                tokio_command.stderr(stdio);
                 stderr_files.push(stderr_file);
             }
 
             #[cfg(target_os = "windows")]
             {
                 // CREATE_NO_WINDOW
-                use std::os::windows::process::CommandExt;
-                std_command.creation_flags(0x08000000);
+                tokio_command.creation_flags(0x08000000);
             }
 
             if let Some(prev_stdout) = prev_stdout.take() {
-                std_command.stdin(prev_stdout);
+                tokio_command.stdin(prev_stdout);
             }
-            let mut command_out = std_command.spawn().wrap_err("error spawning process")?;
-            prev_stdout = command_out.stdout.take();
+            let mut command_out = tokio_command.spawn().wrap_err("error spawning process")?;
+            prev_stdout = command_out
+                .stdout
+                .take()
+                .map(TryInto::<Stdio>::try_into)
+                .transpose()?;
         }
         SpawnedCommand::new(last, prev_stdout, stderr_files)
     }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 254b61e..925e4d0 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -19,7 +19,7 @@ use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::mem;
 use std::pin::Pin;
-use std::process::{ChildStdout, Stdio};
+use std::process::Stdio;
 use std::task::Poll;
 
 use bytes::Bytes;
@@ -128,7 +128,7 @@ pub struct SpawnedCommand {
 impl SpawnedCommand {
     fn new(
         command: Command,
-        prev_out: Option<ChildStdout>,
+        prev_out: Option<Stdio>,
         mut stderr_files: Vec<NamedTempFile>,
     ) -> Result<Self, io::Error> {
         let mut tokio_command = tokio::process::Command::new(command.program);
-- 
2.43.0

