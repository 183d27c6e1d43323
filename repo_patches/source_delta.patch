From 2f68c99b20bb8ef87899cedb06acc180c9c78643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:20 +0000
Subject: [PATCH 01/22] fix: keep every line around over-long ones and after
 short or failing reads

The line following an over-long one was dropped or padded with NUL bytes
depending on how the reader segmented the stream, a read error left zeroes in
the buffer and the iterator running, interrupted reads were reported as errors,
and the recursion depth followed the input.
---
 iterator/src/iterator.rs | 169 ++++++++++++++++++++-------------------
 1 file changed, 87 insertions(+), 82 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..39eaf6a 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -28,7 +28,7 @@
 //! You can zero-copy convert a [Bytes] to [&str] using: `std::str::from_utf8(&bytes[..])`.
 
 use bytes::{Buf, Bytes, BytesMut};
-use std::io::{Read, Result};
+use std::io::{ErrorKind, Read, Result};
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum Sep {
@@ -120,7 +120,6 @@ impl<R: Read> Iterator for BytesLines<R> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.state {
             State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
             State::Scanning(_) => self.get_slice(),
         }
     }
@@ -154,70 +153,81 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Append a chunk to the buffer, which never holds more than what was actually read.
+    fn read_chunk(&mut self) -> Result<usize> {
         let pos = self.buf.len();
-        // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
+        let res = loop {
+            match self.reader.read(&mut self.buf[pos..]) {
+                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
+                res => break res,
             }
+        };
+        self.buf.truncate(pos + res.as_ref().map_or(0, |n| *n));
+        res
+    }
 
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
+    // End the iterator, left-overs are not lines.
+    fn stop(&mut self, err: Option<std::io::Error>) -> Option<Result<LogLine>> {
+        self.state = State::EoF;
+        self.buf.clear();
+        err.map(Err)
     }
 
     // Find the next line in the buffer
     fn get_slice(&mut self) -> Option<Result<LogLine>> {
-        match self.find_next_line() {
-            // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
-                self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
-            }
+        loop {
+            match self.find_next_line() {
+                // Step J: The current line is over the limit, and we don't know where it ends.
+                // A trailing backslash may turn out to be a part of the separator.
+                None if self.buf.len() > self.max_line_length + self.escaped as usize => {
+                    if let Err(stop) = self.drop_until_next_line() {
+                        return self.stop(stop);
+                    }
+                }
 
-            // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
-                self.prev_pos = 0;
-                // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
-                self.get_slice()
-            }
+                // Step I: The current line is over the limit, we need to discard it.
+                Some((pos, sep)) if pos > self.max_line_length => {
+                    self.prev_pos = 0;
+                    // The next line is already in the buffer, so we can just advance.
+                    self.buf.advance(pos + sep.len());
+                }
 
-            // Step E: We haven't found the end of the line, we need more data.
-            None => {
-                // Step F: reserve() will attempt to reclaim space in the buffer.
-                self.prev_pos = self.buf.len();
-                self.buf.reserve(self.chunk_size);
-                self.read_slice()
-            }
+                // Step E: We haven't found the end of the line, we need more data.
+                None => {
+                    // Step F: reserve() will attempt to reclaim space in the buffer.
+                    // When pos is at 0, we are at Step A, otherwise this is Step G
+                    let pos = self.buf.len();
+                    self.prev_pos = pos;
+                    self.buf.reserve(self.chunk_size);
+                    match self.read_chunk() {
+                        // We read some data.
+                        Ok(n) if n > 0 => {}
+
+                        // Step H: We reached the end of the reader, but we have left-overs.
+                        Ok(_) if pos > 0 && pos <= self.max_line_length => {
+                            self.update_line_counter(State::EoF);
+                            return Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)));
+                        }
+
+                        // We reached the end of the reader, this is the end.
+                        Ok(_) => return self.stop(None),
+
+                        // There was a reading error, we return it.
+                        Err(e) => return self.stop(Some(e)),
+                    }
+                }
 
-            // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
-                self.prev_pos = 0;
-                // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
-                // Step D: advance the starting position
-                self.buf.advance(sep.len());
-                if res.is_empty() {
-                    self.get_slice()
-                } else {
-                    Some(Ok((res, self.line_count)))
+                // Step B: We found the end of the line, we can return it now.
+                Some((pos, sep)) => {
+                    self.prev_pos = 0;
+                    // Step C: split_to() creates a new zero copy reference to the buffer.
+                    let res = self.buf.split_to(pos).freeze();
+                    // Step D: advance the starting position
+                    self.buf.advance(sep.len());
+                    if !res.is_empty() {
+                        return Some(Ok((res, self.line_count)));
+                    }
                 }
             }
         }
@@ -267,36 +277,31 @@ impl<R: Read> BytesLines<R> {
         self.state = state;
     }
 
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
+    // Drop until we find the next line, or return why we need to stop.
+    fn drop_until_next_line(&mut self) -> std::result::Result<(), Option<std::io::Error>> {
+        loop {
+            // Keep the trailing backslash, the separator may be continued by the next chunk.
+            let keep = self.escaped as usize;
+            self.buf.advance(self.buf.len() - keep);
+            self.prev_pos = keep;
+            self.buf.reserve(self.chunk_size);
+            match self.read_chunk() {
+                // We read some data.
+                Ok(n) if n > 0 => {
+                    if let Some((pos, sep)) = self.find_next_line() {
+                        // The line is terminated, the next one is already in the buffer.
+                        self.prev_pos = 0;
+                        self.buf.advance(pos + sep.len());
+                        return Ok(());
+                    }
                 }
-            },
 
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+                // We reached the end of the reader, this is the end.
+                Ok(_) => return Err(None),
 
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+                // There was a reading error, we return it.
+                Err(e) => return Err(Some(e)),
+            }
         }
     }
 }
-- 
2.43.0


From 22388e8350e8c265665e23492611f1b241547971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 02/22] fix: report every anomaly once with its context at
 chunk, file and failure ends

---
 model/src/process.rs | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..3df1605 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,10 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// No more lines shall be read.
+    ended: bool,
+    /// The read failure to be returned after the anomalies found before it.
+    failure: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,14 +139,36 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            ended: false,
+            failure: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
+    fn next_line(&mut self) -> Result<Option<LogLine>> {
+        if self.ended {
+            return Ok(None);
+        }
+        let line = self.reader.next().transpose()?;
+        if let Some((bytes, _)) = &line {
+            std::str::from_utf8(&bytes[..])
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
+        }
+        Ok(line)
+    }
+
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
-            let line = line?;
+        loop {
+            let line = match self.next_line() {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(e) => {
+                    // The lines read so far are still to be searched.
+                    self.failure = Some(e);
+                    break;
+                }
+            };
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             self.line_count += 1;
@@ -182,7 +208,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        self.ended = true;
+        if !self.buffer.is_empty() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
@@ -190,7 +217,13 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             self.anomalies.push_back(anomaly.clone());
             self.current_anomaly = None;
         }
-        Ok(())
+        match self.failure.take() {
+            Some(e) if self.anomalies.is_empty() => Err(e),
+            failure => {
+                self.failure = failure;
+                Ok(())
+            }
+        }
     }
 
     /// Helper function for the anomalies_from_reader implementation.
@@ -273,6 +306,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    // The after context is not available for the next anomaly before context.
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From 881d4d82f929dbcff8724b16130e33a8c64a6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 03/22] fix: analyse the remaining logs when one can't be
 opened

---
 cli/src/main.rs    | 1 -
 model/src/model.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..eeb6eb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -340,7 +340,6 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                     }
                     Err(err) => {
                         println!("Could not read {}: {}", &source, err);
-                        break;
                     }
                 }
             }
diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..7629281 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -507,7 +507,6 @@ impl Model {
                             }
                             Err(err) => {
                                 read_errors.push((source.clone(), format!("{}", err)));
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 798c19c07e9185120510880488ef8239f82579e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:04 +0000
Subject: [PATCH 04/22] fix: crawl every page to its end, and fail when one
 can't be read

---
 httpdir/src/httpdir.rs | 59 ++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..17902c8 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -109,7 +108,9 @@ impl Crawler {
         if self.workers.panic_count() > 0 {
             Err(mk_error("Crawler panicked!"))
         } else {
-            self.rx.try_iter().flatten().collect()
+            // Drain the channel, so that after an error nothing is left for the next call.
+            let messages: Vec<Message> = self.rx.try_iter().collect();
+            messages.into_iter().flatten().collect()
         }
     }
 
@@ -184,44 +185,30 @@ struct CrawlerIter {
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
+        loop {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => continue,
+
+                // Every sender is gone: no messages are left and all the work is completed.
+                Err(_) => {
+                    self.workers.join();
+                    return if self.workers.panic_count() > 0 && !self.abort {
+                        // There was a panic
+                        self.abort = true;
+                        Some(Err(mk_error("Crawler panicked!")))
+                    } else {
+                        None
+                    };
+                }
             }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
         }
     }
 }
@@ -242,7 +229,7 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client.get(url).send().and_then(|r| r.error_for_status()) {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
-- 
2.43.0


From a5b17cdb06a0d6a6b5ef6769cbf88b7e36629c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:08 +0000
Subject: [PATCH 05/22] fix: analyse sources in a stable order

---
 model/src/files.rs |  2 ++
 model/src/urls.rs  | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..071a800 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -55,6 +55,8 @@ impl Source {
     pub fn dir_iter(path: &Path) -> impl Iterator<Item = Result<Source>> {
         let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);
         walkdir::WalkDir::new(path)
+            // The report depends on the order of the sources
+            .sort_by_file_name()
             .into_iter()
             .filter(Source::keep_path)
             .map(move |res| match res {
diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..e99c120 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -50,10 +50,14 @@ impl Source {
                 }),
         };
         match urls {
-            Ok(urls) => Box::new(
-                urls.into_iter()
-                    .map(move |u| Ok(Source::Remote(base_len, u))),
-            ),
+            Ok(mut urls) => {
+                // The crawler workers produce the urls in any order
+                urls.sort();
+                Box::new(
+                    urls.into_iter()
+                        .map(move |u| Ok(Source::Remote(base_len, u))),
+                )
+            }
             Err(e) => Box::new(std::iter::once(Err(e))),
         }
     }
-- 
2.43.0


From 6e852504bc00bf4eada636dd12513a1db0f8400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:08 +0000
Subject: [PATCH 06/22] fix: don't panic on the length of a source location

---
 model/src/model.rs | 8 ++++++--
 model/src/urls.rs  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7629281..d30885b 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,12 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, _) | Source::Remote(base_len, _) => {
+                // The source may not be below the base, e.g. when an index links another site
+                self.as_str()
+                    .get(*base_len..)
+                    .unwrap_or_else(|| self.as_str())
+            }
         }
     }
 
diff --git a/model/src/urls.rs b/model/src/urls.rs
index e99c120..e162887 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,8 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            let base = url.as_str().get(..prefix).unwrap_or_else(|| url.as_str());
+            crate::reader::from_url(&Url::parse(base)?, url)
         }
     }
 
-- 
2.43.0


From 5a90a712b29f7b6d8c5d0f60b5f8db3699cf4909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:36 +0000
Subject: [PATCH 07/22] fix: report failed saves and verify what is loaded

The encoder's last writes happened on drop, where their errors were ignored, so a
full disk left an incomplete file after a successful save. Loading decoded the
content before its checksum was verified, so a damaged file gave another model.
---
 model/src/model.rs | 54 +++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index d30885b..c943642 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -9,6 +9,7 @@ use anyhow::{Context, Result};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
+use std::io::Read;
 use std::path::{Path, PathBuf};
 use std::time::{Duration, Instant, SystemTime};
 use url::Url;
@@ -239,23 +240,29 @@ pub struct Report {
     pub total_anomaly_count: usize,
 }
 
+/// Read a whole compressed file, so that its checksum is verified before the content is decoded.
+fn read_gz(file: std::fs::File) -> std::io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    flate2::read::GzDecoder::new(file).read_to_end(&mut data)?;
+    Ok(data)
+}
+
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        // Dropping the encoder would ignore the errors of its last writes
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open report file")?,
-        ))
-        .context("Can't load report")
+        let file = std::fs::File::open(path).context("Can't open report file")?;
+        bincode::deserialize(&read_gz(file).context("Can't load report")?)
+            .context("Can't load report")
     }
 }
 
@@ -438,22 +445,21 @@ impl Model {
 
     pub fn load(path: &Path) -> Result<Model> {
         tracing::info!(path = path.to_str(), "Loading provided model");
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open file")?,
-        ))
-        .context("Can't load model")
+        let file = std::fs::File::open(path).context("Can't open file")?;
+        bincode::deserialize(&read_gz(file).context("Can't load model")?)
+            .context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        // Dropping the encoder would ignore the errors of its last writes
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From 04f1ce2a963525551dc464f94146bc174d6879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 08/22] fix: decompress local archives

The extension is without its dot, so archives were analysed in their compressed form.
An archive may have several members, and the decoders end for good when a read is
interrupted, which would pass for the end of the log.
---
 cache/src/cache.rs  | 18 ++++++++++++++++--
 model/src/reader.rs | 11 +++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..9389d1e 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -73,10 +73,10 @@ impl Cache {
     }
 
     /// Get a cached file reader.
-    pub fn remote_get(&self, base: &Url, path: &Url) -> Option<Result<GzDecoder<File>>> {
+    pub fn remote_get(&self, base: &Url, path: &Url) -> Option<Result<GzDecoder<FileReader>>> {
         self.get(&filename::http(base, path)).map(|buf| {
             let fp = File::open(buf)?;
-            Ok(GzDecoder::new(fp))
+            Ok(GzDecoder::new(FileReader(fp)))
         })
     }
 
@@ -137,6 +137,20 @@ impl Cache {
     }
 }
 
+/// A file to decode: the decoders stop for good at an interrupted read, so that needs to be retried here.
+pub struct FileReader(pub File);
+
+impl Read for FileReader {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                res => return res,
+            }
+        }
+    }
+}
+
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..59d0a8c 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -42,7 +42,9 @@ mod remote {
 #[allow(clippy::large_enum_variant)]
 pub enum DecompressReader {
     Flat(File),
-    Gz(GzDecoder<File>),
+    Gz(GzDecoder<logreduce_cache::FileReader>),
+    // Local archives may have more than one member
+    MultiGz(MultiGzDecoder<logreduce_cache::FileReader>),
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
@@ -52,8 +54,8 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
-        Gz(GzDecoder::new(fp))
+    Ok(if extension == "gz" {
+        MultiGz(MultiGzDecoder::new(logreduce_cache::FileReader(fp)))
     } else {
         Flat(fp)
     })
@@ -109,6 +111,7 @@ impl Read for DecompressReader {
         match self {
             Flat(r) => r.read(buf),
             Gz(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
         }
-- 
2.43.0


From 2d2ba3c6cc77ce388b464cd30b6beb45a63a1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 09/22] fix: don't analyse an error answer as if it was the log

---
 model/src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 59d0a8c..bc93348 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 146194014a7d47044fb9dadac8c59768e0f1aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 10/22] fix: pass over builds without a change instead of
 panicking

---
 model/src/zuul.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..e741fec 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -79,8 +79,8 @@ impl Build {
         }
         // Older builds are less valuable
         score -= elapsed_days(now, target.end_time.date_naive());
-        // Check the build has URLs
-        match target.log_url.is_some() && target.ref_url.is_some() {
+        // Check the build has URLs and a change
+        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
             true => Some(score),
             false => None,
         }
@@ -107,7 +107,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +130,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +139,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("Invalid build: no log_url")?,
+        ref_url: build.ref_url.context("Invalid build: no ref_url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("Invalid build: no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +216,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From 5aa63a002f4f864f911863de30015127406b41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:28 +0000
Subject: [PATCH 11/22] fix: don't remember a failing server as missing logs

---
 model/src/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index bc93348..41c3441 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -38,7 +38,12 @@ mod remote {
 
     pub fn head(url: &Url) -> Result<bool> {
         let resp = CLIENT.head(url.clone()).send().context("Can't head url")?;
-        Ok(resp.status().is_success())
+        let status = resp.status();
+        // A temporary failure does not tell if the url exists, and it must not be cached
+        if status.is_server_error() || matches!(status.as_u16(), 408 | 429) {
+            return Err(anyhow::anyhow!("Can't head url: {}", status));
+        }
+        Ok(status.is_success())
     }
 }
 
-- 
2.43.0


From b4a5d1eef31ce79594fddcef415a009e947af2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:48 +0000
Subject: [PATCH 12/22] fix: store cache entries only when they are complete

---
 cache/src/cache.rs | 106 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 88 insertions(+), 18 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 9389d1e..40f3a89 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -69,7 +69,8 @@ impl Cache {
         } else {
             filename::head_failure(base, path)
         };
-        self.create(&fp).map(|_| result)
+        self.create(&fp)?.commit()?;
+        Ok(result)
     }
 
     /// Get a cached file reader.
@@ -85,7 +86,7 @@ impl Cache {
         let fp = self.create(&filename::http(base, path))?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some(GzEncoder::new(fp, flate2::Compression::fast())),
         })
     }
 
@@ -99,8 +100,11 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let mut fp = self.create(&filename::httpdir(url))?;
+        let data = bincode::serialize(paths).context("Failed to serialize httpdir save")?;
+        fp.write_all(&data)
+            .context("Failed to write httpdir save")?;
+        Ok(fp.commit()?)
     }
 
     /// Remove a remote file from the cache.
@@ -124,16 +128,66 @@ impl Cache {
     }
 
     // creates a new cache entry.
-    fn create(&self, path: &str) -> Result<File> {
+    fn create(&self, path: &str) -> Result<Entry> {
         let buf = self.xdg.get_cache_file(path);
-        let path = buf.as_path();
-        if path.exists() {
-            Err(anyhow::anyhow!("Cache file already exist: {:?}", buf))
-        } else {
-            let parent = path.parent().context("Failed to get cache parent")?;
-            std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            File::create(buf).context("Failed to create local cache file")
+        let parent = buf.parent().context("Failed to get cache parent")?;
+        std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
+        Entry::new(buf).context("Failed to create local cache file")
+    }
+}
+
+/// A cache entry that is being written: it becomes visible when it is committed,
+/// and it is removed when that doesn't happen.
+struct Entry {
+    file: File,
+    tmp: Option<std::path::PathBuf>,
+    path: std::path::PathBuf,
+}
+
+impl Entry {
+    fn new(path: std::path::PathBuf) -> std::io::Result<Entry> {
+        // Find a name that is not used by another process
+        let mut count = 0;
+        loop {
+            let tmp = path.with_extension(format!("{}.tmp", count));
+            match std::fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&tmp)
+            {
+                Ok(file) => {
+                    let tmp = Some(tmp);
+                    return Ok(Entry { file, tmp, path });
+                }
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => count += 1,
+                Err(e) => return Err(e),
+            }
+        }
+    }
+
+    fn commit(mut self) -> std::io::Result<()> {
+        if let Some(tmp) = &self.tmp {
+            std::fs::rename(tmp, &self.path)?;
         }
+        self.tmp = None;
+        Ok(())
+    }
+}
+
+impl Drop for Entry {
+    fn drop(&mut self) {
+        if let Some(tmp) = &self.tmp {
+            let _ = std::fs::remove_file(tmp);
+        }
+    }
+}
+
+impl Write for Entry {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.file.write(buf)
+    }
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.file.flush()
     }
 }
 
@@ -154,7 +208,8 @@ impl Read for FileReader {
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    // The entry, until it is complete or failed
+    local: Option<GzEncoder<Entry>>,
 }
 
 impl<R: Read> Read for CacheReader<R> {
@@ -162,12 +217,27 @@ impl<R: Read> Read for CacheReader<R> {
         // Read remote data.
         let remote_read = self.remote.read(buf);
         match remote_read {
+            // The remote is complete
+            Ok(0) if !buf.is_empty() => match self.local.take() {
+                Some(local) => local.finish()?.commit().map(|()| 0),
+                None => Ok(0),
+            },
             // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
-            Err(e) => Err(e),
+            Ok(remote_size) => {
+                if let Some(local) = self.local.as_mut() {
+                    if let Err(e) = local.write_all(&buf[..remote_size]) {
+                        self.local = None;
+                        return Err(e);
+                    }
+                }
+                Ok(remote_size)
+            }
+            // The caller reads again
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Err(e),
+            Err(e) => {
+                self.local = None;
+                Err(e)
+            }
         }
     }
 }
-- 
2.43.0


From 6a33bce30ce5f2294b82b087b77d8f529bdded5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:30 +0000
Subject: [PATCH 13/22] fix: name the logs that were not analysed in the html
 report

---
 report/src/report.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..2a883f7 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -90,6 +90,7 @@ fn add_body(parent: &mut Node, report: &logreduce_model::Report) -> Result<()> {
 
     add_nav(&mut body)?;
     add_container(&mut body, report)?;
+    add_errors(&mut body, report)?;
 
     for (src, integrity) in SCRIPTS {
         add_script(&mut body, src, integrity)
@@ -210,8 +211,25 @@ fn add_container(body: &mut Node, report: &logreduce_model::Report) -> Result<()
     // Model summary table
     // TODO: Model | Train time | Infos | Baseline files
 
-    // Error table
-    // TODO: Add files that were not processed dut to errors or missing model name
+    Ok(())
+}
+
+/// Show the files that were not processed due to errors or missing model name
+fn add_errors(parent: &mut Node, report: &logreduce_model::Report) -> Result<()> {
+    let read_errors = report
+        .read_errors
+        .iter()
+        .map(|(source, error)| (source, error.as_str()));
+    let index_errors = report
+        .index_errors
+        .iter()
+        .flatten()
+        .map(|source| (source, "No baselines"));
+    let mut ul = parent.ul();
+    for (source, error) in read_errors.chain(index_errors) {
+        ul.li()
+            .write_str(&format!("{}: {}", source.as_str(), error))?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 3067f7a53e3ef235edda9d54a2c354ab6c3200de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:31 +0000
Subject: [PATCH 14/22] fix: don't underflow the position of the context of the
 first lines

---
 report/src/report.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index 2a883f7..98126cf 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -365,7 +365,8 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        // Several log lines may share a line number
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From 45df10760d6631617a60c28e0e22734c9c2bbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:50 +0000
Subject: [PATCH 15/22] fix: don't panic on arguments that only look like urls

---
 model/src/files.rs | 8 ++++----
 model/src/model.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index 071a800..20ea7e1 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -6,7 +6,7 @@
 use anyhow::{Context, Result};
 use std::path::Path;
 
-use crate::{Baselines, Content, IndexName, Input, Source};
+use crate::{Baselines, Content, IndexName, Source};
 
 impl Content {
     #[tracing::instrument(level = "debug")]
@@ -25,9 +25,9 @@ impl Content {
     #[tracing::instrument(level = "debug")]
     pub fn discover_baselines_from_path(path: &Path) -> Result<Baselines> {
         // TODO: implement discovery by looking for common rotated file names.
-        let mut path_str = path.to_path_buf().into_os_string().into_string().unwrap();
-        path_str.push_str(".0");
-        let baseline = Content::from_input(Input::Path(path_str))?;
+        let mut path_str = path.to_path_buf().into_os_string();
+        path_str.push(".0");
+        let baseline = Content::from_path(Path::new(&path_str))?;
         Ok(vec![baseline])
     }
 }
diff --git a/model/src/model.rs b/model/src/model.rs
index c943642..251629b 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -45,7 +45,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
@@ -339,7 +339,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From c66f76564574e7bb62c93a5cfd4089255b863248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:35 +0000
Subject: [PATCH 16/22] fix: show the context lines of the live output with
 their own line number

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index eeb6eb4..1dcde73 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From ae5310eec50eef36c46bebecb25d6617940191a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:35 +0000
Subject: [PATCH 17/22] fix: don't panic when a dataset directory can't be
 listed

---
 cli/src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/dataset.rs b/cli/src/dataset.rs
index c5ea73b..e339efe 100644
--- a/cli/src/dataset.rs
+++ b/cli/src/dataset.rs
@@ -38,8 +38,8 @@ pub fn test_datasets(paths: &[String]) -> Result<()> {
 fn process(path: &Path, dataset: Dataset) -> Result<()> {
     let expected_count = dataset.anomalies.len();
     let paths = std::fs::read_dir(path)?
-        .map(|d| d.unwrap().path())
-        .collect::<Vec<std::path::PathBuf>>();
+        .map(|d| d.map(|d| d.path()))
+        .collect::<std::io::Result<Vec<std::path::PathBuf>>>()?;
     match (
         paths
             .iter()
-- 
2.43.0


From 548c1056395f56425ee9c831b419fa4ab0e69e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:35 +0000
Subject: [PATCH 18/22] fix: write the logs of a report in a stable order

---
 model/src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 251629b..7ed3301 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -478,7 +478,11 @@ impl Model {
         let mut read_errors = Vec::new();
         let mut total_line_count = 0;
         let mut total_anomaly_count = 0;
-        for (index_name, sources) in Content::group_sources(&[target.clone()])?.drain() {
+        // Sort the groups, so that the report does not depend on the hash map order
+        for (index_name, sources) in Content::group_sources(&[target.clone()])?
+            .drain()
+            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))
+        {
             let mut skip_lines = HashSet::new();
             match self.get_index(&index_name) {
                 Some(index) => {
-- 
2.43.0


From 00455b57b5b02e1495005f2a3adfe34364f7f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 19/22] fix: show log content as text in the html report

---
 report/src/report.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index 98126cf..f82bed6 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -12,6 +12,14 @@ pub fn render(report: &logreduce_model::Report) -> Result<String> {
     Ok(Html::from(report)?.render())
 }
 
+/// Log content and names are text, not markup
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+}
+
 struct Html {
     buffer: Buffer,
 }
@@ -47,14 +55,14 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
         let mut thead = table.thead();
         let mut tr = thead.tr();
         for column in columns {
-            tr.th().write_str(column)?;
+            tr.th().write_str(&escape(column))?;
         }
     }
     let mut tbody = table.tbody();
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +77,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -228,7 +236,7 @@ fn add_errors(parent: &mut Node, report: &logreduce_model::Report) -> Result<()>
     let mut ul = parent.ul();
     for (source, error) in read_errors.chain(index_errors) {
         ul.li()
-            .write_str(&format!("{}: {}", source.as_str(), error))?;
+            .write_str(&escape(&format!("{}: {}", source.as_str(), error)))?;
     }
     Ok(())
 }
@@ -276,7 +284,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -291,9 +299,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -304,7 +312,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -337,8 +345,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -356,7 +364,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -382,7 +390,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From b5b2f5d22b2c6813170a41d0a0c160388e2accf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:12 +0000
Subject: [PATCH 20/22] fix: learn every source of a group the way it is
 inspected

---
 model/src/model.rs   | 9 +++------
 model/src/process.rs | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7ed3301..b201fc1 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -271,13 +271,10 @@ impl Index {
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
         let created_at = SystemTime::now();
         let start_time = Instant::now();
-        let is_json = if let Some(source) = sources.first() {
-            source.is_json()
-        } else {
-            false
-        };
-        let mut trainer = process::ChunkTrainer::new(&mut index, is_json);
+        let mut trainer = process::ChunkTrainer::new(&mut index, false);
         for source in sources {
+            // The sources are inspected one by one, so they must be learned the same way
+            trainer.is_json = source.is_json();
             let reader = match source {
                 Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                 Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
diff --git a/model/src/process.rs b/model/src/process.rs
index 3df1605..0bd5c10 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -17,7 +17,7 @@ const CHUNK_SIZE: usize = 512;
 /// Helper struct to manage indexing multiples readers.
 pub struct ChunkTrainer<'a> {
     index: &'a mut ChunkIndex,
-    is_json: bool,
+    pub is_json: bool,
     skip_lines: HashSet<String>,
     baselines: Vec<String>,
     pub line_count: usize,
-- 
2.43.0


From 0c140959b187c21e17b98c372e988736b63c0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:00 +0000
Subject: [PATCH 21/22] fix: crawl the directories below a start page that is
 not a directory

---
 httpdir/src/httpdir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 17902c8..ac4a77e 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -51,7 +51,8 @@ impl Visitor {
     }
 
     fn visit(&self, url: &Url) -> Option<Visitor> {
-        let min_len = url.path().len();
+        // The directory part, to allow starting from a page such as index.html
+        let min_len = url.path().rfind('/').map_or(0, |pos| pos + 1);
         if min_len > self.min_len {
             Some(Visitor { min_len })
         } else {
-- 
2.43.0


From 2fd4647d24fe3df8a13c35103ea7b548e23d5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:12 +0000
Subject: [PATCH 22/22] fix: write the content of a cache entry to the disk
 before its name

---
 cache/src/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 40f3a89..d157f6f 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -167,6 +167,8 @@ impl Entry {
 
     fn commit(mut self) -> std::io::Result<()> {
         if let Some(tmp) = &self.tmp {
+            // The content must be on the disk before the name is
+            self.file.sync_all()?;
             std::fs::rename(tmp, &self.path)?;
         }
         self.tmp = None;
-- 
2.43.0

