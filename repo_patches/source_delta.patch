From c36b272c00c1e41f64af19031b48dc7c1da1b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 01/63] fix: read the next-IFD pointer even when fewer than 12
 bytes follow it

---
 src/exif/exif_iter.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..ebeee22 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -1030,10 +1030,6 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
         if self.index > self.entry_num {
             return None;
@@ -1048,8 +1044,8 @@ impl Iterator for IfdIter {
             self.index += 1;
 
             // next IFD offset
-            let (_, offset) =
-                complete::u32::<_, nom::error::Error<_>>(endian)(&self.input[self.pos..]).ok()?;
+            let data = self.input.slice_checked(self.pos..self.pos + 4)?;
+            let (_, offset) = complete::u32::<_, nom::error::Error<_>>(endian)(data).ok()?;
 
             if offset == 0 {
                 // IFD parsing completed
-- 
2.43.0


From d07b42e758d41ee38dedd2a485b8abf6aaee310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 02/63] fix: keep iterating a directory after a pointer to an
 already visited sub-IFD

---
 src/exif/exif_iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index ebeee22..b61d9e0 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -511,6 +511,11 @@ impl Iterator for ExifIter {
                             if new_ifd.offset > 0 {
                                 if self.visited_offsets.contains(&new_ifd.offset) {
                                     // Ignore repeated ifd parsing to avoid dead looping
+                                    if new_ifd.ifd_idx == ifd.ifd_idx {
+                                        // A repeated sub-ifd: the current ifd still has
+                                        // entries to be parsed.
+                                        self.ifds.push(ifd);
+                                    }
                                     continue;
                                 }
                                 self.visited_offsets.insert(new_ifd.offset);
-- 
2.43.0


From e5cff7d3daa7703b1cfd4100287e6c463095407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 03/63] fix: report malformed IFD entries as errors instead of
 dropping them

---
 src/exif/exif_iter.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index b61d9e0..e1997e3 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -396,6 +396,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -565,8 +573,14 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let tc = tag_code.unwrap();
+                            let include = self.should_include_tag(ifd.ifd_idx, tc.code());
+                            let res = ExifIterEntry::make_err(ifd.ifd_idx, tc, e);
                             self.ifds.push(ifd);
-                            continue;
+                            if !include {
+                                continue;
+                            }
+                            return Some(res);
                         }
                     }
                 }
-- 
2.43.0


From da659bca5bb4527a6274f12eb27bcca9058e5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 04/63] fix: rewinding an ExifIter past its first block
 restarts at the first block

---
 src/exif/exif_iter.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index e1997e3..bfbea32 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -446,9 +446,10 @@ impl ExifIter {
         // Try to create an ExifIter for this block
         match input_into_iter(block_data, header) {
             Ok(iter) => {
-                // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                // Update our state with the new block's data. `self.ifd0` keeps
+                // pointing to the primary block, so that the iterator can be
+                // rewound after this.
+                self.ifds = iter.ifds;
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
@@ -500,12 +501,11 @@ impl Iterator for ExifIter {
 
             if self.ifds.len() > MAX_IFD_DEPTH {
                 let depth = self.ifds.len();
-                self.ifds.clear();
                 tracing::error!(
                     ifds_depth = depth,
-                    "ifd depth is too deep, just go back to ifd0"
+                    "ifd depth is too deep, just go back to its parent"
                 );
-                self.ifds.push(self.ifd0.clone_with_state());
+                self.ifds.truncate(MAX_IFD_DEPTH);
             }
 
             let mut ifd = self.ifds.pop()?;
@@ -960,13 +960,6 @@ impl IfdIter {
             speed,
         })
     }
-
-    fn clone_with_state(&self) -> IfdIter {
-        let mut it = self.clone();
-        it.index = self.index;
-        it.pos = self.pos;
-        it
-    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From c8455df3624f3021ea816dbff0a7586c3b2bce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 05/63] fix: resolve the GPS directory in the block that holds
 its pointer

---
 src/exif/exif_iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bfbea32..f9b3f86 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -265,7 +265,12 @@ impl ExifIter {
             }
             Err(e) => return Err(e.clone().into()),
         };
-        if offset as usize >= iter.input.len() {
+        // The entry may come from an additional block, which its offset refers to.
+        let (input, header) = match iter.ifds.last() {
+            Some(ifd) => (ifd.input.clone(), ifd.header.clone()),
+            None => (iter.input.clone(), iter.tiff_header.clone()),
+        };
+        if offset as usize >= input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -274,8 +279,8 @@ impl ExifIter {
 
         let mut gps_subifd = match IfdIter::try_new(
             gps.ifd().as_usize(),
-            iter.input.clone(),
-            iter.tiff_header,
+            input,
+            header,
             offset as usize,
             iter.tz.clone(),
         ) {
-- 
2.43.0


From 74fa2218c8afadf0442ae2f6f66e4ea70c89dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 06/63] fix: reject HEIF item locations whose offset or length
 overflows

---
 src/bbox/iloc.rs | 2 +-
 src/bbox/meta.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..4ba1179 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -120,7 +120,7 @@ impl IlocBox {
             let extent = item.extents.first()?;
             Some((
                 item.construction_method,
-                item.base_offset + extent.offset,
+                item.base_offset.checked_add(extent.offset)?,
                 extent.length,
             ))
         })
diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..e69f68f 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -80,7 +80,10 @@ impl MetaBox {
             })
             .map(|(construction_method, offset, length)| {
                 let start = offset as usize;
-                let end = (offset + length) as usize;
+                let end = match offset.checked_add(length) {
+                    Some(end) => end as usize,
+                    None => return fail().parse(input),
+                };
                 match construction_method {
                     ConstructionMethod::FileOffset => {
                         if end > input.len() {
@@ -114,7 +117,7 @@ impl MetaBox {
             })
             .and_then(|(construction_method, offset, length)| {
                 let start = offset as usize;
-                let end = (offset + length) as usize;
+                let end = offset.checked_add(length)? as usize;
                 match construction_method {
                     ConstructionMethod::FileOffset => Some(start..end),
                     ConstructionMethod::IdatOffset => {
-- 
2.43.0


From 03c25bcb605540ebe4e3e881b1bdf2534961305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 07/63] fix: reset the buffer position when a skip clears the
 buffer

---
 src/parser.rs       | 1 +
 src/parser_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 91655da..73a1d23 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -591,6 +591,7 @@ pub(crate) trait BufParser: Buf + Debug {
             }
             SkipPlan::ClearAndSkip { extra: skip_n } => {
                 self.clear();
+                self.set_position(0);
                 let done = (skip_by_seek)(
                     reader,
                     skip_n.try_into().map_err(|_| ParsedError::Failed {
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 4f55438..1a21686 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -238,6 +238,7 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
             }
             SkipPlan::ClearAndSkip { extra: skip_n } => {
                 self.clear();
+                self.set_position(0);
                 let done = (skip_by_seek)(
                     reader,
                     skip_n.try_into().map_err(|_| ParsedError::Failed {
-- 
2.43.0


From 6e88778ff20e8e14fae487ce4d6cd57b6ce5fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 08/63] fix: keep PNG chunks captured before a skip that drops
 the buffer

---
 src/exif.rs         | 22 ++++++-----
 src/parser_async.rs |  9 ++---
 src/png.rs          | 95 ++++++++++++++++++++++++++++++---------------
 3 files changed, 81 insertions(+), 45 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..b90c58e 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -169,7 +169,7 @@ fn parse_cr3_exif_iter<R: Read>(
 }
 
 /// Special parser for PNG files: walks the chunk stream via
-/// `png::extract_chunks`, materializes the resulting [`PngExifSource`]
+/// `png::walk_chunks`, materializes the resulting [`PngExifSource`]
 /// into an [`ExifIter`]. Phase 4: handles only the `eXIf` chunk path
 /// (legacy `Raw profile type *` decoding lands in phase 5).
 #[tracing::instrument(skip(reader, skip_by_seek))]
@@ -178,10 +178,11 @@ fn parse_png_exif_iter<R: Read>(
     reader: &mut R,
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<ExifIter, crate::Error> {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngExifSource, PngParseOut, PngWalk};
 
+    let mut walk = PngWalk::default();
     let out: PngParseOut = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
-        crate::png::extract_chunks(buf, state)
+        crate::png::walk_chunks(&mut walk, buf, state)
     })?;
 
     let Some(source) = out.exif else {
@@ -214,10 +215,11 @@ pub(crate) fn parse_png_full<R: Read>(
     reader: &mut R,
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<(Option<ExifIter>, Vec<(String, String)>), crate::Error> {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngExifSource, PngParseOut, PngWalk};
 
+    let mut walk = PngWalk::default();
     let out: PngParseOut = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
-        crate::png::extract_chunks(buf, state)
+        crate::png::walk_chunks(&mut walk, buf, state)
     })?;
 
     let exif_iter = match out.exif {
@@ -426,11 +428,12 @@ where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
     R: AsyncRead + Unpin + Send,
 {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngExifSource, PngParseOut, PngWalk};
 
+    let mut walk = PngWalk::default();
     let out: PngParseOut = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-            crate::png::extract_chunks(buf, state)
+            crate::png::walk_chunks(&mut walk, buf, state)
         })
         .await?;
 
@@ -463,11 +466,12 @@ where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
     R: AsyncRead + Unpin + Send,
 {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngExifSource, PngParseOut, PngWalk};
 
+    let mut walk = PngWalk::default();
     let out: PngParseOut = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-            crate::png::extract_chunks(buf, state)
+            crate::png::walk_chunks(&mut walk, buf, state)
         })
         .await?;
 
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 1a21686..73a5002 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -173,10 +173,10 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
         &mut self,
         reader: &mut R,
         skip_by_seek: AsyncSkipBySeekFn<R>,
-        parse: P,
+        mut parse: P,
     ) -> Result<O, ParsedError>
     where
-        P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>,
+        P: FnMut(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>,
     {
         self.load_and_parse_with_offset(
             reader,
@@ -192,18 +192,17 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
         &mut self,
         reader: &mut R,
         skip_by_seek: AsyncSkipBySeekFn<R>,
-        parse: P,
+        mut parse: P,
         offset: usize,
     ) -> Result<O, ParsedError>
     where
-        P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>,
+        P: FnMut(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>,
     {
         if offset >= self.buffer().len() {
             self.fill_buf(reader, MIN_GROW_SIZE).await?;
         }
 
         let mut parsing_state: Option<ParsingState> = None;
-        let mut parse = parse; // coerce Fn → FnMut
         loop {
             match parse_loop_step(self.buffer(), offset, &mut parsing_state, &mut parse) {
                 LoopAction::Done(o) => return Ok(o),
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..92dee89 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -17,7 +17,7 @@ use std::ops::Range;
 use crate::error::{MalformedKind, ParsingError, ParsingErrorState};
 use crate::parser::ParsingState;
 
-/// Output of [`extract_chunks`]: where the EXIF data lives (if any) and
+/// Output of [`walk_chunks`]: where the EXIF data lives (if any) and
 /// every `tEXt` (key, value) pair encountered, in file order.
 #[derive(Debug)]
 pub(crate) struct PngParseOut {
@@ -103,9 +103,43 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
     Ok(out)
 }
 
+/// What the walker has captured so far.
+///
+/// A `ClearAndSkip` drops every byte already walked, so the chunks captured
+/// before it must outlive the buffer: the caller keeps one `PngWalk` for the
+/// whole file and hands it to every [`walk_chunks`] call.
+#[derive(Debug, Default)]
+pub(crate) struct PngWalk {
+    exif: Option<PngExifSource>,
+    text_chunks: Vec<(String, String)>,
+    text_total: usize,
+    exif_priority: u8, // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+    /// Where in the current buffer the next unread chunk header starts.
+    cursor: usize,
+}
+
+impl PngWalk {
+    /// The walked bytes are about to be dropped: own what points into them.
+    fn detach(&mut self, buf: &[u8]) {
+        if let Some(PngExifSource::EXif(range)) = &self.exif {
+            self.exif = Some(PngExifSource::Legacy(buf[range.clone()].to_vec()));
+        }
+        self.cursor = 0;
+    }
+}
+
+/// [`walk_chunks`] from the start of a file, in one call.
+#[cfg(test)]
+pub(crate) fn extract_chunks(
+    buf: &[u8],
+    state: Option<ParsingState>,
+) -> Result<PngParseOut, ParsingErrorState> {
+    walk_chunks(&mut PngWalk::default(), buf, state)
+}
+
 /// Walk the PNG chunk stream and extract EXIF + tEXt entries.
 ///
-/// Pure function: no I/O, takes a buffer slice plus the resume-state
+/// No I/O: no I/O, takes a buffer slice plus the resume-state
 /// from any prior call, returns either output or a `ParsingErrorState`
 /// requesting more bytes / skipping bytes.
 ///
@@ -124,8 +158,12 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// `cursor + total`, not `total - remaining` — the latter would only
 /// account for bytes past the buffer's end and leave the walker
 /// stranded mid-chunk on retry (issue #55).
-#[tracing::instrument(skip(buf))]
-pub(crate) fn extract_chunks(
+///
+/// `walk` carries the captured chunks (and, across a `Need`, the position
+/// reached) from one call to the next.
+#[tracing::instrument(skip(walk, buf))]
+pub(crate) fn walk_chunks(
+    walk: &mut PngWalk,
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> Result<PngParseOut, ParsingErrorState> {
@@ -136,11 +174,7 @@ pub(crate) fn extract_chunks(
     let preserve = || past_signature.then_some(ParsingState::PngPastSignature);
     let skipped = || Some(ParsingState::PngPastSignature);
 
-    let mut cursor = if past_signature {
-        // Resumed after a ClearAndSkip; buf[0] is a chunk-header
-        // boundary, not the PNG signature.
-        0
-    } else {
+    if !past_signature && walk.cursor == 0 {
         if buf.len() < PNG_SIGNATURE.len() {
             return Err(ParsingErrorState::new(
                 ParsingError::Need(PNG_SIGNATURE.len() - buf.len()),
@@ -156,17 +190,11 @@ pub(crate) fn extract_chunks(
                 None,
             ));
         }
-        PNG_SIGNATURE.len()
-    };
-
-    let mut out = PngParseOut {
-        exif: None,
-        text_chunks: Vec::new(),
-    };
-    let mut text_total: usize = 0;
-    let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+        walk.cursor = PNG_SIGNATURE.len();
+    }
 
     loop {
+        let cursor = walk.cursor;
         // Need 8 bytes for the chunk header (length:4 + type:4).
         if buf.len() - cursor < 8 {
             return Err(ParsingErrorState::new(
@@ -211,21 +239,22 @@ pub(crate) fn extract_chunks(
                 let data_start = cursor + 8;
                 let data_end = data_start + length as usize;
                 // eXIf has priority 3 (highest), always wins.
-                out.exif = Some(PngExifSource::EXif(data_start..data_end));
-                exif_priority = 3;
-                cursor += total;
+                walk.exif = Some(PngExifSource::EXif(data_start..data_end));
+                walk.exif_priority = 3;
+                walk.cursor += total;
             }
             b"tEXt" => {
                 if length > MAX_TEXT_CHUNK_SIZE {
                     // Defensive: skip oversized chunks.
                     let remaining = buf.len() - cursor;
                     if total > remaining {
+                        walk.detach(buf);
                         return Err(ParsingErrorState::new(
                             ParsingError::ClearAndSkip(cursor + total),
                             skipped(),
                         ));
                     }
-                    cursor += total;
+                    walk.cursor += total;
                     continue;
                 }
                 let remaining = buf.len() - cursor;
@@ -247,7 +276,7 @@ pub(crate) fn extract_chunks(
                         "Raw profile type exif" => 1,
                         _ => 0,
                     };
-                    if candidate_priority > 0 && candidate_priority > exif_priority {
+                    if candidate_priority > 0 && candidate_priority > walk.exif_priority {
                         if let Ok(mut bytes) = decode_raw_profile_value(&value) {
                             // Strip APP1's leading "Exif\0\0" if present.
                             if key.ends_with("APP1") && bytes.starts_with(b"Exif\0\0") {
@@ -256,8 +285,8 @@ pub(crate) fn extract_chunks(
                             // Validate as TIFF (must have a valid byte-order marker
                             // + magic number) before accepting.
                             if bytes.len() >= 8 && crate::exif::TiffHeader::parse(&bytes).is_ok() {
-                                out.exif = Some(PngExifSource::Legacy(bytes));
-                                exif_priority = candidate_priority;
+                                walk.exif = Some(PngExifSource::Legacy(bytes));
+                                walk.exif_priority = candidate_priority;
                             }
                             // else: silently drop the legacy candidate, keep raw text entry below
                         }
@@ -265,29 +294,33 @@ pub(crate) fn extract_chunks(
                     }
 
                     let entry_size = key.len() + value.len();
-                    if text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
-                        text_total += entry_size;
-                        out.text_chunks.push((key, value));
+                    if walk.text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
+                        walk.text_total += entry_size;
+                        walk.text_chunks.push((key, value));
                     }
                     // else: silently skip (already-captured entries kept).
                 }
                 // else: malformed tEXt (no NUL separator) — silently skip.
-                cursor += total;
+                walk.cursor += total;
             }
             _ => {
                 let remaining = buf.len() - cursor;
                 if total > remaining {
+                    walk.detach(buf);
                     return Err(ParsingErrorState::new(
                         ParsingError::ClearAndSkip(cursor + total),
                         skipped(),
                     ));
                 }
-                cursor += total;
+                walk.cursor += total;
             }
         }
     }
 
-    Ok(out)
+    Ok(PngParseOut {
+        exif: walk.exif.take(),
+        text_chunks: std::mem::take(&mut walk.text_chunks),
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4976bc2ab995b2dc7684858d5c2d68b2faca4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 09/63] fix: report every CMT block of a CR3 file in the async
 API too

---
 src/exif.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index b90c58e..e9a2e81 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -101,6 +101,33 @@ fn parse_cr3_exif_iter<R: Read>(
         cr3::extract_all_cmt_ranges(buf)
     })?;
 
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+/// Async twin of [`parse_cr3_exif_iter`].
+#[cfg(feature = "tokio")]
+async fn parse_cr3_exif_iter_async<P, R>(
+    parser: &mut P,
+    reader: &mut R,
+    skip_by_seek: crate::parser_async::AsyncSkipBySeekFn<R>,
+) -> Result<ExifIter, crate::Error>
+where
+    P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
+    R: AsyncRead + Unpin + Send,
+{
+    let cmt_ranges = parser
+        .load_and_parse(reader, skip_by_seek, |buf, _state| {
+            cr3::extract_all_cmt_ranges(buf)
+        })
+        .await?;
+
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+fn cr3_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: Option<cr3::Cr3CmtRanges>,
+) -> Result<ExifIter, crate::Error> {
     let Some(cmt_ranges) = cmt_ranges else {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -288,6 +315,9 @@ pub(crate) async fn parse_exif_iter_async<P, R: AsyncRead + Unpin + Send>(
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
+    if mime_img == MediaMimeImage::Cr3 {
+        return parse_cr3_exif_iter_async(parser, reader, skip_by_seek).await;
+    }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
-- 
2.43.0


From 3aac88b83b408c0b50f22029a78c777134a3d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 10/63] fix: find Motion Photo tracks from memory and through
 the async API

---
 src/parser.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a1d23..a3da9a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -845,6 +845,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return self.parse_jpeg_motion_photo(&mut ms.reader);
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -884,8 +887,11 @@ impl MediaParser {
     fn parse_jpeg_motion_photo<R: Read>(&mut self, reader: &mut R) -> crate::Result<TrackInfo> {
         // Drain the rest of the JPEG into the parse buffer so we can
         // address the trailing MP4 by its byte offset from EOF.
-        reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
+        // In memory mode every byte is there already.
+        if !self.state.is_memory_mode() {
+            reader.read_to_end(self.buf_mut())?;
+        }
+        let buf = self.buffer();
         let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
             return Err(crate::Error::TrackNotFound);
         };
@@ -1191,8 +1197,9 @@ mod tokio_impl {
             res
         }
 
-        /// Parse track info from an async video/audio source. Returns
-        /// `Error::TrackNotFound` if the source is an `Image`.
+        /// Parse track info from an async video/audio source, or from the
+        /// Motion Photo trailer of a JPEG. Returns `Error::TrackNotFound`
+        /// for any other `Image`.
         ///
         /// As of v3.3, also accepts memory-mode sources built via
         /// [`AsyncMediaSource::from_memory`].
@@ -1203,8 +1210,9 @@ mod tokio_impl {
             self.reset();
             let res: crate::Result<TrackInfo> = async {
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => None,
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
-                    crate::file::MediaMime::Track(t) => t,
+                    crate::file::MediaMime::Track(t) => Some(t),
                 };
                 if let Some(memory) = ms.memory.take() {
                     self.state.set_memory(memory);
@@ -1213,6 +1221,14 @@ mod tokio_impl {
                     self.buf_mut().append(&mut ms.buf);
                     <Self as AsyncBufParser>::fill_buf(self, &mut ms.reader, INIT_BUF_SIZE).await?;
                 }
+                let Some(mime_track) = mime_track else {
+                    // JPEG: the track is the Motion Photo trailer, if any.
+                    // Drain the reader here; the shared code finds it empty.
+                    if !self.state.is_memory_mode() {
+                        ms.reader.read_to_end(self.buf_mut()).await?;
+                    }
+                    return self.parse_jpeg_motion_photo(&mut io::empty());
+                };
                 let skip = ms.skip_by_seek;
                 let out = <Self as AsyncBufParser>::load_and_parse(
                     self,
-- 
2.43.0


From 3c3902451bd53da99b43a7ebe32d45bdee42f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 11/63] fix: an APP1 segment that is not Exif no longer fails
 the whole JPEG

---
 src/jpeg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..c47c2d8 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,10 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        // An APP1 segment without the Exif header (XMP, or anything else, of
+        // any length) is not ours: keep walking.
+        if (s.marker_code == MarkerCode::APP1.code()
+            && check_exif_header(s.payload).unwrap_or(false))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 1f726c7276550b32224089053528d0b7c34d712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 12/63] fix: recognise MP4 compatible brands by value, not by
 address

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From 2700214161d0bff4c1b89256beb654332f07e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 13/63] fix: match QuickTime item-list values to keys by index
 and skip items that can't be interpreted

---
 src/bbox/ilst.rs | 18 +++++++++++++++---
 src/mov.rs       | 11 +++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..f22496c 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -28,7 +28,8 @@ pub struct IlstBox {
 impl IlstBox {
     pub fn parse_box(input: &[u8]) -> nom::IResult<&[u8], IlstBox> {
         let (remain, header) = BoxHeader::parse(input)?;
-        let (remain, items) = many0(IlstItem::parse).parse(remain)?;
+        let (remain, items) = many0(IlstItem::parse_or_skip).parse(remain)?;
+        let items = items.into_iter().flatten().collect();
 
         Ok((remain, IlstBox { header, items }))
     }
@@ -37,8 +38,8 @@ impl IlstBox {
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
-    data_len: u32, // including self size
+    pub index: u32, // 1-based index (start from 1)
+    data_len: u32,  // including self size
 
     /// Type indicator, see [type
     /// indicator](https://developer.apple.com/documentation/quicktime-file-format/type_indicator)
@@ -50,6 +51,17 @@ pub struct IlstItem {
 }
 
 impl IlstItem {
+    /// An item we can't interpret (a data type we don't support, a child atom
+    /// other than `data`) is skipped; the items after it are still ours.
+    fn parse_or_skip(input: &[u8]) -> nom::IResult<&[u8], Option<IlstItem>> {
+        let (_, size) = be_u32(input)?;
+        if size < 8 {
+            context("invalid ilst item", fail::<_, (), _>()).parse(input)?;
+        }
+        let (remain, item) = take(size)(input)?;
+        Ok((remain, IlstItem::parse(item).ok().map(|x| x.1)))
+    }
+
     fn parse<'a>(input: &'a [u8]) -> nom::IResult<&'a [u8], IlstItem> {
         let (remain, (size, index, data_len, _, type_set, type_code, local)) =
             (be_u32, be_u32, be_u32, tag("data"), u8, be_u24, be_u32).parse(input)?;
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..c724eb9 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -237,11 +237,14 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    // An item names its key by a 1-based index into `keys`.
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|item| {
+            let index = (item.index as usize).checked_sub(1)?;
+            Some((keys.entries.get(index)?.key.clone(), item.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From d4c3750eb66eb83a1dde9e123fc21627286acbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 14/63] fix: read version 1 mvhd and tkhd boxes and compute the
 duration without rounding error

---
 src/bbox/mvhd.rs | 32 +++++++++++++++++++++++--------
 src/bbox/tkhd.rs | 49 ++++++++++++++++++++----------------------------
 2 files changed, 44 insertions(+), 37 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..d4d52f1 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,9 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -15,10 +19,10 @@ pub struct MvhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     /// The number of time units that pass per second in its time coordinate
     /// system.
@@ -29,14 +33,19 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
 
+/// 9999-12-31T23:59:59 in seconds since 1904: a 64-bit time beyond that is
+/// taken as that.
+const MAX_CREATION_TIME: u64 = 255_485_145_599;
+
 impl MvhdBox {
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        let ms = (self.duration as u128 * 1000).checked_div(self.time_scale as u128);
+        ms.unwrap_or(0).try_into().unwrap_or(u64::MAX)
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
@@ -44,7 +53,7 @@ impl MvhdBox {
             .unwrap()
             .and_hms_opt(0, 0, 0)
             .unwrap()
-            + Duration::seconds(self.creation_time as i64)
+            + Duration::seconds(self.creation_time.min(MAX_CREATION_TIME) as i64)
     }
 
     pub fn creation_time(&self) -> DateTime<FixedOffset> {
@@ -63,8 +72,15 @@ impl MvhdBox {
 
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // version 1 widens the times and the duration to 64 bits
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u64).parse(body)?
+            } else {
+                let wide = |x: u32| x as u64;
+                (be_u32.map(wide), be_u32.map(wide), be_u32, be_u32.map(wide)).parse(body)?
+            };
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..31bf201 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,31 +41,22 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
-        let (
-            remain,
-            (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
+        // version 1 widens the times and the duration to 64 bits
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                let wide = |x: u32| x as u64;
+                (
+                    be_u32.map(wide),
+                    be_u32.map(wide),
+                    be_u32,
+                    be_u32,
+                    be_u32.map(wide),
+                )
+                    .parse(body)?
+            };
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +68,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
-- 
2.43.0


From 111a47ae9823d7a0cea9687b2d02562327f5f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 15/63] fix: an ISO 6709 altitude keeps its millimetre instead
 of losing one to truncation

---
 src/exif/gps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index d6af139..de602f2 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -337,7 +337,7 @@ impl GPSInfo {
         let altitude = match v.altitude {
             None => Altitude::Unknown,
             Some(x) => {
-                let mag = URational::new((x.abs() * 1000.0).trunc() as u32, 1000);
+                let mag = URational::new((x.abs() * 1000.0).round() as u32, 1000);
                 if x >= 0.0 {
                     Altitude::AboveSeaLevel(mag)
                 } else {
-- 
2.43.0


From 6a5bb7932e0a437f647b1bb640fa2b10290771ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 16/63] fix: decimal degrees just below a whole minute carry
 instead of giving 60 seconds

---
 src/exif/gps.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index de602f2..3c35d21 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -190,11 +190,12 @@ impl LatLng {
         if !degrees.is_finite() || degrees.abs() > 180.0 {
             return Err(crate::ConvertError::InvalidDecimalDegrees(degrees));
         }
-        let abs = degrees.abs();
-        let d = abs.trunc() as u32;
-        let mins_total = (abs - d as f64) * 60.0;
-        let m = mins_total.trunc() as u32;
-        let secs_hundredths = ((mins_total - m as f64) * 60.0 * 100.0).round() as u32;
+        // Round once, in hundredths of a second, so that a value just below a
+        // whole minute carries instead of reading "60 seconds".
+        let hundredths = (degrees.abs() * 3600.0 * 100.0).round() as u32;
+        let d = hundredths / 360_000;
+        let m = hundredths / 6_000 % 60;
+        let secs_hundredths = hundredths % 6_000;
         Ok(Self::new(
             URational::new(d, 1),
             URational::new(m, 1),
-- 
2.43.0


From c6f0d5af435ba8d8fe6ed0950fd829a3e2ef29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 17/63] fix: wait for the embedded JPEG of a RAF file that
 starts at the end of the buffer

---
 src/raf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..f4c4f4f 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -48,7 +48,8 @@ impl RafInfo<'_> {
             })?;
         let (remain, _) = take(skip_n)(remain)?;
 
-        // parse as a JPEG
+        // parse as a JPEG, once its SOI marker has been read
+        let _ = take(2usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0


From 855ea508624ebb3e3291be9e342c60ad2e2f6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 18/63] fix: a RAF camera name without a NUL or not in UTF-8 no
 longer fails the file

---
 src/raf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raf.rs b/src/raf.rs
index f4c4f4f..5e74e65 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -55,7 +55,14 @@ impl RafInfo<'_> {
         })?;
         let (remain, exif_data) = jpeg::extract_exif_data(remain)?;
 
-        let (_, camera_string) = parse_cstr(camera_string)?;
+        // A name may fill the field, leaving no room for a NUL; it may also
+        // not be UTF-8. Neither is a reason to give up the Exif data.
+        let camera_string = match parse_cstr(camera_string) {
+            Ok((_, s)) => s,
+            Err(_) => String::from_utf8_lossy(camera_string)
+                .trim_end_matches('\0')
+                .to_owned(),
+        };
 
         Ok((
             remain,
-- 
2.43.0


From a3616d3150bf9b0a329e5c1dd3e4257deb2b63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 19/63] fix: read 4-byte EBML floats instead of yielding zero

---
 src/ebml/element.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..f9bc218 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -250,7 +250,8 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
 
     let n = match size {
         4 => {
-            let buf = [0u8; 4];
+            let mut buf = [0u8; 4];
+            cursor.read_exact(&mut buf).ok()?;
             f32::from_be_bytes(buf) as f64
         }
         5..=8 => {
-- 
2.43.0


From bd1af8a5957f8108d32c1027d9b445d61b13cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 20/63] fix: scale the Matroska duration whatever the order of
 the Info elements

---
 src/ebml/webm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..ae97002 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -339,6 +339,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
+    let mut duration = 0.0;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
@@ -355,7 +356,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
+                        duration = v;
                     }
                 }
                 InfoId::Date => {
@@ -376,6 +377,8 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
         }
     }
 
+    // TimestampScale applies wherever it stands among the elements
+    info.duration = duration * time_scale as f64;
     Ok(info)
 }
 
-- 
2.43.0


From 188f808396e46280f1bf42d0de88a84577cd43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 21/63] fix: skip Matroska Info elements of an unsupported size
 instead of reading on inside them

---
 src/ebml/webm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index ae97002..23a060f 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -346,6 +346,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
         let header = next_element_header(cursor)?;
         let id = TryInto::<InfoId>::try_into(header.id);
         tracing::debug!(?header, "segment info sub-element");
+        let end = cursor.position() + header.data_size as u64;
 
         if let Ok(id) = id {
             match id {
@@ -372,9 +373,10 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
             }
-        } else {
-            cursor.consume(header.data_size);
         }
+        // An element may be unknown, or of a size we don't support: whatever
+        // was read of it, go to its end.
+        cursor.set_position(end);
     }
 
     // TimestampScale applies wherever it stands among the elements
-- 
2.43.0


From 88da8b47c864a39a5aeeddd16a2bb12602e3c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 22/63] fix: resolve Matroska seek positions from the Segment
 start and reject overflowing ones

---
 src/ebml/webm.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 23a060f..408177f 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -393,13 +393,13 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
-    let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
-    }
-    Ok(seeks)
+    let seeks = parse_seek_head(&mut cur)?;
+    // Seek positions count from the start of the Segment data
+    Ok(seeks
+        .into_iter()
+        .filter_map(|(id, seek_pos)| Some((id, seek_pos.checked_add(pos as u64)?)))
+        .collect())
 }
 
 #[derive(Clone)]
-- 
2.43.0


From 357626e39bcc53c850ef991dbf4da308b34a9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 23/63] fix: report the size of a Matroska video track that is
 not the first track

---
 src/ebml/webm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 408177f..d66b68e 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -205,6 +205,10 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
                     height: x.height,
                 })
             })?;
+            if track.is_none() {
+                // not a video track: look at the next entry
+                return Err(nom::Err::Error((Z, ErrorKind::Fail)));
+            }
 
             Ok((Z, track))
         },
-- 
2.43.0


From 928b01a4168f28f4e6c7d6e1379d46c8548e7100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 24/63] fix: answer with the wrong-kind error before asking a
 short source for more bytes

---
 src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a3da9a7..05e3dad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -794,6 +794,9 @@ impl MediaParser {
                 )
             } else {
                 // Streaming-mode: existing path verbatim.
+                if !matches!(ms.mime, crate::file::MediaMime::Image(_)) {
+                    return Err(crate::Error::ExifNotFound);
+                }
                 self.acquire_buf();
                 self.buf_mut().append(&mut ms.buf);
                 // PNG-only EOF tolerance: a tEXt-only PNG can be smaller
@@ -814,9 +817,6 @@ impl MediaParser {
                             && e.kind() == io::ErrorKind::UnexpectedEof => {}
                     Err(e) => return Err(e.into()),
                 }
-                if !matches!(ms.mime, crate::file::MediaMime::Image(_)) {
-                    return Err(crate::Error::ExifNotFound);
-                }
                 crate::exif::parse_exif_iter(
                     self,
                     ms.mime.unwrap_image(),
@@ -858,6 +858,11 @@ impl MediaParser {
                 Ok(out)
             } else {
                 // Streaming mode: existing path verbatim.
+                if let crate::file::MediaMime::Image(img) = ms.mime {
+                    if img != crate::file::MediaMimeImage::Jpeg {
+                        return Err(crate::Error::TrackNotFound);
+                    }
+                }
                 self.acquire_buf();
                 self.buf_mut().append(&mut ms.buf);
                 self.fill_buf(&mut ms.reader, INIT_BUF_SIZE)?;
@@ -1091,6 +1096,9 @@ mod tokio_impl {
                     )
                     .await
                 } else {
+                    if !matches!(ms.mime, crate::file::MediaMime::Image(_)) {
+                        return Err(crate::Error::ExifNotFound);
+                    }
                     self.acquire_buf();
                     self.buf_mut().append(&mut ms.buf);
                     // PNG-only EOF tolerance mirrors the sync path: small
@@ -1112,9 +1120,6 @@ mod tokio_impl {
                                 && e.kind() == io::ErrorKind::UnexpectedEof => {}
                         Err(e) => return Err(e.into()),
                     }
-                    if !matches!(ms.mime, crate::file::MediaMime::Image(_)) {
-                        return Err(crate::Error::ExifNotFound);
-                    }
                     crate::exif::parse_exif_iter_async(
                         self,
                         ms.mime.unwrap_image(),
-- 
2.43.0


From eb4a879d7df9f73fed2709db8b4ba438595b9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 25/63] fix: load a whole TIFF file's IFDs and values from a
 stream and keep its readable entries

---
 src/exif.rs           |  66 +++++----
 src/exif/exif_exif.rs |   2 -
 src/exif/travel.rs    | 317 +++++++++++++++++-------------------------
 src/parser.rs         |   7 +-
 4 files changed, 172 insertions(+), 220 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index e9a2e81..9d8b8ce 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -1,13 +1,13 @@
 use crate::error::{
-    nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
+    nom_error_to_parsing_error_with_state, MalformedKind, ParsedError, ParsingError,
+    ParsingErrorState,
 };
 use crate::file::MediaMimeImage;
-use crate::parser::{BufParser, ParsingState, ShareBuf};
+use crate::parser::{Buf, BufParser, ParsingState, ShareBuf};
 use crate::raf::RafInfo;
 use crate::slice::SubsliceRange;
 use crate::{cr3, heif, jpeg, MediaParser};
 pub use exif_exif::Exif;
-use exif_exif::TIFF_HEADER_LEN;
 use exif_iter::input_into_iter;
 pub use exif_iter::{ExifEntry, ExifIter, ExifIterEntry, IfdIndex};
 pub use gps::{GPSInfo, LatLng};
@@ -18,7 +18,7 @@ use std::ops::Range;
 
 pub(crate) mod ifd;
 pub(crate) use exif_exif::{check_exif_header, check_exif_header2, TiffHeader};
-pub(crate) use travel::IfdHeaderTravel;
+pub(crate) use travel::{IfdHeaderTravel, IfdWalk};
 
 mod exif_exif;
 mod exif_iter;
@@ -45,7 +45,8 @@ pub(crate) fn parse_exif_iter<R: Read>(
 
     let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
-    })?;
+    });
+    let out = tiff_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
@@ -266,7 +267,26 @@ pub(crate) fn parse_png_full<R: Read>(
     Ok((exif_iter, out.text_chunks))
 }
 
-type ExifRangeResult = Result<Option<(Range<usize>, Option<TiffHeader>)>, ParsingErrorState>;
+/// A TIFF file which ends before some entry value or IFD it refers to is
+/// still readable: the `ExifIter` reports the entries it can't read.
+fn tiff_at_eof(
+    parser: &impl Buf,
+    mime_img: MediaMimeImage,
+    out: Result<ExifRange, ParsedError>,
+) -> Result<ExifRange, ParsedError> {
+    let eof = match &out {
+        Err(ParsedError::NoEnoughBytes) => true,
+        Err(ParsedError::IOError(e)) => e.kind() == std::io::ErrorKind::UnexpectedEof,
+        _ => false,
+    };
+    if eof && mime_img == MediaMimeImage::Tiff {
+        return Ok(Some((0..parser.buffer().len(), None)));
+    }
+    out
+}
+
+type ExifRange = Option<(Range<usize>, Option<TiffHeader>)>;
+type ExifRangeResult = Result<ExifRange, ParsingErrorState>;
 
 fn extract_exif_range(
     img: MediaMimeImage,
@@ -275,7 +295,7 @@ fn extract_exif_range(
 ) -> ExifRangeResult {
     let (exif_data, state) = extract_exif_with_mime(img, buf, state)?;
     let header = state.and_then(|x| match x {
-        ParsingState::TiffHeader(h) => Some(h),
+        ParsingState::TiffIfds(h, _) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
         ParsingState::PngPastSignature => None,
@@ -287,7 +307,7 @@ fn extract_exif_range(
 
 fn range_to_iter(
     parser: &mut impl ShareBuf,
-    out: Option<(Range<usize>, Option<TiffHeader>)>,
+    out: ExifRange,
     has_embedded_track: bool,
 ) -> Result<ExifIter, crate::Error> {
     if let Some((range, header)) = out {
@@ -326,7 +346,8 @@ where
         .load_and_parse(reader, skip_by_seek, |buf, state| {
             extract_exif_range(mime_img, buf, state)
         })
-        .await?;
+        .await;
+    let out = tiff_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
@@ -380,19 +401,14 @@ pub(crate) fn extract_exif_with_mime(
         | crate::file::MediaMimeImage::Heif
         | crate::file::MediaMimeImage::Avif => heif_extract_exif(state, buf)?,
         MediaMimeImage::Tiff => {
-            let header = match state {
-                Some(ParsingState::TiffHeader(ref h)) => h.to_owned(),
+            let (header, walk) = match state {
+                Some(ParsingState::TiffIfds(header, walk)) => (header, walk),
                 None => {
                     let (_, header) = TiffHeader::parse(buf).map_err(|e| {
                         nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, None)
                     })?;
-                    if header.ifd0_offset as usize > buf.len() {
-                        let clear_and_skip =
-                            ParsingError::Need(header.ifd0_offset as usize - TIFF_HEADER_LEN + 2);
-                        let state = Some(ParsingState::TiffHeader(header));
-                        return Err(ParsingErrorState::new(clear_and_skip, state));
-                    }
-                    header
+                    let walk = Box::new(IfdWalk::new(header.ifd0_offset as usize));
+                    (header, walk)
                 }
                 _ => {
                     return Err(ParsingErrorState::new(
@@ -407,14 +423,12 @@ pub(crate) fn extract_exif_with_mime(
 
             // full fill TIFF data
             tracing::debug!("full fill TIFF data");
-            let mut iter = IfdHeaderTravel::new(
-                buf,
-                header.ifd0_offset as usize,
-                TagOrCode::Unknown(0x2a),
-                header.endian,
-            );
-            iter.travel_ifd(0)
-                .map_err(|e| ParsingErrorState::new(e, state.clone()))?;
+            let mut travel = IfdHeaderTravel::resume(buf, header.endian, walk);
+            let res = travel.travel_ifd(0);
+            let state = Some(ParsingState::TiffIfds(header, travel.into_walk()));
+            if let Err(e) = res {
+                return Err(ParsingErrorState::new(e, state));
+            }
             tracing::debug!("full fill TIFF data done");
 
             (Some(buf), state)
diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 00e95de..48bb3fb 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -185,8 +185,6 @@ impl From<ExifIter> for Exif {
     }
 }
 
-pub(crate) const TIFF_HEADER_LEN: usize = 8;
-
 /// TIFF Header
 #[derive(Clone, PartialEq, Eq)]
 pub(crate) struct TiffHeader {
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..6eed571 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -1,172 +1,86 @@
-use nom::{
-    number::{streaming, Endianness},
-    IResult, Needed, Parser,
-};
+use std::{cmp::max, collections::HashSet};
+
+use nom::number::Endianness;
 
+#[cfg(test)]
+use crate::TagOrCode;
 use crate::{
     error::{MalformedKind, ParsingError},
-    exif::TiffHeader,
-    values::{array_to_string, DataFormat},
-    TagOrCode,
+    parser::{MAX_PARSE_BUF_SIZE, MIN_GROW_SIZE},
+    values::DataFormat,
 };
 
 use super::{exif_exif::IFD_ENTRY_SIZE, exif_iter::SUBIFD_TAGS};
 
-/// Only iterates headers, don't parse entries.
-///
-/// Currently only used to extract Exif data for *.tiff files.
-///
-/// NOTE: `parse_tag_entry_header` short-circuits on `tag == 0` as a guard
-/// against zero-padded malformed IFDs. This is safe **today** because we
-/// only observe `sub_ifd_offset`, and tag 0 is never in `SUBIFD_TAGS`. If
-/// this struct is ever extended to emit entry values, gate that
-/// short-circuit on "not inside the GPS sub-IFD" — tag 0 is the legitimate
-/// GPSVersionID and dropping it loses every following GPS field. See
-/// `IfdIter::is_gps_subifd` in `exif_iter.rs` and issue #50.
-pub(crate) struct IfdHeaderTravel<'a> {
-    // starts from file beginning
-    data: &'a [u8],
+/// Nesting limit for the IFD a travel starts from.
+const MAX_DEPTH: usize = 3;
 
-    tag: TagOrCode,
-
-    endian: Endianness,
-
-    // ifd data offset
-    offset: usize,
-}
+/// Upper bound on the entries looked at in one file. Real files have a few
+/// hundred; crafted ones can make directories overlap, so that a small file
+/// describes an enormous number of entries.
+const MAX_ENTRIES: usize = 1 << 20;
 
+/// Progress of an [`IfdHeaderTravel`], carried across the `Need` retries so
+/// that every IFD is looked at only once.
 #[derive(Debug, Clone)]
-pub(crate) struct EntryInfo<'a> {
-    pub tag: u16,
-    #[allow(unused)]
-    pub data: &'a [u8],
-    #[allow(unused)]
-    pub data_format: DataFormat,
-    #[allow(unused)]
-    pub data_offset: Option<u32>,
-    pub sub_ifd_offset: Option<u32>,
+pub(crate) struct IfdWalk {
+    /// Offsets of the IFDs to look at.
+    pending: Vec<usize>,
+    seen: HashSet<usize>,
+    entries: usize,
+    /// End of the furthest entry value.
+    extent: usize,
 }
 
-impl<'a> IfdHeaderTravel<'a> {
-    pub fn new(input: &'a [u8], offset: usize, tag: TagOrCode, endian: Endianness) -> Self {
+impl IfdWalk {
+    pub fn new(offset: usize) -> Self {
         Self {
-            data: input,
-            tag,
-            endian,
-            offset,
+            pending: vec![offset],
+            seen: HashSet::from([offset]),
+            entries: 0,
+            extent: 0,
         }
     }
 
-    #[tracing::instrument(skip_all)]
-    fn parse_tag_entry_header(
-        &'a self,
-        entry_data: &'a [u8],
-    ) -> IResult<&'a [u8], Option<EntryInfo<'a>>> {
-        let endian = self.endian;
-        let (remain, (tag, data_format, components_num, value_or_offset)) = (
-            streaming::u16::<_, nom::error::Error<_>>(endian),
-            streaming::u16(endian),
-            streaming::u32(endian),
-            streaming::u32(endian),
-        )
-            .parse(entry_data)?;
-
-        if tag == 0 {
-            return Ok((remain, None));
+    fn push(&mut self, offset: usize) {
+        // 0 means "no such IFD"
+        if offset > 0 && self.seen.insert(offset) {
+            self.pending.push(offset);
         }
+    }
+}
 
-        let data_format: DataFormat = match data_format.try_into() {
-            Ok(df) => df,
-            // Ignore errors here
-            Err(e) => {
-                tracing::warn!(?e, "Ignored: IFD entry data format error");
-                return Ok((&[][..], None));
-            }
-        };
-
-        // get component_size according to data format
-        let component_size = data_format.component_size();
-
-        // get entry data
-        let size = components_num as usize * component_size;
-        let (data, data_offset) = if size > 4 {
-            let start = self.get_data_pos(value_or_offset) as usize;
-            let end = start + size;
-            tracing::debug!(
-                components_num,
-                size,
-                "tag {:04x} entry data start {:08x} end {:08x} my_offset: {:08x} data len {:08x}",
-                tag,
-                value_or_offset,
-                start,
-                end,
-                self.data.len(),
-            );
-            if end > self.data.len() {
-                return Err(nom::Err::Incomplete(Needed::new(end - self.data.len())));
-            }
-            (&self.data[start..end], Some(start as u32))
-        } else {
-            (entry_data, None)
-        };
-
-        let sub_ifd_offset = if SUBIFD_TAGS.contains(&tag) {
-            let offset = self.get_data_pos(value_or_offset);
-            if offset > 0 {
-                Some(offset)
-            } else {
-                None
-            }
-        } else {
-            None
-        };
+/// Only iterates headers, don't parse entries.
+///
+/// Currently only used to load the Exif data of *.tiff files: it asks for more
+/// bytes until all IFDs and all entry values are in the buffer. It doesn't
+/// judge the entries; the ones that make no sense are skipped here and
+/// reported by the `ExifIter` later.
+pub(crate) struct IfdHeaderTravel<'a> {
+    // starts from file beginning
+    data: &'a [u8],
+    endian: Endianness,
+    walk: Box<IfdWalk>,
+}
 
-        let entry = EntryInfo {
-            tag,
-            data,
-            data_format,
-            data_offset,
-            sub_ifd_offset,
-        };
-        Ok((&[][..], Some(entry)))
+impl<'a> IfdHeaderTravel<'a> {
+    #[cfg(test)]
+    pub fn new(input: &'a [u8], offset: usize, _tag: TagOrCode, endian: Endianness) -> Self {
+        Self::resume(input, endian, Box::new(IfdWalk::new(offset)))
     }
 
-    fn get_data_pos(&'a self, value_or_offset: u32) -> u32 {
-        // value_or_offset.saturating_sub(self.offset)
-        value_or_offset
+    /// Go on with `walk` on a buffer which starts at the file beginning.
+    pub fn resume(data: &'a [u8], endian: Endianness, walk: Box<IfdWalk>) -> Self {
+        Self { data, endian, walk }
     }
 
-    #[tracing::instrument(skip(self))]
-    fn parse_ifd_entry_header(&self, pos: u32) -> IResult<&[u8], Option<IfdHeaderTravel<'a>>> {
-        let (_, entry_data) =
-            nom::bytes::streaming::take(IFD_ENTRY_SIZE)(&self.data[pos as usize..])?;
-
-        let (remain, entry) = self.parse_tag_entry_header(entry_data)?;
-
-        if let Some(entry) = entry {
-            // if !cb(&entry) {
-            //     return Ok((&[][..], ()));
-            // }
-
-            if let Some(offset) = entry.sub_ifd_offset {
-                let tag: TagOrCode = entry.tag.into();
-                tracing::debug!(?offset, data_len = self.data.len(), "sub-ifd: {:?}", tag);
-
-                // Full fill bytes until sub-ifd header
-                let (_, _) =
-                    nom::bytes::streaming::take(offset as usize - remain.len() + 2)(self.data)?;
-
-                let sub_ifd = IfdHeaderTravel::new(self.data, offset as usize, tag, self.endian);
-                return Ok((remain, Some(sub_ifd)));
-            }
-        }
-
-        Ok((remain, None))
+    pub fn into_walk(self) -> Box<IfdWalk> {
+        self.walk
     }
 
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
-        if depth >= 3 {
+        if depth >= MAX_DEPTH {
             let msg = "depth shouldn't be greater than 3";
             tracing::error!(msg);
             return Err(ParsingError::Failed {
@@ -175,62 +89,87 @@ impl<'a> IfdHeaderTravel<'a> {
             });
         }
 
-        if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
-        }
-
-        let (_, entry_num) =
-            TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
-                },
-            )?;
-        let mut pos = self.offset + 2;
-
-        let mut sub_ifds = Vec::new();
-
-        // parse entries
-        for _ in 0..entry_num {
-            if pos >= self.data.len() {
-                break;
-            }
-            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
-                },
-            )?;
-            pos += IFD_ENTRY_SIZE;
-
-            if let Some(ifd) = sub_ifd {
-                tracing::debug!(
-                    data = array_to_string("bytes", self.data),
-                    tag = ifd.tag.to_string(),
-                );
-                sub_ifds.push(ifd);
+        while let Some(offset) = self.walk.pending.pop() {
+            if let Err(e) = self.travel_one(offset) {
+                self.walk.pending.push(offset);
+                return Err(e);
             }
         }
+        self.need(self.walk.extent)
+    }
 
-        for mut ifd in sub_ifds {
-            ifd.travel_ifd(depth + 1)?;
+    /// Look at all entry headers of the IFD at `offset`.
+    fn travel_one(&mut self, offset: usize) -> Result<(), ParsingError> {
+        let first = offset.saturating_add(2);
+        if !loadable(first) {
+            tracing::warn!(offset, "Ignored: IFD out of range");
+            return Ok(());
+        }
+        self.need(first)?;
+        let count = self.u16(offset) as usize;
+        let next = first + count * IFD_ENTRY_SIZE;
+        if self.walk.entries.saturating_add(count) > MAX_ENTRIES || !loadable(next + 4) {
+            tracing::warn!(offset, count, "Ignored: too many IFD entries");
+            return Ok(());
         }
+        self.need(next + 4)?;
 
-        // Currently, we ignore ifd1 data in *.tif files
+        self.walk.entries += count;
+        for pos in (first..next).step_by(IFD_ENTRY_SIZE) {
+            self.travel_entry(pos);
+        }
+        let next = self.u32(next) as usize;
+        self.walk.push(next);
         Ok(())
     }
+
+    fn travel_entry(&mut self, pos: usize) {
+        let tag = self.u16(pos);
+        let value_or_offset = self.u32(pos + 8) as usize;
+        if SUBIFD_TAGS.contains(&tag) {
+            self.walk.push(value_or_offset);
+        }
+
+        let Ok(format) = DataFormat::try_from(self.u16(pos + 2)) else {
+            tracing::warn!(tag, "Ignored: IFD entry data format error");
+            return;
+        };
+        let size = (self.u32(pos + 4) as usize).saturating_mul(format.component_size());
+        let end = value_or_offset.saturating_add(size);
+        if size > 4 && loadable(end) {
+            self.walk.extent = max(self.walk.extent, end);
+        }
+    }
+
+    fn need(&self, end: usize) -> Result<(), ParsingError> {
+        match end.checked_sub(self.data.len()) {
+            None | Some(0) => Ok(()),
+            Some(n) => Err(ParsingError::Need(n)),
+        }
+    }
+
+    fn u16(&self, pos: usize) -> u16 {
+        let b = [self.data[pos], self.data[pos + 1]];
+        match self.endian {
+            Endianness::Big => u16::from_be_bytes(b),
+            _ => u16::from_le_bytes(b),
+        }
+    }
+
+    fn u32(&self, pos: usize) -> u32 {
+        let mut b = [0; 4];
+        b.copy_from_slice(&self.data[pos..pos + 4]);
+        match self.endian {
+            Endianness::Big => u32::from_be_bytes(b),
+            _ => u32::from_le_bytes(b),
+        }
+    }
 }
 
-// fn keep_incomplete_err_only<T: Debug>(e: nom::Err<T>) -> nom::Err<String> {
-//     match e {
-//         nom::Err::Incomplete(n) => nom::Err::Incomplete(n),
-//         nom::Err::Error(e) => nom::Err::Error(format!("parse ifd error: {:?}", e)),
-//         nom::Err::Failure(_) => nom::Err::Failure("parse ifd failure".to_string()),
-//     }
-// }
+/// Whether the parse buffer may grow up to `end`.
+fn loadable(end: usize) -> bool {
+    end <= MAX_PARSE_BUF_SIZE - MIN_GROW_SIZE
+}
 
 #[cfg(test)]
 mod tests {
diff --git a/src/parser.rs b/src/parser.rs
index 05e3dad..ea7eb6a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -8,7 +8,7 @@ use std::{
 
 use crate::{
     error::{ParsedError, ParsingError, ParsingErrorState},
-    exif::TiffHeader,
+    exif::{IfdWalk, TiffHeader},
     file::MediaMime,
     ExifIter, TrackInfo,
 };
@@ -500,7 +500,8 @@ pub(crate) fn parse_loop_step<O>(
 
 #[derive(Debug, Clone)]
 pub(crate) enum ParsingState {
-    TiffHeader(TiffHeader),
+    /// The IFDs of a TIFF file are being loaded.
+    TiffIfds(TiffHeader, Box<IfdWalk>),
     HeifExifSize(usize),
     Cr3ExifSize(usize),
     /// PNG chunk walker has already validated the 8-byte signature.
@@ -512,7 +513,7 @@ pub(crate) enum ParsingState {
 impl Display for ParsingState {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            ParsingState::TiffHeader(h) => Display::fmt(&format!("ParsingState: {h:?})"), f),
+            ParsingState::TiffIfds(h, _) => Display::fmt(&format!("ParsingState: {h:?})"), f),
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
-- 
2.43.0


From f41ff721094d071a8ad41bc4226002d145cbebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 26/63] fix: don't report missing metadata when the loaded
 bytes end right before its box

---
 src/exif.rs | 92 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 9d8b8ce..4ca49bb 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -46,7 +46,7 @@ pub(crate) fn parse_exif_iter<R: Read>(
     let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
     });
-    let out = tiff_at_eof(parser, mime_img, out)?;
+    let out = settle_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
@@ -98,9 +98,9 @@ fn parse_cr3_exif_iter<R: Read>(
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<ExifIter, crate::Error> {
     // First, parse to get all CMT ranges
-    let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
-        cr3::extract_all_cmt_ranges(buf)
-    })?;
+    let cmt_ranges =
+        parser.load_and_parse(reader, skip_by_seek, |buf, _state| load_cmt_ranges(buf));
+    let cmt_ranges = settle_cr3_at_eof(parser, cmt_ranges)?;
 
     cr3_ranges_to_iter(parser, cmt_ranges)
 }
@@ -117,10 +117,9 @@ where
     R: AsyncRead + Unpin + Send,
 {
     let cmt_ranges = parser
-        .load_and_parse(reader, skip_by_seek, |buf, _state| {
-            cr3::extract_all_cmt_ranges(buf)
-        })
-        .await?;
+        .load_and_parse(reader, skip_by_seek, |buf, _state| load_cmt_ranges(buf))
+        .await;
+    let cmt_ranges = settle_cr3_at_eof(parser, cmt_ranges)?;
 
     cr3_ranges_to_iter(parser, cmt_ranges)
 }
@@ -267,22 +266,72 @@ pub(crate) fn parse_png_full<R: Read>(
     Ok((exif_iter, out.text_chunks))
 }
 
-/// A TIFF file which ends before some entry value or IFD it refers to is
-/// still readable: the `ExifIter` reports the entries it can't read.
-fn tiff_at_eof(
+fn is_eof(e: &ParsedError) -> bool {
+    match e {
+        ParsedError::NoEnoughBytes => true,
+        ParsedError::IOError(e) => e.kind() == std::io::ErrorKind::UnexpectedEof,
+        ParsedError::Failed { .. } => false,
+    }
+}
+
+/// Whether `buf` ends right between two top-level boxes and the box with the
+/// metadata is not among those seen so far. It may be the next one, unless
+/// this is the end of the file.
+fn metadata_box_may_follow(mime_img: MediaMimeImage, buf: &[u8]) -> bool {
+    match mime_img {
+        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif => {
+            matches!(heif::parse_meta_box(buf), Ok((_, None)))
+        }
+        MediaMimeImage::Cr3 => matches!(cr3::parse_moov_box(buf), Ok((_, None))),
+        _ => false,
+    }
+}
+
+/// What the end of the file means for an Exif lookup which asked for more
+/// bytes:
+///
+/// - A TIFF file which ends before some entry value or IFD it refers to is
+///   still readable: the `ExifIter` reports the entries it can't read.
+/// - A HEIF file without a `meta` box has no Exif data.
+fn settle_at_eof(
     parser: &impl Buf,
     mime_img: MediaMimeImage,
     out: Result<ExifRange, ParsedError>,
 ) -> Result<ExifRange, ParsedError> {
-    let eof = match &out {
-        Err(ParsedError::NoEnoughBytes) => true,
-        Err(ParsedError::IOError(e)) => e.kind() == std::io::ErrorKind::UnexpectedEof,
-        _ => false,
-    };
-    if eof && mime_img == MediaMimeImage::Tiff {
-        return Ok(Some((0..parser.buffer().len(), None)));
+    match out {
+        Err(e) if is_eof(&e) => {
+            if mime_img == MediaMimeImage::Tiff {
+                Ok(Some((0..parser.buffer().len(), None)))
+            } else if metadata_box_may_follow(mime_img, parser.buffer()) {
+                Ok(None)
+            } else {
+                Err(e)
+            }
+        }
+        out => out,
+    }
+}
+
+/// Look for the CMT blocks in `buf`, asking for more bytes as long as the
+/// `moov` box may follow.
+fn load_cmt_ranges(buf: &[u8]) -> Result<Option<cr3::Cr3CmtRanges>, ParsingErrorState> {
+    match cr3::extract_all_cmt_ranges(buf)? {
+        None => Err(ParsingErrorState::new(ParsingError::Need(1), None)),
+        found => Ok(found),
+    }
+}
+
+/// Like [`settle_at_eof`], for CR3.
+fn settle_cr3_at_eof(
+    parser: &impl Buf,
+    out: Result<Option<cr3::Cr3CmtRanges>, ParsedError>,
+) -> Result<Option<cr3::Cr3CmtRanges>, ParsedError> {
+    match out {
+        Err(e) if is_eof(&e) && metadata_box_may_follow(MediaMimeImage::Cr3, parser.buffer()) => {
+            Ok(None)
+        }
+        out => out,
     }
-    out
 }
 
 type ExifRange = Option<(Range<usize>, Option<TiffHeader>)>;
@@ -294,6 +343,9 @@ fn extract_exif_range(
     state: Option<ParsingState>,
 ) -> ExifRangeResult {
     let (exif_data, state) = extract_exif_with_mime(img, buf, state)?;
+    if exif_data.is_none() && metadata_box_may_follow(img, buf) {
+        return Err(ParsingErrorState::new(ParsingError::Need(1), state));
+    }
     let header = state.and_then(|x| match x {
         ParsingState::TiffIfds(h, _) => Some(h),
         ParsingState::HeifExifSize(_) => None,
@@ -347,7 +399,7 @@ where
             extract_exif_range(mime_img, buf, state)
         })
         .await;
-    let out = tiff_at_eof(parser, mime_img, out)?;
+    let out = settle_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
-- 
2.43.0


From 99b202b3f0c46421e3ba0a11443b4c08e2bc9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 27/63] fix: read an ImageMagick exif profile that keeps its
 Exif header in PNG

---
 src/png.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/png.rs b/src/png.rs
index 92dee89..32db0b4 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -278,8 +278,9 @@ pub(crate) fn walk_chunks(
                     };
                     if candidate_priority > 0 && candidate_priority > walk.exif_priority {
                         if let Ok(mut bytes) = decode_raw_profile_value(&value) {
-                            // Strip APP1's leading "Exif\0\0" if present.
-                            if key.ends_with("APP1") && bytes.starts_with(b"Exif\0\0") {
+                            // Strip the leading "Exif\0\0" if present: always there in
+                            // an APP1 profile, and ImageMagick's exif profile keeps it.
+                            if bytes.starts_with(b"Exif\0\0") {
                                 bytes.drain(0..6);
                             }
                             // Validate as TIFF (must have a valid byte-order marker
-- 
2.43.0


From b0918bf7d2e4333d0f7db17aeaa2f4a4a5b96727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 28/63] fix: give each EXIF date its own UTC offset whatever
 the order of the entries

---
 src/exif/exif_iter.rs | 71 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index f9b3f86..54a6310 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -121,7 +121,8 @@ pub(crate) fn input_into_iter(
 
     let mut ifd0 = IfdIter::try_new(0, input.clone(), header.to_owned(), start, None)?;
 
-    let tz = ifd0.find_tz_offset();
+    ifd0.tz_offsets = ifd0.find_tz_offsets();
+    let tz = ifd0.tz_offsets.any().clone();
     ifd0.tz = tz.clone();
     let iter: ExifIter = ExifIter::new(input, header, tz, ifd0);
 
@@ -610,12 +611,44 @@ pub(crate) struct IfdIter {
     entry_num: u16,
 
     pub tz: Option<String>,
+    tz_offsets: TzOffsets,
 
     // Iterating status
     index: u16,
     pos: usize,
 }
 
+/// The UTC offset entries of an Exif directory. Each belongs to one date entry.
+#[derive(Clone, Debug, Default)]
+struct TzOffsets {
+    original: Option<String>,
+    digitized: Option<String>,
+    modified: Option<String>,
+}
+
+impl TzOffsets {
+    /// The offset to use for a date that has none of its own.
+    fn any(&self) -> &Option<String> {
+        [&self.original, &self.digitized]
+            .into_iter()
+            .find(|x| x.is_some())
+            .unwrap_or(&self.modified)
+    }
+
+    fn of_date(&self, tag: u16) -> &Option<String> {
+        let own = match ExifTag::from_code(tag) {
+            Some(ExifTag::DateTimeOriginal) => &self.original,
+            Some(ExifTag::CreateDate) => &self.digitized,
+            _ => &self.modified,
+        };
+        if own.is_some() {
+            own
+        } else {
+            self.any()
+        }
+    }
+}
+
 impl Debug for IfdIter {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("IfdIter")
@@ -697,6 +730,7 @@ impl IfdIter {
             header,
             entry_num,
             tz,
+            tz_offsets: TzOffsets::default(),
             // Skip the first two bytes, which is the entry num
             pos: offset + 2,
             index: 0,
@@ -796,7 +830,7 @@ impl IfdIter {
             data_format,
             components_num,
         };
-        match EntryValue::parse(&entry, &self.tz) {
+        match EntryValue::parse(&entry, self.tz_offsets.of_date(tag)) {
             Ok(v) => (tag, IfdEntry::Entry(v)),
             Err(e) => (tag, IfdEntry::Err(e)),
         }
@@ -817,7 +851,10 @@ impl IfdIter {
                 offset,
                 self.tz.clone(),
             ) {
-                Ok(iter) => return Some(IfdEntry::IfdNew(iter.tag_code_maybe(tag))),
+                Ok(mut iter) => {
+                    iter.tz_offsets = self.tz_offsets.clone();
+                    return Some(IfdEntry::IfdNew(iter.tag_code_maybe(tag)));
+                }
                 Err(e) => {
                     tracing::warn!(?tag, ?e, "Create next/sub IFD failed");
                 }
@@ -853,23 +890,23 @@ impl IfdIter {
         None
     }
 
-    pub fn find_tz_offset(&self) -> Option<String> {
-        let iter = self.find_exif_iter()?;
-        let mut offset = None;
-        for entry in iter {
-            let Some(tag) = entry.0 else {
-                continue;
+    fn find_tz_offsets(&self) -> TzOffsets {
+        let mut offsets = TzOffsets::default();
+        let Some(iter) = self.find_exif_iter() else {
+            return offsets;
+        };
+        for (tag, entry) in iter {
+            let slot = match tag.and_then(|t| t.tag()) {
+                Some(ExifTag::OffsetTimeOriginal) => &mut offsets.original,
+                Some(ExifTag::OffsetTimeDigitized) => &mut offsets.digitized,
+                Some(ExifTag::OffsetTime) => &mut offsets.modified,
+                _ => continue,
             };
-            if tag.code() == ExifTag::OffsetTimeOriginal.code()
-                || tag.code() == ExifTag::OffsetTimeDigitized.code()
-            {
-                return entry.1.as_str().map(|x| x.to_owned());
-            } else if tag.code() == ExifTag::OffsetTime.code() {
-                offset = entry.1.as_str().map(|x| x.to_owned());
+            if slot.is_none() {
+                *slot = entry.as_str().map(|x| x.to_owned());
             }
         }
-
-        offset
+        offsets
     }
 
     // Assume the current ifd is GPSInfo subifd.
-- 
2.43.0


From f0b56ea2a1052045a407a50188c5998116d623e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 29/63] fix: don't report a zero duration or size for Matroska
 files that encode none

---
 src/ebml/webm.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index d66b68e..f1dd221 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -31,7 +31,8 @@ pub struct EbmlFileInfo {
     #[allow(unused)]
     doc_type: String,
     segment_info: SegmentInfo,
-    tracks_info: TracksInfo,
+    // size of the first video track, if any
+    tracks_info: Option<TracksInfo>,
 }
 
 impl From<EbmlFileInfo> for TrackInfo {
@@ -43,12 +44,16 @@ impl From<EbmlFileInfo> for TrackInfo {
                 EntryValue::DateTime(date.fixed_offset()),
             );
         }
-        info.put(
-            TrackInfoTag::DurationMs,
-            ((value.segment_info.duration / 1000.0 / 1000.0) as u64).into(),
-        );
-        info.put(TrackInfoTag::Width, value.tracks_info.width.into());
-        info.put(TrackInfoTag::Height, value.tracks_info.height.into());
+        if let Some(duration) = value.segment_info.duration {
+            info.put(
+                TrackInfoTag::DurationMs,
+                ((duration / 1000.0 / 1000.0) as u64).into(),
+            );
+        }
+        if let Some(tracks) = value.tracks_info {
+            info.put(TrackInfoTag::Width, tracks.width.into());
+            info.put(TrackInfoTag::Height, tracks.height.into());
+        }
         info
     }
 }
@@ -115,9 +120,9 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         if let Some(pos) = tracks_seek {
             let tracks = parse_tracks_info(input, pos as usize)?;
             tracing::debug!(?tracks);
-            if let Some(info) = tracks {
+            if tracks.is_some() {
                 tracks_set = true;
-                file_info.tracks_info = info;
+                file_info.tracks_info = tracks;
             }
         }
     }
@@ -149,9 +154,7 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
             )?
         };
         tracing::debug!(?track);
-        if let Some(info) = track {
-            file_info.tracks_info = info;
-        }
+        file_info.tracks_info = track;
     }
 
     Ok(file_info)
@@ -313,7 +316,7 @@ struct VideoTrackInfo {
 #[derive(Debug, Clone, Default)]
 struct SegmentInfo {
     // in nano seconds
-    duration: f64,
+    duration: Option<f64>,
     date: Option<DateTime<Utc>>,
 }
 
@@ -343,7 +346,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
-    let mut duration = 0.0;
+    let mut duration = None;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
@@ -361,7 +364,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        duration = v;
+                        duration = Some(v);
                     }
                 }
                 InfoId::Date => {
@@ -384,7 +387,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     }
 
     // TimestampScale applies wherever it stands among the elements
-    info.duration = duration * time_scale as f64;
+    info.duration = duration.map(|v| v * time_scale as f64);
     Ok(info)
 }
 
-- 
2.43.0


From 7a33596905390c64d60cf6072dbe5e66f93385c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 30/63] fix: report a HEIF file without an Exif item as having
 no Exif, not as malformed

---
 src/bbox/meta.rs | 7 +++++++
 src/heif.rs      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index e69f68f..ceacf39 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -105,6 +105,13 @@ impl MetaBox {
             .unwrap_or(Ok((input, None)))
     }
 
+    /// Whether the file declares an Exif item at all.
+    pub fn has_exif_item(&self) -> bool {
+        self.iinf
+            .as_ref()
+            .is_some_and(|iinf| iinf.get_infe("Exif").is_some())
+    }
+
     #[tracing::instrument(skip_all)]
     pub fn exif_data_offset(&self) -> Option<Range<usize>> {
         self.iinf
diff --git a/src/heif.rs b/src/heif.rs
index 5416564..95c1b78 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -36,6 +36,8 @@ pub(crate) fn extract_exif_data(
                     } else {
                         (Some(&buf[range]), None)
                     }
+                } else if !meta.has_exif_item() {
+                    (None, None)
                 } else {
                     return Err(ParsingErrorState::new(
                         ParsingError::Failed {
-- 
2.43.0


From 2933950ad6dc3595d68dfcdd03267faadd8cb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 31/63] fix: find the TIFF header of a HEIF Exif item by its
 declared offset

---
 src/heif.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 95c1b78..ea13fb6 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -7,7 +7,7 @@ use crate::{
     error::{
         nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
     },
-    exif::check_exif_header2,
+    exif::{check_exif_header2, TiffHeader},
     parser::ParsingState,
 };
 
@@ -62,9 +62,36 @@ pub(crate) fn extract_exif_data(
         }
     };
 
-    let data = data.and_then(|x| check_exif_header2(x).map(|x| x.0).ok());
+    let Some(item) = data else {
+        return Ok((None, state));
+    };
+    let Some(tiff) = tiff_of_exif_item(item) else {
+        return Err(ParsingErrorState::new(
+            ParsingError::Failed {
+                kind: MalformedKind::IsoBmffBox,
+                message: "Exif item too short".into(),
+            },
+            None,
+        ));
+    };
+
+    Ok((Some(tiff), state))
+}
 
-    Ok((data, state))
+/// The TIFF data of an Exif item, which starts with the 32-bit offset of the
+/// TIFF header, counted from behind the offset (ISO/IEC 23008-12, A.2.1).
+///
+/// The bytes skipped are usually "Exif\0\0", but there may be none at all; a
+/// writer may also put "Exif\0\0" without counting it.
+fn tiff_of_exif_item(item: &[u8]) -> Option<&[u8]> {
+    let (offset, payload) = item.split_first_chunk::<4>()?;
+    let offset = u32::from_be_bytes(*offset) as usize;
+    let tiff = payload
+        .get(offset..)
+        .filter(|x| TiffHeader::parse(x).is_ok());
+
+    // Without a TIFF header, leave it to the caller to tell what's wrong.
+    Some(tiff.unwrap_or_else(|| check_exif_header2(item).map_or(payload, |x| x.0)))
 }
 
 pub(crate) fn parse_meta_box(input: &[u8]) -> IResult<&[u8], Option<MetaBox>> {
-- 
2.43.0


From 19ed079b9d5fb91f914448953e85614bc9112341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 32/63] fix: report a CR3 file without a Canon box as having no
 Exif, not as malformed

---
 src/bbox/cr3_moov.rs |  1 -
 src/cr3.rs           |  2 +-
 src/exif.rs          | 15 +++------------
 3 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/bbox/cr3_moov.rs b/src/bbox/cr3_moov.rs
index 1a23747..2c437e6 100644
--- a/src/bbox/cr3_moov.rs
+++ b/src/bbox/cr3_moov.rs
@@ -133,7 +133,6 @@ impl Cr3MoovBox {
         Ok((remain, Cr3MoovBox { uuid_canon_box }))
     }
 
-    #[allow(dead_code)] // API method for tests
     pub fn uuid_canon_box(&self) -> Option<&CanonUuidBox> {
         self.uuid_canon_box.as_ref()
     }
diff --git a/src/cr3.rs b/src/cr3.rs
index 43c7cfe..a3e1f1d 100644
--- a/src/cr3.rs
+++ b/src/cr3.rs
@@ -36,7 +36,7 @@ pub(crate) fn extract_all_cmt_ranges(
     };
 
     let ranges = moov.all_cmt_data_offsets();
-    if ranges.is_empty() {
+    if ranges.is_empty() && moov.uuid_canon_box().is_some() {
         return Err(ParsingErrorState::new(
             ParsingError::Failed {
                 kind: MalformedKind::IsoBmffBox,
diff --git a/src/exif.rs b/src/exif.rs
index 4ca49bb..ef4a804 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -128,20 +128,11 @@ fn cr3_ranges_to_iter(
     parser: &mut impl ShareBuf,
     cmt_ranges: Option<cr3::Cr3CmtRanges>,
 ) -> Result<ExifIter, crate::Error> {
-    let Some(cmt_ranges) = cmt_ranges else {
-        return Err(crate::Error::Malformed {
-            kind: crate::error::MalformedKind::IsoBmffBox,
-            message: "cr3: no CMT data found".into(),
-        });
+    let Some(cmt_ranges) = cmt_ranges.filter(|x| !x.ranges.is_empty()) else {
+        tracing::debug!("no CMT block found");
+        return Err(crate::Error::ExifNotFound);
     };
 
-    if cmt_ranges.ranges.is_empty() {
-        return Err(crate::Error::Malformed {
-            kind: crate::error::MalformedKind::IsoBmffBox,
-            message: "cr3: no CMT ranges available".into(),
-        });
-    }
-
     tracing::debug!(
         cmt_count = cmt_ranges.ranges.len(),
         "Found CMT ranges in CR3 file"
-- 
2.43.0


From 0285bdfa325b291347122eea56c8b14ec849a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 33/63] fix: name the JPEG segment, not a TIFF header, when a
 RAF's embedded JPEG is malformed

---
 src/exif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif.rs b/src/exif.rs
index ef4a804..8118c32 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -479,7 +479,7 @@ pub(crate) fn extract_exif_with_mime(
         MediaMimeImage::Raf => RafInfo::parse(buf)
             .map(|res| (res.1.exif_data, state.clone()))
             .map_err(|e| {
-                nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, state)
+                nom_error_to_parsing_error_with_state(e, MalformedKind::JpegSegment, state)
             })?,
         MediaMimeImage::Cr3 => cr3_extract_exif(state, buf)?,
         MediaMimeImage::Png => {
-- 
2.43.0


From 24cd637d4cf95ff0da25ffaed8f10f38dfce1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 34/63] fix: don't present a CR3's maker notes as its EXIF when
 CMT1 is broken

---
 src/cr3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr3.rs b/src/cr3.rs
index a3e1f1d..3009e1e 100644
--- a/src/cr3.rs
+++ b/src/cr3.rs
@@ -36,7 +36,9 @@ pub(crate) fn extract_all_cmt_ranges(
     };
 
     let ranges = moov.all_cmt_data_offsets();
-    if ranges.is_empty() && moov.uuid_canon_box().is_some() {
+    // CMT3 holds maker notes only; it can't stand in for a missing or broken
+    // CMT1.
+    if ranges.iter().all(|(id, _)| *id == "CMT3") && moov.uuid_canon_box().is_some() {
         return Err(ParsingErrorState::new(
             ParsingError::Failed {
                 kind: MalformedKind::IsoBmffBox,
-- 
2.43.0


From 88796fd5bf53551a862724a7a39c3bff19bf2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 35/63] fix: don't panic converting a time at the edge of the
 range to an EntryValue

---
 src/values.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/values.rs b/src/values.rs
index a6e2eb5..04473c5 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -482,10 +482,14 @@ impl EntryValue {
 // Convert time components to EntryValue
 impl From<(NaiveDateTime, Option<FixedOffset>)> for EntryValue {
     fn from(value: (NaiveDateTime, Option<FixedOffset>)) -> Self {
-        if let Some(offset) = value.1 {
-            EntryValue::DateTime(value.0.and_local_timezone(offset).unwrap())
-        } else {
-            EntryValue::NaiveDateTime(value.0)
+        // A time at the very edge of the supported range may not be
+        // representable with the offset applied; keep it as it is then.
+        match value
+            .1
+            .and_then(|offset| value.0.and_local_timezone(offset).single())
+        {
+            Some(t) => EntryValue::DateTime(t),
+            None => EntryValue::NaiveDateTime(value.0),
         }
     }
 }
-- 
2.43.0


From 4e0744cbaf6ba66d91f4d084b073c81c39cb74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 36/63] fix: widen every U64 value to a float, also above
 i64::MAX

---
 src/values.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/values.rs b/src/values.rs
index 04473c5..9298d18 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -410,6 +410,8 @@ impl EntryValue {
             EntryValue::F64(v) => Some(*v),
             EntryValue::URational(v) => v.to_f64(),
             EntryValue::IRational(v) => v.to_f64(),
+            // may not fit an i64
+            EntryValue::U64(v) => Some(*v as f64),
             v => v.try_as_integer().map(|x| x as f64),
         }
     }
-- 
2.43.0


From 93db07cd13f55724b97049dae7a66fa3d686597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 37/63] fix: keep the fraction of a second when printing or
 serialising a naive time

---
 src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/values.rs b/src/values.rs
index 9298d18..bd59901 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -597,7 +597,7 @@ impl Serialize for EntryValue {
             EntryValue::F64(v) => serializer.serialize_f64(*v),
             EntryValue::DateTime(t) => serializer.serialize_str(&t.to_rfc3339()),
             EntryValue::NaiveDateTime(t) => {
-                serializer.serialize_str(&t.format("%Y-%m-%d %H:%M:%S").to_string())
+                serializer.serialize_str(&t.format("%Y-%m-%d %H:%M:%S%.f").to_string())
             }
             EntryValue::Undefined(bytes) => {
                 let mut hex = String::with_capacity(bytes.len() * 2);
@@ -663,7 +663,7 @@ impl Display for EntryValue {
             EntryValue::U8(v) => Display::fmt(&v, f),
             EntryValue::I8(v) => Display::fmt(&v, f),
             EntryValue::DateTime(v) => Display::fmt(&v.to_rfc3339(), f),
-            EntryValue::NaiveDateTime(v) => Display::fmt(&v.format("%Y-%m-%d %H:%M:%S"), f),
+            EntryValue::NaiveDateTime(v) => Display::fmt(&v.format("%Y-%m-%d %H:%M:%S%.f"), f),
             EntryValue::Undefined(v) => fmt_undefined(v, f),
             EntryValue::URationalArray(v) => {
                 format!("URationalArray[{}]", rationals_to_string::<u32>(v)).fmt(f)
-- 
2.43.0


From e212fe2fa8f092a19ce78602d3a06068ac1ed8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 38/63] fix: report a read error met while looking for a motion
 photo instead of dropping the flag

---
 src/exif.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 8118c32..e944c12 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -13,7 +13,7 @@ pub use exif_iter::{ExifEntry, ExifIter, ExifIterEntry, IfdIndex};
 pub use gps::{GPSInfo, LatLng};
 pub use tags::{ExifTag, TagOrCode};
 
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::Range;
 
 pub(crate) mod ifd;
@@ -49,7 +49,7 @@ pub(crate) fn parse_exif_iter<R: Read>(
     let out = settle_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
-        MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
+        MediaMimeImage::Jpeg => detect_motion_photo(parser, reader)?,
         _ => false,
     };
 
@@ -65,23 +65,27 @@ pub(crate) fn parse_exif_iter<R: Read>(
 /// can sit just past the buffer's edge. Try the scan first; if it
 /// reports `NeedMoreBytes`, pull another small chunk and retry. Cap
 /// the total extra reads at `MAX_EXTRA` so a malformed file can't loop
-/// forever.
-fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> bool {
+/// forever. A failing reader is an error like anywhere else: without the
+/// bytes there is no telling whether the signal is present.
+fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> io::Result<bool> {
     use crate::parser::{Buf, BufParser};
     const CHUNK: usize = 8 * 1024;
     const MAX_EXTRA: usize = 256 * 1024;
     let mut extra = 0;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
-            jpeg::MotionPhotoScan::Found(_) => return true,
-            jpeg::MotionPhotoScan::NotPresent => return false,
+            jpeg::MotionPhotoScan::Found(_) => return Ok(true),
+            jpeg::MotionPhotoScan::NotPresent => return Ok(false),
             jpeg::MotionPhotoScan::NeedMoreBytes => {
                 if extra >= MAX_EXTRA {
-                    return false;
+                    return Ok(false);
                 }
                 let want = CHUNK.min(MAX_EXTRA - extra);
-                if parser.fill_buf(reader, want).is_err() {
-                    return false;
+                match parser.fill_buf(reader, want) {
+                    Ok(_) => {}
+                    // The file ends before its segments do.
+                    Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(false),
+                    Err(e) => return Err(e),
                 }
                 extra += want;
             }
@@ -393,7 +397,7 @@ where
     let out = settle_at_eof(parser, mime_img, out)?;
 
     let has_track = match mime_img {
-        MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
+        MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await?,
         _ => false,
     };
 
@@ -402,7 +406,7 @@ where
 
 /// Async twin of [`detect_motion_photo`].
 #[cfg(feature = "tokio")]
-async fn detect_motion_photo_async<P, R>(parser: &mut P, reader: &mut R) -> bool
+async fn detect_motion_photo_async<P, R>(parser: &mut P, reader: &mut R) -> io::Result<bool>
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::Buf,
     R: AsyncRead + Unpin + Send,
@@ -412,15 +416,18 @@ where
     let mut extra = 0;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
-            jpeg::MotionPhotoScan::Found(_) => return true,
-            jpeg::MotionPhotoScan::NotPresent => return false,
+            jpeg::MotionPhotoScan::Found(_) => return Ok(true),
+            jpeg::MotionPhotoScan::NotPresent => return Ok(false),
             jpeg::MotionPhotoScan::NeedMoreBytes => {
                 if extra >= MAX_EXTRA {
-                    return false;
+                    return Ok(false);
                 }
                 let want = CHUNK.min(MAX_EXTRA - extra);
-                if parser.fill_buf(reader, want).await.is_err() {
-                    return false;
+                match parser.fill_buf(reader, want).await {
+                    Ok(_) => {}
+                    // The file ends before its segments do.
+                    Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(false),
+                    Err(e) => return Err(e),
                 }
                 extra += want;
             }
-- 
2.43.0


From 0b8414fa25cd7d197c11fd29a5641e9ae35292db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 39/63] fix: report a GPS position that cannot be read instead
 of defaulting it to the equator

---
 src/exif/exif_iter.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 54a6310..acd197d 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -288,7 +288,7 @@ impl ExifIter {
             Ok(ifd0) => ifd0.tag_code(ExifTag::GPSInfo.code()),
             Err(e) => return Err(e),
         };
-        Ok(gps_subifd.parse_gps_info())
+        gps_subifd.parse_gps_info()
     }
 
     /// Add an additional TIFF data block to be iterated after the current block.
@@ -910,7 +910,7 @@ impl IfdIter {
     }
 
     // Assume the current ifd is GPSInfo subifd.
-    pub fn parse_gps_info(&mut self) -> Option<GPSInfo> {
+    pub fn parse_gps_info(&mut self) -> crate::Result<Option<GPSInfo>> {
         use crate::exif::gps::{Altitude, LatRef, LonRef, Speed, SpeedUnit};
 
         let mut latitude_ref = None;
@@ -922,12 +922,26 @@ impl IfdIter {
         let mut speed_unit = None;
         let mut speed_value = None;
         let mut has_data = false;
+        let mut position_entries = 0u32;
 
-        for (tag, entry) in self {
+        for (tag, entry) in self.by_ref() {
             let Some(tag) = tag.and_then(|x| x.tag()) else {
                 continue;
             };
             has_data = true;
+            if matches!(
+                tag,
+                ExifTag::GPSLatitudeRef
+                    | ExifTag::GPSLatitude
+                    | ExifTag::GPSLongitudeRef
+                    | ExifTag::GPSLongitude
+            ) {
+                // The default would be another position than the recorded one.
+                if let IfdEntry::Err(e) = entry {
+                    return Err(e.into());
+                }
+                position_entries |= 1 << tag.code();
+            }
             match tag {
                 ExifTag::GPSLatitudeRef => {
                     latitude_ref = entry.as_char().and_then(LatRef::from_char);
@@ -979,7 +993,14 @@ impl IfdIter {
 
         if !has_data {
             tracing::warn!("GPSInfo data not found");
-            return None;
+            return Ok(None);
+        }
+
+        if position_entries != 0b11110 && self.index < self.entry_num {
+            return Err(crate::Error::Malformed {
+                kind: crate::error::MalformedKind::IfdEntry,
+                message: "GPSInfo cut short".into(),
+            });
         }
 
         let altitude = match (altitude_ref, altitude_value) {
@@ -993,14 +1014,14 @@ impl IfdIter {
             _ => None,
         };
 
-        Some(GPSInfo {
+        Ok(Some(GPSInfo {
             latitude_ref: latitude_ref.unwrap_or(LatRef::North),
             latitude: latitude.unwrap_or_default(),
             longitude_ref: longitude_ref.unwrap_or(LonRef::East),
             longitude: longitude.unwrap_or_default(),
             altitude,
             speed,
-        })
+        }))
     }
 }
 
-- 
2.43.0


From 91adc19200a03308ae9edb297ec600d56a64ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 40/63] fix: let rexiftool fail, and say why, when it cannot
 parse its file

---
 crates/rexiftool/src/main.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index d5da6e1..bc9caea 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -60,26 +60,33 @@ fn tracing_run(cli: &Cli) -> ExitCode {
         init_tracing().expect("init tracing failed");
     }
 
-    if let Err(err) = run(cli) {
-        tracing::error!(?err);
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
+    match run(cli) {
+        Ok(code) => code,
+        Err(err) => {
+            tracing::error!(?err);
+            eprintln!("{err}");
+            ExitCode::FAILURE
+        }
     }
-
-    ExitCode::SUCCESS
 }
 
-fn run(cli: &Cli) -> Result<(), Box<dyn Error>> {
+fn run(cli: &Cli) -> Result<ExitCode, Box<dyn Error>> {
     let mut parser = MediaParser::new();
 
     let path = Path::new(&cli.file);
     if path.is_file() {
-        let _ = parse_file(&mut parser, path, cli);
+        // parse_file has reported its failure
+        if parse_file(&mut parser, path, cli).is_err() {
+            return Ok(ExitCode::FAILURE);
+        }
     } else if path.is_dir() {
         parse_dir(path, parser, cli)?;
+    } else {
+        fs::metadata(path).map_err(|e| format!("{}: {e}", path.display()))?;
+        return Err(format!("{}: not a file or directory", path.display()).into());
     }
 
-    Ok(())
+    Ok(ExitCode::SUCCESS)
 }
 
 fn parse_dir(path: &Path, mut parser: MediaParser, cli: &Cli) -> Result<(), Box<dyn Error>> {
@@ -184,7 +191,7 @@ fn parse_file<P: AsRef<Path>>(
             (exif_values, track_values, fmt_pairs)
         }
         MediaKind::Track => {
-            let info: TrackInfo = parser.parse_track(ms)?;
+            let info: TrackInfo = parser.parse_track(ms).inspect_err(handle_parsing_error)?;
             (track_info_to_pairs(&info), None, None)
         }
     };
-- 
2.43.0


From ac5b85e8470f4f35ccc6d16d13adefa6b01c4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 41/63] fix: keep every entry in rexiftool's JSON, thumbnail
 entries included

---
 crates/rexiftool/README.md   |  3 +-
 crates/rexiftool/src/main.rs | 67 ++++++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/crates/rexiftool/README.md b/crates/rexiftool/README.md
index e25f95f..fb9ad46 100644
--- a/crates/rexiftool/README.md
+++ b/crates/rexiftool/README.md
@@ -37,7 +37,8 @@ rexiftool --debug photo.heic
 Flags:
 
 - `-j, --json` — JSON output instead of `key : value`. JSON is never
-  truncated and always includes thumbnail (IFD1) entries.
+  truncated and always includes thumbnail (IFD1) entries, under
+  `_thumbnail` (those of further directories under `_ifdN`).
 - `--no-track` — skip embedded media tracks (e.g. Pixel Motion Photo
   MP4 trailers).
 - `--no-format` — skip format-specific metadata (e.g. PNG `tEXt`
diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index bc9caea..2765022 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::BTreeMap,
     error::Error,
     fs::{self, File},
     io::{self},
@@ -7,7 +8,10 @@ use std::{
 };
 
 use clap::Parser;
-use nom_exif::{ExifIter, ImageFormatMetadata, MediaKind, MediaParser, MediaSource, TrackInfo};
+use nom_exif::{
+    EntryValue, ExifIter, IfdIndex, ImageFormatMetadata, MediaKind, MediaParser, MediaSource,
+    TrackInfo,
+};
 use tracing_subscriber::{layer::SubscriberExt, util::SubscriberInitExt, Registry};
 
 #[derive(Parser, Debug)]
@@ -32,7 +36,8 @@ struct Cli {
 
     /// Include thumbnail (IFD1) entries. By default they are hidden,
     /// because they mostly duplicate the main image's tags
-    /// (XResolution, ExifImageWidth, …).
+    /// (XResolution, ExifImageWidth, …). JSON output always has them,
+    /// under "_thumbnail".
     #[arg(long)]
     with_thumbnail: bool,
 
@@ -137,10 +142,10 @@ fn parse_file<P: AsRef<Path>>(
             let img_result = parser.parse_image_metadata(ms);
             let (exif_values, has_embedded, fmt_pairs) = match img_result {
                 Ok(img) => {
-                    let (has, exif_pairs) = match img.exif {
+                    let (has, exif_entries) = match img.exif {
                         Some(iter) => (
                             iter.has_embedded_track(),
-                            exif_iter_to_pairs(iter, cli.with_thumbnail),
+                            exif_iter_to_entries(iter, cli.with_thumbnail || cli.json),
                         ),
                         None => (false, vec![]),
                     };
@@ -161,7 +166,7 @@ fn parse_file<P: AsRef<Path>>(
                             _ => None,
                         }
                     };
-                    (exif_pairs, has, fmt_pairs)
+                    (exif_entries, has, fmt_pairs)
                 }
                 Err(nom_exif::Error::ExifNotFound) => (vec![], false, None),
                 Err(e) => {
@@ -192,7 +197,11 @@ fn parse_file<P: AsRef<Path>>(
         }
         MediaKind::Track => {
             let info: TrackInfo = parser.parse_track(ms).inspect_err(handle_parsing_error)?;
-            (track_info_to_pairs(&info), None, None)
+            let entries = track_info_to_pairs(&info)
+                .into_iter()
+                .map(|(k, v)| (IfdIndex::MAIN, k, v))
+                .collect();
+            (entries, None, None)
         }
     };
     if cli.json {
@@ -200,7 +209,7 @@ fn parse_file<P: AsRef<Path>>(
     } else {
         let has_extra = embedded.is_some() || format_pairs.is_some();
         let key_width = compute_key_width(
-            values.iter().map(|(k, _)| k.as_str()).chain(
+            values.iter().map(|(_, k, _)| k.as_str()).chain(
                 embedded
                     .iter()
                     .flat_map(|t| t.iter().map(|(k, _)| k.as_str())),
@@ -216,7 +225,7 @@ fn parse_file<P: AsRef<Path>>(
             println!("{}", section_header("EXIF"));
             printed_section = true;
         }
-        for (k, v) in &values {
+        for (_, k, v) in &values {
             print_pair(k, &v.to_string(), key_width, cli.full);
         }
         if let Some(track) = &embedded {
@@ -309,15 +318,19 @@ fn compute_key_width<'a, I: Iterator<Item = &'a str>>(keys: I) -> usize {
         .unwrap_or(MIN_KEY_WIDTH)
 }
 
-fn exif_iter_to_pairs(iter: ExifIter, with_thumbnail: bool) -> Vec<(String, nom_exif::EntryValue)> {
+type ExifEntry = (IfdIndex, String, EntryValue);
+
+fn exif_iter_to_entries(iter: ExifIter, with_thumbnail: bool) -> Vec<ExifEntry> {
     iter.into_iter()
         .filter_map(|x| {
-            if !with_thumbnail && x.ifd() == nom_exif::IfdIndex::THUMBNAIL {
+            let ifd = x.ifd();
+            if !with_thumbnail && ifd == IfdIndex::THUMBNAIL {
                 return None;
             }
             let tag = x.tag();
             match x.into_result() {
                 Ok(v) => Some((
+                    ifd,
                     match tag {
                         nom_exif::TagOrCode::Tag(t) => t.to_string(),
                         nom_exif::TagOrCode::Unknown(c) => format!("Unknown(0x{c:04x})"),
@@ -333,24 +346,34 @@ fn exif_iter_to_pairs(iter: ExifIter, with_thumbnail: bool) -> Vec<(String, nom_
         .collect()
 }
 
-fn track_info_to_pairs(info: &TrackInfo) -> Vec<(String, nom_exif::EntryValue)> {
+fn track_info_to_pairs(info: &TrackInfo) -> Vec<(String, EntryValue)> {
     info.iter()
         .map(|(tag, val)| (tag.to_string(), val.clone()))
         .collect()
 }
 
 fn emit_json(
-    values: &[(String, nom_exif::EntryValue)],
-    embedded: Option<&[(String, nom_exif::EntryValue)]>,
+    values: &[ExifEntry],
+    embedded: Option<&[(String, EntryValue)]>,
     format_pairs: Option<&[(String, String)]>,
 ) {
     use serde_json::{Map, Value};
     let mut root = Map::with_capacity(values.len() + 1);
-    for (k, v) in values {
-        if let Ok(json) = serde_json::to_value(v) {
-            root.insert(k.clone(), json);
-        }
+    // The same tags recur in further directories: keep those apart, so that
+    // they don't replace the main image's.
+    let mut others: BTreeMap<String, Map<String, Value>> = BTreeMap::new();
+    for (ifd, k, v) in values {
+        let Ok(json) = serde_json::to_value(v) else {
+            continue;
+        };
+        let map = match *ifd {
+            IfdIndex::MAIN => &mut root,
+            IfdIndex::THUMBNAIL => others.entry("_thumbnail".into()).or_default(),
+            n => others.entry(format!("_ifd{}", n.as_usize())).or_default(),
+        };
+        map.insert(k.clone(), json);
     }
+    root.extend(others.into_iter().map(|(k, m)| (k, Value::Object(m))));
     if let Some(track) = embedded {
         let mut nested = Map::with_capacity(track.len());
         for (k, v) in track {
@@ -363,7 +386,15 @@ fn emit_json(
     if let Some(fmt) = format_pairs {
         let mut nested = Map::with_capacity(fmt.len());
         for (k, v) in fmt {
-            nested.insert(k.clone(), Value::String(v.clone()));
+            let v = Value::String(v.clone());
+            match nested.get_mut(k) {
+                None => {
+                    nested.insert(k.clone(), v);
+                }
+                // A keyword may occur several times.
+                Some(Value::Array(all)) => all.push(v),
+                Some(first) => *first = Value::Array(vec![first.take(), v]),
+            }
         }
         root.insert("_format".into(), Value::Object(nested));
     }
-- 
2.43.0


From 2820c74583569b58419319472bf3a3363430f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 42/63] fix: keep the sign of one-byte QuickTime metadata

---
 src/bbox/ilst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index f22496c..f26cc6c 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -109,7 +109,7 @@ fn parse_value(type_code: u32, data: &[u8]) -> crate::Result<EntryValue> {
             Text(s)
         }
         21 => match data.len() {
-            1 => data[0].into(),
+            1 => (data[0] as i8).into(),
             2 => be_i16(data)
                 .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?
                 .1
-- 
2.43.0


From 40d9cc2945c1912e3b9a9df6660f6e7e6b7ba67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 43/63] fix: look for a motion photo behind large JPEG segments

---
 src/exif.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index e944c12..00e9dc2 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -65,12 +65,13 @@ pub(crate) fn parse_exif_iter<R: Read>(
 /// can sit just past the buffer's edge. Try the scan first; if it
 /// reports `NeedMoreBytes`, pull another small chunk and retry. Cap
 /// the total extra reads at `MAX_EXTRA` so a malformed file can't loop
-/// forever. A failing reader is an error like anywhere else: without the
+/// forever; the cap leaves room for the largest ICC profile (255 segments)
+/// ahead of the XMP. A failing reader is an error like anywhere else: without the
 /// bytes there is no telling whether the signal is present.
 fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> io::Result<bool> {
     use crate::parser::{Buf, BufParser};
     const CHUNK: usize = 8 * 1024;
-    const MAX_EXTRA: usize = 256 * 1024;
+    const MAX_EXTRA: usize = 32 * 1024 * 1024;
     let mut extra = 0;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
@@ -412,7 +413,7 @@ where
     R: AsyncRead + Unpin + Send,
 {
     const CHUNK: usize = 8 * 1024;
-    const MAX_EXTRA: usize = 256 * 1024;
+    const MAX_EXTRA: usize = 32 * 1024 * 1024;
     let mut extra = 0;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
-- 
2.43.0


From 35981c5d328aabaeb8855adefc48f91d84466211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 44/63] fix: don't invent a GPS position without latitude and
 longitude

---
 src/exif/exif_iter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index acd197d..b8004b7 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -1003,6 +1003,13 @@ impl IfdIter {
             });
         }
 
+        // Without a latitude and a longitude there is no position; the default
+        // would be one in the Gulf of Guinea.
+        let (Some(latitude), Some(longitude)) = (latitude, longitude) else {
+            tracing::warn!("GPSInfo without a usable position");
+            return Ok(None);
+        };
+
         let altitude = match (altitude_ref, altitude_value) {
             (Some(0), Some(v)) => Altitude::AboveSeaLevel(v),
             (Some(1), Some(v)) => Altitude::BelowSeaLevel(v),
@@ -1016,9 +1023,9 @@ impl IfdIter {
 
         Ok(Some(GPSInfo {
             latitude_ref: latitude_ref.unwrap_or(LatRef::North),
-            latitude: latitude.unwrap_or_default(),
+            latitude,
             longitude_ref: longitude_ref.unwrap_or(LonRef::East),
-            longitude: longitude.unwrap_or_default(),
+            longitude,
             altitude,
             speed,
         }))
-- 
2.43.0


From 1cd70e0375b8ffaaeba7a06f8afe28e62f82e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 45/63] fix: read the language and size of MP4 user data texts

---
 src/mov.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index c724eb9..4d82f81 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -115,8 +115,15 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
         tracing::warn!("moov/udta/©xyz body is too small");
         None
     } else {
-        // The first 4 bytes is zero, skip them
-        let location = data[4..] // Safe-slice
+        // The first 4 bytes are the size and the language of the text. Other
+        // texts (the same in another language) may follow it. If the size
+        // makes no sense, take all there is.
+        let size = u16::from_be_bytes([data[0], data[1]]) as usize; // Safe-slice
+        let text = &data[4..]; // Safe-slice
+        let location = text
+            .get(..size)
+            .filter(|text| !text.is_empty())
+            .unwrap_or(text)
             .iter()
             .map(|b| *b as char)
             .collect::<String>();
@@ -127,6 +134,17 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
 const ISO_639_2_UND: [u8; 2] = [0x55, 0xc4];
 
 fn parse_udta_auth(data: &[u8]) -> Option<String> {
+    // Version & flags, then the language: three 5-bit letters. See 3GPP TS 26.244.
+    if let [0, 0, 0, 0, a, b, text @ ..] = data {
+        let lang = u16::from_be_bytes([*a, *b]);
+        if [lang >> 10, (lang >> 5) & 31, lang & 31]
+            .iter()
+            .all(|letter| (1..=26).contains(letter))
+        {
+            return String::from_utf8(filter_zero(text)).ok();
+        }
+    }
+
     // Skip leading zero bytes
     let data = filter_zero(data);
 
-- 
2.43.0


From 88c3c28697037e652f18de54ceedf72ab8241350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 46/63] fix: skip streamed data in small pieces

Data to be passed over in a stream that cannot seek was read into the
buffer in one go, up to 1 GiB of it, only to be thrown away; a 600 MiB
mdat cost 600 MiB of memory. Read it in small pieces instead.
---
 src/parser.rs       |  5 +++--
 src/parser_async.rs | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea7eb6a..caaf993 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -606,8 +606,9 @@ pub(crate) trait BufParser: Buf + Debug {
                 if !done {
                     let mut skipped = 0;
                     while skipped < skip_n {
-                        let mut to_skip = skip_n - skipped;
-                        to_skip = min(to_skip, MAX_PARSE_BUF_SIZE);
+                        // Read in small pieces: each is thrown away at once,
+                        // so there is no point in holding much of it.
+                        let to_skip = min(skip_n - skipped, MIN_GROW_SIZE);
                         let n = self.fill_buf(reader, to_skip)?;
                         skipped += n;
                         if skipped <= skip_n {
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 73a5002..1b24415 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -14,10 +14,13 @@ use crate::{
     error::{ParsedError, ParsingErrorState},
     parser::{
         clear_and_skip_decide, parse_loop_step, Buf, LoopAction, ParsingState, SkipPlan,
-        MAX_PARSE_BUF_SIZE, MIN_GROW_SIZE,
+        MIN_GROW_SIZE,
     },
 };
 
+#[cfg(test)]
+use crate::parser::MAX_PARSE_BUF_SIZE;
+
 // Should be enough for parsing header
 const HEADER_PARSE_BUF_SIZE: usize = 128;
 
@@ -252,8 +255,9 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
                 if !done {
                     let mut skipped = 0;
                     while skipped < skip_n {
-                        let mut to_skip = skip_n - skipped;
-                        to_skip = min(to_skip, MAX_PARSE_BUF_SIZE);
+                        // Read in small pieces: each is thrown away at once,
+                        // so there is no point in holding much of it.
+                        let to_skip = min(skip_n - skipped, MIN_GROW_SIZE);
                         let n = self.fill_buf(reader, to_skip).await?;
                         skipped += n;
                         if skipped <= skip_n {
-- 
2.43.0


From 7e541e97a68f789e9903cb7bdc0c77dc75cdc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 47/63] fix: read in steps that grow with what has been read

Each step may parse the buffer from its start again, so that fixed steps made
the work on a file of many small segments, boxes or elements grow with the
square of its size.
---
 src/exif.rs         |  6 +++---
 src/parser.rs       | 10 +++++++++-
 src/parser_async.rs |  5 +++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 00e9dc2..6459715 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -3,7 +3,7 @@ use crate::error::{
     ParsingErrorState,
 };
 use crate::file::MediaMimeImage;
-use crate::parser::{Buf, BufParser, ParsingState, ShareBuf};
+use crate::parser::{grow_size, Buf, BufParser, ParsingState, ShareBuf};
 use crate::raf::RafInfo;
 use crate::slice::SubsliceRange;
 use crate::{cr3, heif, jpeg, MediaParser};
@@ -81,7 +81,7 @@ fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> io:
                 if extra >= MAX_EXTRA {
                     return Ok(false);
                 }
-                let want = CHUNK.min(MAX_EXTRA - extra);
+                let want = grow_size(parser.buffer().len(), CHUNK).min(MAX_EXTRA - extra);
                 match parser.fill_buf(reader, want) {
                     Ok(_) => {}
                     // The file ends before its segments do.
@@ -423,7 +423,7 @@ where
                 if extra >= MAX_EXTRA {
                     return Ok(false);
                 }
-                let want = CHUNK.min(MAX_EXTRA - extra);
+                let want = grow_size(parser.buffer().len(), CHUNK).min(MAX_EXTRA - extra);
                 match parser.fill_buf(reader, want).await {
                     Ok(_) => {}
                     // The file ends before its segments do.
diff --git a/src/parser.rs b/src/parser.rs
index caaf993..b48dbf7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -451,6 +451,13 @@ pub(crate) fn clear_and_skip_decide(buffer_len: usize, n: usize) -> SkipPlan {
     }
 }
 
+/// How much to read when a buffer that holds `held` bytes does not suffice.
+/// Parsing may start over with every step, so the steps grow with the buffer:
+/// the work would grow with the square of the file's size otherwise.
+pub(crate) fn grow_size(held: usize, floor: usize) -> usize {
+    min(held / 4, MAX_PARSE_BUF_SIZE.saturating_sub(held)).max(floor)
+}
+
 pub(crate) fn check_fill_size(existing_len: usize, requested: usize) -> io::Result<()> {
     if requested.saturating_add(existing_len) > MAX_PARSE_BUF_SIZE {
         tracing::error!(?requested, "the requested buffer size is too big");
@@ -562,7 +569,8 @@ pub(crate) trait BufParser: Buf + Debug {
             match parse_loop_step(self.buffer(), offset, &mut parsing_state, &mut parse) {
                 LoopAction::Done(o) => return Ok(o),
                 LoopAction::NeedFill(needed) => {
-                    let to_read = max(needed, MIN_GROW_SIZE);
+                    let held = self.position() + self.buffer().len();
+                    let to_read = max(needed, grow_size(held, MIN_GROW_SIZE));
                     let n = self.fill_buf(reader, to_read)?;
                     if n == 0 {
                         return Err(ParsedError::NoEnoughBytes);
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 1b24415..431d2f2 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -13,7 +13,7 @@ use tokio::{
 use crate::{
     error::{ParsedError, ParsingErrorState},
     parser::{
-        clear_and_skip_decide, parse_loop_step, Buf, LoopAction, ParsingState, SkipPlan,
+        clear_and_skip_decide, grow_size, parse_loop_step, Buf, LoopAction, ParsingState, SkipPlan,
         MIN_GROW_SIZE,
     },
 };
@@ -210,7 +210,8 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
             match parse_loop_step(self.buffer(), offset, &mut parsing_state, &mut parse) {
                 LoopAction::Done(o) => return Ok(o),
                 LoopAction::NeedFill(needed) => {
-                    let to_read = max(needed, MIN_GROW_SIZE);
+                    let held = self.position() + self.buffer().len();
+                    let to_read = max(needed, grow_size(held, MIN_GROW_SIZE));
                     let n = self.fill_buf(reader, to_read).await?;
                     if n == 0 {
                         return Err(ParsedError::NoEnoughBytes);
-- 
2.43.0


From ef8577425b95506ae1dfffe35430b4598a18f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 48/63] fix: skip fill bytes before a JPEG marker

---
 src/jpeg.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index c47c2d8..b404e3c 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -39,9 +39,7 @@ pub(crate) enum MotionPhotoScan {
 pub(crate) fn scan_motion_photo(input: &[u8]) -> MotionPhotoScan {
     let mut remain = input;
     loop {
-        let parsed: IResult<&[u8], (&[u8], u8)> =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain);
-        let (rem, (_, code)) = match parsed {
+        let (rem, code) = match parse_marker(remain) {
             Ok(t) => t,
             Err(nom::Err::Incomplete(_)) => return MotionPhotoScan::NeedMoreBytes,
             Err(_) => return MotionPhotoScan::NotPresent,
@@ -209,8 +207,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
     let mut remain = input;
 
     let (remain, segment) = loop {
-        let (rem, (_, code)) =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain)?;
+        let (rem, code) = parse_marker(remain)?;
         let (rem, segment) = parse_segment(code, rem)?;
         // Sanity check
         assert!(rem.len() < remain.len());
@@ -271,6 +268,14 @@ pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
     Ok(())
 }
 
+/// A marker: 0xFF and its code. Any number of 0xFF fill bytes may precede the
+/// code (ITU-T T.81, B.1.1.2).
+fn parse_marker(input: &[u8]) -> IResult<&[u8], u8> {
+    let (remain, _) = streaming::tag(&[0xFF_u8][..])(input)?;
+    let (remain, _) = streaming::take_while(|b| b == 0xFF)(remain)?;
+    number::streaming::u8(remain)
+}
+
 fn parse_segment(marker_code: u8, input: &[u8]) -> IResult<&[u8], Segment<'_>> {
     let remain = input;
 
-- 
2.43.0


From 3b8edaf30dc7cef93728d9b1d49af9f6f66a8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 49/63] fix: count the entries of a full directory without
 overflow

---
 src/exif/exif_iter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index b8004b7..6287fb9 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -613,8 +613,8 @@ pub(crate) struct IfdIter {
     pub tz: Option<String>,
     tz_offsets: TzOffsets,
 
-    // Iterating status
-    index: u16,
+    // Iterating status. `index` goes one past `entry_num` when done.
+    index: u32,
     pos: usize,
 }
 
@@ -996,7 +996,7 @@ impl IfdIter {
             return Ok(None);
         }
 
-        if position_entries != 0b11110 && self.index < self.entry_num {
+        if position_entries != 0b11110 && self.index < u32::from(self.entry_num) {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo cut short".into(),
@@ -1113,10 +1113,10 @@ impl Iterator for IfdIter {
             "next IFD entry"
         );
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        if self.index > u32::from(self.entry_num) {
             return None;
         }
-        if self.index == self.entry_num {
+        if self.index == u32::from(self.entry_num) {
             tracing::debug!(
                 self.ifd_idx,
                 self.index,
-- 
2.43.0


From 066e55af2a2a8d96040cffb4751b42ca7df97054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 50/63] fix: a Matroska segment may go without tracks

---
 src/ebml/webm.rs | 64 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index f1dd221..e3dd4b9 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -88,14 +88,15 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
 
     tracing::debug!(doc_type, pos);
 
-    let pos = {
+    let (pos, end) = {
         let mut cursor = Cursor::new(&input[pos..]);
         let header = next_element_header(&mut cursor)?;
         tracing::debug!(segment_header = ?header);
         if header.id != TopElementId::Segment as u64 {
             return Err(ParseWebmFailed::NotWebmFile.into());
         }
-        pos + cursor.position() as usize
+        let pos = pos + cursor.position() as usize;
+        (pos, segment_end(&header, pos))
     };
 
     let mut file_info = EbmlFileInfo {
@@ -130,14 +131,10 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
     if !info_set {
         // According to the specification, The first Info Element SHOULD occur
         // before the first Tracks Element
-        let info: Option<SegmentInfo> = {
-            let mut cursor = Cursor::new(&input[pos..]);
-            let header = travel_while(&mut cursor, |h| h.id != SegmentId::Info as u64)?;
-            parse_segment_info(
-                &input[pos + cursor.position() as usize - header.header_size..],
-                0,
-            )
-        }?;
+        let info = match find_child(input, pos, end, SegmentId::Info)? {
+            Some(at) => parse_segment_info(input, at)?,
+            None => None,
+        };
         tracing::debug!(?info);
         if let Some(info) = info {
             file_info.segment_info = info;
@@ -145,13 +142,10 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
     }
 
     if !tracks_set {
-        let track = {
-            let mut cursor = Cursor::new(&input[pos..]);
-            let header = travel_while(&mut cursor, |h| h.id != SegmentId::Tracks as u64)?;
-            parse_tracks_info(
-                &input[pos + cursor.position() as usize - header.header_size..],
-                0,
-            )?
+        // A Segment may go without Tracks
+        let track = match find_child(input, pos, end, SegmentId::Tracks)? {
+            Some(at) => parse_tracks_info(input, at)?,
+            None => None,
         };
         tracing::debug!(?track);
         file_info.tracks_info = track;
@@ -160,6 +154,42 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
     Ok(file_info)
 }
 
+/// Where the Segment whose data starts at `pos` ends. `None` if its size is
+/// unknown, i.e. all its bits are ones.
+fn segment_end(header: &ElementHeader, pos: usize) -> Option<usize> {
+    // The ID of the Segment takes 4 bytes
+    let size_bits = 7 * header.header_size.saturating_sub(4) as u32;
+    if header.data_size as u64 == (1u64 << size_bits) - 1 {
+        None
+    } else {
+        pos.checked_add(header.data_size)
+    }
+}
+
+/// Find the child `id` of the Segment whose data starts at `pos`. `None` if
+/// the Segment ends without it.
+fn find_child(
+    input: &[u8],
+    pos: usize,
+    end: Option<usize>,
+    id: SegmentId,
+) -> Result<Option<usize>, ParseWebmFailed> {
+    let mut cursor = Cursor::new(input);
+    let mut at = pos;
+    while end != Some(at) {
+        cursor.set_position(at as u64);
+        let header = next_element_header(&mut cursor)?;
+        if header.id == id as u64 {
+            return Ok(Some(at));
+        }
+        if cursor.remaining() < header.data_size {
+            return Err(ParseWebmFailed::Need(header.data_size - cursor.remaining()));
+        }
+        at = cursor.position() as usize + header.data_size;
+    }
+    Ok(None)
+}
+
 #[derive(Debug, Clone, Default)]
 struct TracksInfo {
     width: u32,
-- 
2.43.0


From 62ad34a6fea2178c1f190ac1163e2df153d5c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 51/63] fix: don't trust the seek table of a Matroska file, nor
 stop at a cluster of unknown size

---
 src/ebml/webm.rs | 106 ++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 48 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index e3dd4b9..cc63aa2 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -104,62 +104,35 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         ..Default::default()
     };
 
-    let mut info_set = false;
-    let mut tracks_set = false;
-
-    if let Ok(seeks) = parse_seeks(input, pos) {
-        let info_seek = seeks.get(&(SegmentId::Info as u32)).cloned();
-        let tracks_seek = seeks.get(&(SegmentId::Tracks as u32)).cloned();
-        if let Some(pos) = info_seek {
-            let info = parse_segment_info(input, pos as usize)?;
-            tracing::debug!(?info);
-            if let Some(info) = info {
-                info_set = true;
-                file_info.segment_info = info;
-            }
-        }
-        if let Some(pos) = tracks_seek {
-            let tracks = parse_tracks_info(input, pos as usize)?;
-            tracing::debug!(?tracks);
-            if tracks.is_some() {
-                tracks_set = true;
-                file_info.tracks_info = tracks;
-            }
-        }
-    }
-
-    if !info_set {
-        // According to the specification, The first Info Element SHOULD occur
-        // before the first Tracks Element
-        let info = match find_child(input, pos, end, SegmentId::Info)? {
-            Some(at) => parse_segment_info(input, at)?,
-            None => None,
-        };
+    if let Some(at) = find_child(input, pos, end, SegmentId::Info)? {
+        let info = parse_segment_info(input, at)?;
         tracing::debug!(?info);
         if let Some(info) = info {
             file_info.segment_info = info;
         }
     }
 
-    if !tracks_set {
-        // A Segment may go without Tracks
-        let track = match find_child(input, pos, end, SegmentId::Tracks)? {
-            Some(at) => parse_tracks_info(input, at)?,
-            None => None,
-        };
-        tracing::debug!(?track);
-        file_info.tracks_info = track;
+    // A Segment may go without Tracks
+    if let Some(at) = find_child(input, pos, end, SegmentId::Tracks)? {
+        let tracks = parse_tracks_info(input, at)?;
+        tracing::debug!(?tracks);
+        file_info.tracks_info = tracks;
     }
 
     Ok(file_info)
 }
 
-/// Where the Segment whose data starts at `pos` ends. `None` if its size is
-/// unknown, i.e. all its bits are ones.
+/// Whether the size of the element is unknown, i.e. all its bits are ones.
+fn is_unknown_size(header: &ElementHeader) -> bool {
+    let id_size = (u64::BITS - header.id.leading_zeros()).div_ceil(8) as usize;
+    let size_bits = 7 * header.header_size.saturating_sub(id_size);
+    header.data_size as u64 == (1u64 << size_bits) - 1
+}
+
+/// Where the Segment whose data starts at `pos` ends, if that is known.
 fn segment_end(header: &ElementHeader, pos: usize) -> Option<usize> {
-    // The ID of the Segment takes 4 bytes
-    let size_bits = 7 * header.header_size.saturating_sub(4) as u32;
-    if header.data_size as u64 == (1u64 << size_bits) - 1 {
+    // A size of 0 is what a writer puts there first
+    if header.data_size == 0 || is_unknown_size(header) {
         None
     } else {
         pos.checked_add(header.data_size)
@@ -168,12 +141,44 @@ fn segment_end(header: &ElementHeader, pos: usize) -> Option<usize> {
 
 /// Find the child `id` of the Segment whose data starts at `pos`. `None` if
 /// the Segment ends without it.
+///
+/// The SeekHead may be out of date, so it's only asked for the way when the
+/// children can't be walked any further.
 fn find_child(
     input: &[u8],
     pos: usize,
     end: Option<usize>,
     id: SegmentId,
-) -> Result<Option<usize>, ParseWebmFailed> {
+) -> Result<Option<usize>, ParsingError> {
+    let broken = match walk_to_child(input, pos, end, id) {
+        Ok(at) => return Ok(at),
+        Err(ParseEBMLFailed::Need(n)) => return Err(ParsingError::Need(n)),
+        Err(e) => e.into(),
+    };
+
+    let Some(at) = parse_seeks(input, pos)
+        .ok()
+        .and_then(|seeks| usize::try_from(*seeks.get(&(id as u32))?).ok())
+    else {
+        return Err(broken);
+    };
+    if at >= input.len() {
+        return Err(ParsingError::Need(at - input.len() + 1));
+    }
+    let header = next_element_header(&mut Cursor::new(&input[at..]))?;
+    if header.id == id as u64 {
+        Ok(Some(at))
+    } else {
+        Err(broken)
+    }
+}
+
+fn walk_to_child(
+    input: &[u8],
+    pos: usize,
+    end: Option<usize>,
+    id: SegmentId,
+) -> Result<Option<usize>, ParseEBMLFailed> {
     let mut cursor = Cursor::new(input);
     let mut at = pos;
     while end != Some(at) {
@@ -182,10 +187,15 @@ fn find_child(
         if header.id == id as u64 {
             return Ok(Some(at));
         }
-        if cursor.remaining() < header.data_size {
-            return Err(ParseWebmFailed::Need(header.data_size - cursor.remaining()));
+        at = cursor.position() as usize;
+        // An element of unknown size (a Cluster) ends where an element of its
+        // own level starts: go on with what is in it.
+        if !is_unknown_size(&header) {
+            if cursor.remaining() < header.data_size {
+                return Err(ParseEBMLFailed::Need(header.data_size - cursor.remaining()));
+            }
+            at += header.data_size;
         }
-        at = cursor.position() as usize + header.data_size;
     }
     Ok(None)
 }
-- 
2.43.0


From eaebdbe4a4cb248b4c7cb34557332625303780c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 52/63] fix: what is missing in a complete box won't come

A HEIF file whose iinf or iloc box claims more entries than it holds was
reported as ended early, after reading all of it.
---
 src/bbox.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..8cfa789 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -3,7 +3,7 @@ use std::fmt::Debug;
 use nom::{
     bytes::streaming,
     combinator::{fail, map_res},
-    error::context,
+    error::{context, make_error, ErrorKind},
     number, AsChar, IResult, Needed, Parser,
 };
 
@@ -324,7 +324,11 @@ impl<O, T: ParseBody<O>> ParseBox<O> for T {
         let (remain, data) = streaming::take(box_size).parse(remain)?;
         assert_eq!(input.len(), header.header_size + data.len() + remain.len());
 
-        let (rem, bbox) = Self::parse_body(data, header)?;
+        let (rem, bbox) = Self::parse_body(data, header).map_err(|e| match e {
+            // The body is all there: what's missing in it won't come.
+            nom::Err::Incomplete(_) => nom::Err::Error(make_error(data, ErrorKind::Eof)),
+            e => e,
+        })?;
 
         if !rem.is_empty() {
             // TODO: Body data is not exhausted, should report this error with
-- 
2.43.0


From 21e81a911a390411cb6775a69b849e8f7d145461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 53/63] fix: a broken mvhd box is no empty movie

A movie whose only sources of metadata can't be parsed was reported as a movie
that has no metadata.
---
 src/mov.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index 4d82f81..790422e 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -27,7 +27,14 @@ pub(crate) fn parse_isobmff(moov_body: &[u8]) -> Result<crate::TrackInfo, Parsin
     };
 
     let mut entries: BTreeMap<TrackInfoTag, EntryValue> = convert_video_tags(entries);
-    let mut extras = parse_mvhd_tkhd(moov_body);
+    let (mut extras, broken) = parse_mvhd_tkhd(moov_body);
+    if entries.is_empty() && extras.is_empty() && broken {
+        // Don't pass it off as a file that has nothing to tell
+        return Err(ParsingError::Failed {
+            kind: MalformedKind::IsoBmffBox,
+            message: "invalid mvhd or tkhd box".into(),
+        });
+    }
     if entries.contains_key(&TrackInfoTag::CreateDate) {
         extras.remove(&TrackInfoTag::CreateDate);
     }
@@ -40,8 +47,10 @@ pub(crate) fn parse_isobmff(moov_body: &[u8]) -> Result<crate::TrackInfo, Parsin
     Ok(info)
 }
 
-fn parse_mvhd_tkhd(moov_body: &[u8]) -> BTreeMap<TrackInfoTag, EntryValue> {
+/// Returns what the boxes tell, and whether one of them is broken.
+fn parse_mvhd_tkhd(moov_body: &[u8]) -> (BTreeMap<TrackInfoTag, EntryValue>, bool) {
     let mut entries = BTreeMap::new();
+    let mut broken = false;
     if let Ok((_, Some(bbox))) = find_box(moov_body, "mvhd") {
         if let Ok((_, mvhd)) = MvhdBox::parse_box(bbox.data) {
             entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
@@ -50,15 +59,21 @@ fn parse_mvhd_tkhd(moov_body: &[u8]) -> BTreeMap<TrackInfoTag, EntryValue> {
                 TrackInfoTag::CreateDate,
                 EntryValue::DateTime(mvhd.creation_time()),
             );
+        } else {
+            broken = true;
         }
     }
 
-    if let Ok(Some(tkhd)) = parse_video_tkhd_in_moov(moov_body) {
-        entries.insert(TrackInfoTag::Width, tkhd.width.into());
-        entries.insert(TrackInfoTag::Height, tkhd.height.into());
+    match parse_video_tkhd_in_moov(moov_body) {
+        Ok(Some(tkhd)) => {
+            entries.insert(TrackInfoTag::Width, tkhd.width.into());
+            entries.insert(TrackInfoTag::Height, tkhd.height.into());
+        }
+        Ok(None) => (),
+        Err(_) => broken = true,
     }
 
-    entries
+    (entries, broken)
 }
 
 fn convert_video_tags(entries: Vec<(String, EntryValue)>) -> BTreeMap<TrackInfoTag, EntryValue> {
-- 
2.43.0


From 5a164f8e1eea221ce20151e9c51eb52afe6f0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 54/63] fix: a broken Matroska Info is no empty file

A file whose segment information can't be parsed and which has no video track
was reported as a file that has no metadata.
---
 src/ebml/webm.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index cc63aa2..31d23ea 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -104,11 +104,13 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         ..Default::default()
     };
 
+    let mut broken_info = false;
     if let Some(at) = find_child(input, pos, end, SegmentId::Info)? {
         let info = parse_segment_info(input, at)?;
         tracing::debug!(?info);
-        if let Some(info) = info {
-            file_info.segment_info = info;
+        match info {
+            Some(info) => file_info.segment_info = info,
+            None => broken_info = true,
         }
     }
 
@@ -119,6 +121,14 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         file_info.tracks_info = tracks;
     }
 
+    if broken_info && file_info.tracks_info.is_none() {
+        // Don't pass it off as a file that has nothing to tell
+        return Err(ParsingError::Failed {
+            kind: MalformedKind::EbmlElement,
+            message: "invalid segment info".into(),
+        });
+    }
+
     Ok(file_info)
 }
 
-- 
2.43.0


From d5754ef8d49559a85bfabc5d072adf6b10c00708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 55/63] fix: an Exif block without its first IFD is malformed,
 not ended early

Only of a bare TIFF file is it the file that ends before the IFD.
---
 src/exif.rs           | 8 +++++++-
 src/exif/exif_iter.rs | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 6459715..a107933 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -297,7 +297,13 @@ fn settle_at_eof(
     match out {
         Err(e) if is_eof(&e) => {
             if mime_img == MediaMimeImage::Tiff {
-                Ok(Some((0..parser.buffer().len(), None)))
+                let len = parser.buffer().len();
+                match TiffHeader::parse(parser.buffer()) {
+                    Ok((_, header)) if header.ifd0_offset as usize <= len => {
+                        Ok(Some((0..len, None)))
+                    }
+                    _ => Err(e),
+                }
             } else if metadata_box_may_follow(mime_img, parser.buffer()) {
                 Ok(None)
             } else {
diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 6287fb9..e134ad7 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -113,8 +113,9 @@ pub(crate) fn input_into_iter(
 
     let start = header.ifd0_offset as usize;
     if start > input.len() {
-        return Err(crate::Error::UnexpectedEof {
-            context: "exif iter init",
+        return Err(crate::Error::Malformed {
+            kind: crate::error::MalformedKind::TiffHeader,
+            message: "the first IFD is out of range".into(),
         });
     }
     tracing::debug!(?header, offset = start);
-- 
2.43.0


From 6961da7e2a9ad1cf2c6ab091cb64225d764fea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 56/63] fix: report the pointer to a repeated IFD, and count
 the first IFD as visited

A directory whose 'next' pointer leads back to the first IFD made all entries
appear again as those of a thumbnail; a pointer to a directory visited already
was dropped from the entries.
---
 src/exif/exif_iter.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index e134ad7..2f16456 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -192,13 +192,14 @@ impl ExifIter {
         ifd0: IfdIter,
     ) -> ExifIter {
         let ifds = vec![ifd0.clone()];
+        let visited_offsets = HashSet::from([ifd0.offset]);
         ExifIter {
             input,
             tiff_header,
             tz,
             ifd0,
             ifds,
-            visited_offsets: HashSet::new(),
+            visited_offsets,
             additional_blocks: Vec::new(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
@@ -212,13 +213,14 @@ impl ExifIter {
     pub fn clone_rewound(&self) -> Self {
         let ifd0 = self.ifd0.clone_and_rewind();
         let ifds = vec![ifd0.clone()];
+        let visited_offsets = HashSet::from([ifd0.offset]);
         Self {
             input: self.input.clone(),
             tiff_header: self.tiff_header.clone(),
             tz: self.tz.clone(),
             ifd0,
             ifds,
-            visited_offsets: HashSet::new(),
+            visited_offsets,
             additional_blocks: self.additional_blocks.clone(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
@@ -231,8 +233,8 @@ impl ExifIter {
     pub fn rewind(&mut self) {
         let ifd0 = self.ifd0.clone_and_rewind();
         self.ifds = vec![ifd0.clone()];
+        self.visited_offsets = HashSet::from([ifd0.offset]);
         self.ifd0 = ifd0;
-        self.visited_offsets.clear();
         self.current_block_index = 0;
         self.encountered_tags.clear();
     }
@@ -457,7 +459,7 @@ impl ExifIter {
                 // pointing to the primary block, so that the iterator can be
                 // rewound after this.
                 self.ifds = iter.ifds;
-                self.visited_offsets.clear();
+                self.visited_offsets = iter.visited_offsets;
                 self.current_block_index += 1;
 
                 tracing::debug!(block_index, "Successfully loaded additional TIFF block");
@@ -528,8 +530,18 @@ impl Iterator for ExifIter {
                                     // Ignore repeated ifd parsing to avoid dead looping
                                     if new_ifd.ifd_idx == ifd.ifd_idx {
                                         // A repeated sub-ifd: the current ifd still has
-                                        // entries to be parsed.
+                                        // entries to be parsed, and its pointer is an
+                                        // entry like any other.
+                                        let (ifd_idx, offset) = (new_ifd.ifd_idx, new_ifd.offset);
                                         self.ifds.push(ifd);
+                                        let tc = tag_code.unwrap();
+                                        if self.should_include_tag(ifd_idx, tc.code()) {
+                                            return Some(ExifIterEntry::make_ok(
+                                                ifd_idx,
+                                                tc,
+                                                EntryValue::U32(offset as u32),
+                                            ));
+                                        }
                                     }
                                     continue;
                                 }
-- 
2.43.0


From 7f0a3c2e531c4ba8d05dc9b52715ba6a75223934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 57/63] fix: a CR3 movie box that doesn't add up is malformed

Canon's box was taken for missing when it claims more than its parent holds.
---
 src/bbox/cr3_moov.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bbox/cr3_moov.rs b/src/bbox/cr3_moov.rs
index 2c437e6..f428503 100644
--- a/src/bbox/cr3_moov.rs
+++ b/src/bbox/cr3_moov.rs
@@ -94,11 +94,9 @@ impl Cr3MoovBox {
             let (new_remain, bbox) = match BoxHolder::parse(remain) {
                 Ok(result) => result,
                 Err(e) => {
-                    tracing::warn!(
-                        "Failed to parse box in moov content, continuing with partial data: {:?}",
-                        e
-                    );
-                    break; // Stop parsing but return what we found so far
+                    // It may have been Canon's UUID box
+                    tracing::warn!("Failed to parse box in moov content: {:?}", e);
+                    return fail().parse(remain);
                 }
             };
 
-- 
2.43.0


From a0a57f02951d989314eacd00b420d366f1571a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 58/63] fix: don't wrap a Matroska video size beyond 32 bits

---
 src/ebml/webm.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 31d23ea..ad9f726 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -339,7 +339,11 @@ fn parse_video_track(input: &[u8]) -> Result<Option<VideoTrackInfo>, ParseWebmFa
     let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelWidth as u64)?;
     tracing::debug!(?header, "video track width element");
     if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.width = v as u32;
+        let Ok(v) = v.try_into() else {
+            // no size we could report
+            return Ok(None);
+        };
+        info.width = v;
     }
 
     // search from beginning
@@ -347,7 +351,10 @@ fn parse_video_track(input: &[u8]) -> Result<Option<VideoTrackInfo>, ParseWebmFa
     let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelHeight as u64)?;
     tracing::debug!(?header, "video track height element");
     if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.height = v as u32;
+        let Ok(v) = v.try_into() else {
+            return Ok(None);
+        };
+        info.height = v;
     }
 
     if info == VideoTrackInfo::default() {
-- 
2.43.0


From 4cebf6827e9d5b368374c263a0f7b8ec2af92f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 59/63] fix: let a list of boxes end in a 32-bit zero

QuickTime user data may; all of it was dropped then.
---
 src/bbox.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 8cfa789..e103f58 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -183,7 +183,9 @@ pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
     let mut res = Vec::new();
     let mut remain = input;
     loop {
-        if remain.is_empty() {
+        // A list of user data may end in a 32-bit zero. See
+        // https://developer.apple.com/documentation/quicktime-file-format/user_data_atoms
+        if remain.is_empty() || remain == [0; 4] {
             break;
         }
 
-- 
2.43.0


From 4cc7efd872c18883e8e224336efdfdae670e91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 60/63] fix: read a 3GPP author in UTF-16

---
 src/mov.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mov.rs b/src/mov.rs
index 790422e..a090788 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -156,6 +156,15 @@ fn parse_udta_auth(data: &[u8]) -> Option<String> {
             .iter()
             .all(|letter| (1..=26).contains(letter))
         {
+            // UTF-8, or UTF-16 behind a byte order mark
+            if let [0xfe, 0xff, text @ ..] = text {
+                let units = text.chunks_exact(2);
+                let units: Vec<u16> = units
+                    .map(|x| u16::from_be_bytes([x[0], x[1]]))
+                    .take_while(|x| *x != 0)
+                    .collect();
+                return String::from_utf16(&units).ok();
+            }
             return String::from_utf8(filter_zero(text)).ok();
         }
     }
-- 
2.43.0


From 5e862f1111370baf5b907c09aea80e5911c68235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 61/63] fix: read the metadata of a movie from a full meta box
 too

That is what it is in ISO files.
---
 src/mov.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index a090788..601e2bc 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -268,11 +268,16 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
         return None;
     };
 
-    let (_, Some(keys)) = find_box(meta.body_data(), "keys").ok()? else {
+    // A plain box in QuickTime files, a full box in ISO ones: its version and
+    // flags can't be taken for the size of a box.
+    let body = meta.body_data();
+    let body = body.strip_prefix(&[0; 4]).unwrap_or(body);
+
+    let (_, Some(keys)) = find_box(body, "keys").ok()? else {
         return None;
     };
 
-    let (_, Some(ilst)) = find_box(meta.body_data(), "ilst").ok()? else {
+    let (_, Some(ilst)) = find_box(body, "ilst").ok()? else {
         return None;
     };
 
-- 
2.43.0


From b489f8c5bcb78d34ce05ddd895280317d7240034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 62/63] fix: find the value of an ilst item among its atoms

A name or an id beside it made the item be skipped.
---
 src/bbox/ilst.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index f26cc6c..8f2b0d9 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,5 +1,5 @@
-use nom::bytes::complete::{tag, take};
-use nom::combinator::{fail, map_res};
+use nom::bytes::complete::take;
+use nom::combinator::{fail, map_res, rest};
 use nom::error::context;
 use nom::multi::many0;
 use nom::number::complete::{
@@ -10,7 +10,7 @@ use nom::Parser;
 use crate::error::{nom_err_to_malformed, MalformedKind};
 use crate::EntryValue;
 
-use super::BoxHeader;
+use super::{find_box, BoxHeader};
 
 /// Represents an [item list atom][1].
 ///
@@ -51,8 +51,8 @@ pub struct IlstItem {
 }
 
 impl IlstItem {
-    /// An item we can't interpret (a data type we don't support, a child atom
-    /// other than `data`) is skipped; the items after it are still ours.
+    /// An item we can't interpret (a data type we don't support, no `data`
+    /// atom) is skipped; the items after it are still ours.
     fn parse_or_skip(input: &[u8]) -> nom::IResult<&[u8], Option<IlstItem>> {
         let (_, size) = be_u32(input)?;
         if size < 8 {
@@ -62,23 +62,16 @@ impl IlstItem {
         Ok((remain, IlstItem::parse(item).ok().map(|x| x.1)))
     }
 
-    fn parse<'a>(input: &'a [u8]) -> nom::IResult<&'a [u8], IlstItem> {
-        let (remain, (size, index, data_len, _, type_set, type_code, local)) =
-            (be_u32, be_u32, be_u32, tag("data"), u8, be_u24, be_u32).parse(input)?;
+    fn parse(input: &[u8]) -> nom::IResult<&[u8], IlstItem> {
+        let (remain, (size, index)) = (be_u32, be_u32).parse(input)?;
 
-        if size < 24 || data_len < 16 {
-            context("invalid ilst item", fail::<_, (), _>()).parse(remain)?;
-        }
-
-        // assert_eq!(size - 24, data_len - 16);
-        if size - 24 != data_len - 16 {
-            context("invalid ilst item", fail::<_, (), _>()).parse(remain)?;
-        }
-
-        let (remain, value) = map_res(take(data_len - 16), |bs: &'a [u8]| {
-            parse_value(type_code, bs)
-        })
-        .parse(remain)?;
+        // A name or an id may stand beside the value.
+        let (remain, Some(data)) = find_box(remain, "data")? else {
+            return context("ilst item has no value", fail()).parse(remain);
+        };
+        let data_len = data.box_size() as u32;
+        let (value, (type_set, type_code, local)) = (u8, be_u24, be_u32).parse(data.body_data())?;
+        let (_, value) = map_res(rest, |bs| parse_value(type_code, bs)).parse(value)?;
 
         Ok((
             remain,
-- 
2.43.0


From 9163ac85f9464de463e909baa9877b3bc05aabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 63/63] fix: don't report the duration of a movie that has none

All ones mean that it could not be determined.
---
 src/bbox/mvhd.rs | 9 +++++++++
 src/mov.rs       | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d4d52f1..f3ca4d3 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -43,6 +43,15 @@ pub struct MvhdBox {
 const MAX_CREATION_TIME: u64 = 255_485_145_599;
 
 impl MvhdBox {
+    /// All ones stand for a duration that could not be determined.
+    pub fn has_duration(&self) -> bool {
+        let unknown = match self.header.version {
+            1 => u64::MAX,
+            _ => u32::MAX as u64,
+        };
+        self.duration != unknown
+    }
+
     pub fn duration_ms(&self) -> u64 {
         let ms = (self.duration as u128 * 1000).checked_div(self.time_scale as u128);
         ms.unwrap_or(0).try_into().unwrap_or(u64::MAX)
diff --git a/src/mov.rs b/src/mov.rs
index 601e2bc..c922cce 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -53,7 +53,9 @@ fn parse_mvhd_tkhd(moov_body: &[u8]) -> (BTreeMap<TrackInfoTag, EntryValue>, boo
     let mut broken = false;
     if let Ok((_, Some(bbox))) = find_box(moov_body, "mvhd") {
         if let Ok((_, mvhd)) = MvhdBox::parse_box(bbox.data) {
-            entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
+            if mvhd.has_duration() {
+                entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
+            }
 
             entries.insert(
                 TrackInfoTag::CreateDate,
-- 
2.43.0

