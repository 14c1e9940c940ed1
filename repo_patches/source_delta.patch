From cc81de7d3ac386f0338b507ebc5c7ec983de51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 01/44] fix: report damaged Exif entries instead of dropping
 them

ExifIter silently skipped entries that failed to parse, so neither the
iterator nor Exif::errors() ever showed them, although both are documented
to do so.
---
 src/exif/exif_iter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..d00f798 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -396,6 +396,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -560,8 +568,10 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let tc = tag_code.unwrap();
+                            let res = Some(ExifIterEntry::make_err(ifd.ifd_idx, tc, e));
                             self.ifds.push(ifd);
-                            continue;
+                            return res;
                         }
                     }
                 }
-- 
2.43.0


From 90da013ad96b00c639e4a7a1129627d3380d3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 02/44] fix: keep the primary TIFF block when iterating into
 additional ones

load_next_block overwrote ifd0, so rewinding or cloning an iterator that had
moved on to a later CR3 block started over in that block, and parse_gps
resolved a later block's GPS offset in the primary block's data.
---
 src/exif/exif_iter.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index d00f798..22af905 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -265,7 +265,14 @@ impl ExifIter {
             }
             Err(e) => return Err(e.clone().into()),
         };
-        if offset as usize >= iter.input.len() {
+
+        // The offset is relative to the TIFF block the entry was found in,
+        // which is not necessarily the primary one.
+        let (input, tiff_header, tz) = match iter.ifds.last() {
+            Some(ifd) => (ifd.input.clone(), ifd.header.clone(), ifd.tz.clone()),
+            None => (iter.input, iter.tiff_header, iter.tz),
+        };
+        if offset as usize >= input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -274,10 +281,10 @@ impl ExifIter {
 
         let mut gps_subifd = match IfdIter::try_new(
             gps.ifd().as_usize(),
-            iter.input.clone(),
-            iter.tiff_header,
+            input,
+            tiff_header,
             offset as usize,
-            iter.tz.clone(),
+            tz,
         ) {
             Ok(ifd0) => ifd0.tag_code(ExifTag::GPSInfo.code()),
             Err(e) => return Err(e),
@@ -446,9 +453,9 @@ impl ExifIter {
         // Try to create an ExifIter for this block
         match input_into_iter(block_data, header) {
             Ok(iter) => {
-                // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                // Only replace the iterating status: `self.ifd0` has to stay the
+                // primary block's, as that's where rewind/clone start over.
+                self.ifds = iter.ifds;
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
-- 
2.43.0


From 43d5382605b9ec09651d1d39c2a0f5456c5c95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 03/44] fix: a repeated or too deep sub-IFD only costs its own
 pointer entry

A pointer to an already visited IFD dropped the rest of the directory it was
found in, a pointer back to IFD0 or to offset 0 was not noticed at all, and a
too deep nesting discarded all pending directories.
---
 src/exif/exif_iter.rs | 45 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 22af905..c96a16f 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -505,30 +505,38 @@ impl Iterator for ExifIter {
                 continue;
             }
 
-            if self.ifds.len() > MAX_IFD_DEPTH {
-                let depth = self.ifds.len();
-                self.ifds.clear();
-                tracing::error!(
-                    ifds_depth = depth,
-                    "ifd depth is too deep, just go back to ifd0"
-                );
-                self.ifds.push(self.ifd0.clone_with_state());
-            }
-
             let mut ifd = self.ifds.pop()?;
             let cur_ifd_idx = ifd.ifd_idx;
+            self.visited_offsets.insert(ifd.offset);
             match ifd.next() {
                 Some((tag_code, entry)) => {
                     tracing::debug!(ifd = ifd.ifd_idx, ?tag_code, "next tag entry");
 
                     match entry {
                         IfdEntry::IfdNew(new_ifd) => {
-                            if new_ifd.offset > 0 {
-                                if self.visited_offsets.contains(&new_ifd.offset) {
-                                    // Ignore repeated ifd parsing to avoid dead looping
+                            // Ignore repeated or too deep ifd parsing to avoid dead
+                            // looping
+                            let err = if self.visited_offsets.contains(&new_ifd.offset) {
+                                Some("repeated ifd offset")
+                            } else if self.ifds.len() + 1 >= MAX_IFD_DEPTH {
+                                Some("ifd depth is too deep")
+                            } else {
+                                None
+                            };
+                            if let Some(err) = err {
+                                tracing::warn!(?tag_code, ?new_ifd, err);
+                                let Some(tc) = tag_code else {
+                                    // It's a next ifd, the current ifd has been parsed
                                     continue;
-                                }
-                                self.visited_offsets.insert(new_ifd.offset);
+                                };
+                                // Only the pointer is unusable, the remaining
+                                // entries of the current ifd are still fine.
+                                self.ifds.push(ifd);
+                                return Some(ExifIterEntry::make_err(
+                                    cur_ifd_idx,
+                                    tc,
+                                    EntryError::InvalidValue(err),
+                                ));
                             }
 
                             let is_subifd = if new_ifd.ifd_idx == ifd.ifd_idx {
@@ -958,13 +966,6 @@ impl IfdIter {
             speed,
         })
     }
-
-    fn clone_with_state(&self) -> IfdIter {
-        let mut it = self.clone();
-        it.index = self.index;
-        it.pos = self.pos;
-        it
-    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From be6404780c9c01dd90635d8bc98507248c8e4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 04/44] fix: read the last IFD entry and the next-IFD pointer
 at the end of the data

A next-IFD pointer followed by less than 8 bytes was ignored, and an IFD of
65535 entries overflowed the entry index.
---
 src/exif/exif_iter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index c96a16f..2f550c1 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -615,6 +615,7 @@ pub(crate) struct IfdIter {
     // Iterating status
     index: u16,
     pos: usize,
+    done: bool,
 }
 
 impl Debug for IfdIter {
@@ -635,6 +636,7 @@ impl Debug for IfdIter {
 impl IfdIter {
     pub fn rewind(&mut self) {
         self.index = 0;
+        self.done = false;
         // Skip the first two bytes, which is the entry num
         self.pos = self.offset + 2;
     }
@@ -701,6 +703,7 @@ impl IfdIter {
             // Skip the first two bytes, which is the entry num
             pos: offset + 2,
             index: 0,
+            done: false,
         })
     }
 
@@ -1048,12 +1051,8 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        if self.done {
             return None;
         }
         if self.index == self.entry_num {
@@ -1063,7 +1062,7 @@ impl Iterator for IfdIter {
                 pos = self.pos,
                 "try to get next ifd"
             );
-            self.index += 1;
+            self.done = true;
 
             // next IFD offset
             let (_, offset) =
-- 
2.43.0


From 999dc879d4acf19305c9abb7e68eb198936cf6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 05/44] fix: report a dangling sub-IFD pointer as a damaged
 entry

---
 src/exif/exif_iter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 2f550c1..fc6be06 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -788,9 +788,12 @@ impl IfdIter {
         };
 
         if SUBIFD_TAGS.contains(&tag) {
-            if let Some(value) = self.new_ifd_iter(self.ifd_idx, value_or_offset, Some(tag)) {
-                return (tag, value);
-            }
+            let value = self
+                .new_ifd_iter(self.ifd_idx, value_or_offset, Some(tag))
+                .unwrap_or(IfdEntry::Err(EntryError::InvalidValue(
+                    "invalid sub-ifd offset",
+                )));
+            return (tag, value);
         }
 
         let entry = EntryData {
-- 
2.43.0


From 9b6f01edf23eabc2ca160d8c2f1293297423a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 06/44] fix: offset 0 is never a directory

---
 src/exif/exif_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index fc6be06..0273d32 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -816,7 +816,8 @@ impl IfdIter {
         tag: Option<u16>,
     ) -> Option<IfdEntry> {
         let offset = self.get_data_pos(value_or_offset);
-        if offset < self.input.len() {
+        // There's the TIFF header at 0
+        if offset > 0 && offset < self.input.len() {
             match IfdIter::try_new(
                 ifd_idx,
                 self.input.clone(),
-- 
2.43.0


From f09ec00eb78a6bef34bad122b93313354cb65a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 07/44] fix: load everything a TIFF file refers to before
 iterating

Data beyond the first buffer made streaming sources fail as malformed, the
thumbnail directory was not loaded at all, a directory loop was followed to
the depth limit, and one entry pointing beyond the end of the file made the
whole file unreadable.
---
 src/exif.rs           | 35 ++++++++++++++++-----
 src/exif/exif_exif.rs |  2 --
 src/exif/travel.rs    | 71 +++++++++++++++++++++++++------------------
 3 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..1dfc66b 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -1,13 +1,13 @@
 use crate::error::{
-    nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
+    nom_error_to_parsing_error_with_state, MalformedKind, ParsedError, ParsingError,
+    ParsingErrorState,
 };
 use crate::file::MediaMimeImage;
-use crate::parser::{BufParser, ParsingState, ShareBuf};
+use crate::parser::{Buf, BufParser, ParsingState, ShareBuf};
 use crate::raf::RafInfo;
 use crate::slice::SubsliceRange;
 use crate::{cr3, heif, jpeg, MediaParser};
 pub use exif_exif::Exif;
-use exif_exif::TIFF_HEADER_LEN;
 use exif_iter::input_into_iter;
 pub use exif_iter::{ExifEntry, ExifIter, ExifIterEntry, IfdIndex};
 pub use gps::{GPSInfo, LatLng};
@@ -45,7 +45,8 @@ pub(crate) fn parse_exif_iter<R: Read>(
 
     let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
-    })?;
+    });
+    let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
@@ -256,6 +257,24 @@ fn extract_exif_range(
         .map(|x| (x, header)))
 }
 
+/// Something in a TIFF file refers to data beyond the end of the file. The
+/// whole file has been loaded by then, so leave it to [`ExifIter`] to report
+/// what can't be read, and to deliver the rest.
+fn accept_incomplete_tiff(
+    img: MediaMimeImage,
+    out: Result<Option<(Range<usize>, Option<TiffHeader>)>, ParsedError>,
+    buf: &[u8],
+) -> Result<Option<(Range<usize>, Option<TiffHeader>)>, ParsedError> {
+    match out {
+        Err(ParsedError::IOError(e))
+            if img == MediaMimeImage::Tiff && e.kind() == std::io::ErrorKind::UnexpectedEof =>
+        {
+            Ok(Some((0..buf.len(), None)))
+        }
+        out => out,
+    }
+}
+
 fn range_to_iter(
     parser: &mut impl ShareBuf,
     out: Option<(Range<usize>, Option<TiffHeader>)>,
@@ -294,7 +313,8 @@ where
         .load_and_parse(reader, skip_by_seek, |buf, state| {
             extract_exif_range(mime_img, buf, state)
         })
-        .await?;
+        .await;
+    let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
@@ -355,8 +375,9 @@ pub(crate) fn extract_exif_with_mime(
                         nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, None)
                     })?;
                     if header.ifd0_offset as usize > buf.len() {
-                        let clear_and_skip =
-                            ParsingError::Need(header.ifd0_offset as usize - TIFF_HEADER_LEN + 2);
+                        let clear_and_skip = ParsingError::Need(
+                            (header.ifd0_offset as usize + 2 - buf.len()).min(travel::MAX_NEED),
+                        );
                         let state = Some(ParsingState::TiffHeader(header));
                         return Err(ParsingErrorState::new(clear_and_skip, state));
                     }
diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 00e95de..48bb3fb 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -185,8 +185,6 @@ impl From<ExifIter> for Exif {
     }
 }
 
-pub(crate) const TIFF_HEADER_LEN: usize = 8;
-
 /// TIFF Header
 #[derive(Clone, PartialEq, Eq)]
 pub(crate) struct TiffHeader {
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..fba8390 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -1,10 +1,12 @@
+use std::collections::HashSet;
+
 use nom::{
     number::{streaming, Endianness},
     IResult, Needed, Parser,
 };
 
 use crate::{
-    error::{MalformedKind, ParsingError},
+    error::{nom_error_to_parsing_error_with_state, MalformedKind, ParsingError},
     exif::TiffHeader,
     values::{array_to_string, DataFormat},
     TagOrCode,
@@ -175,35 +177,31 @@ impl<'a> IfdHeaderTravel<'a> {
             });
         }
 
-        if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
+        let mut visited = HashSet::new();
+        let mut pending = vec![self.offset];
+        while let Some(offset) = pending.pop() {
+            // Every ifd only needs to be visited once
+            if !visited.insert(offset) {
+                continue;
+            }
+            self.travel_one(offset, &mut pending)?;
         }
+        Ok(())
+    }
 
-        let (_, entry_num) =
-            TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
-                },
-            )?;
-        let mut pos = self.offset + 2;
-
-        let mut sub_ifds = Vec::new();
+    /// Makes sure everything the ifd at `offset` refers to is in the data, and
+    /// pushes its sub-ifds and next ifd into `pending`.
+    fn travel_one(&self, offset: usize, pending: &mut Vec<usize>) -> Result<(), ParsingError> {
+        let (remain, entry_num) = nom::bytes::streaming::take(offset)(self.data)
+            .and_then(|(ifd_data, _)| TiffHeader::parse_ifd_entry_num(ifd_data, self.endian))
+            .map_err(|e| travel_error(e, MalformedKind::TiffHeader))?;
+        let mut pos = offset + 2;
 
         // parse entries
         for _ in 0..entry_num {
-            if pos >= self.data.len() {
-                break;
-            }
-            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
-                },
-            )?;
+            let (_, sub_ifd) = self
+                .parse_ifd_entry_header(pos as u32)
+                .map_err(|e| travel_error(e, MalformedKind::IfdEntry))?;
             pos += IFD_ENTRY_SIZE;
 
             if let Some(ifd) = sub_ifd {
@@ -211,19 +209,34 @@ impl<'a> IfdHeaderTravel<'a> {
                     data = array_to_string("bytes", self.data),
                     tag = ifd.tag.to_string(),
                 );
-                sub_ifds.push(ifd);
+                pending.push(ifd.offset);
             }
         }
 
-        for mut ifd in sub_ifds {
-            ifd.travel_ifd(depth + 1)?;
+        let (_, (_, next)) = (
+            nom::bytes::streaming::take(entry_num as usize * IFD_ENTRY_SIZE),
+            streaming::u32(self.endian),
+        )
+            .parse(remain)
+            .map_err(|e| travel_error(e, MalformedKind::IfdEntry))?;
+        if next > 0 {
+            pending.push(next as usize);
         }
 
-        // Currently, we ignore ifd1 data in *.tif files
         Ok(())
     }
 }
 
+/// A damaged offset may ask for up to 4 GiB of data, so don't go that far at once.
+pub(crate) const MAX_NEED: usize = 1024 * 1024;
+
+fn travel_error(e: nom::Err<nom::error::Error<&[u8]>>, kind: MalformedKind) -> ParsingError {
+    match nom_error_to_parsing_error_with_state(e, kind, None).err {
+        ParsingError::Need(n) => ParsingError::Need(n.min(MAX_NEED)),
+        e => e,
+    }
+}
+
 // fn keep_incomplete_err_only<T: Debug>(e: nom::Err<T>) -> nom::Err<String> {
 //     match e {
 //         nom::Err::Incomplete(n) => nom::Err::Incomplete(n),
-- 
2.43.0


From d05749f7158b9070e709fc30058cdabb1f7faaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 08/44] fix: a damaged OffsetTimeOriginal must not hide
 OffsetTime

---
 src/exif/exif_iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 0273d32..9d6e58f 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -871,7 +871,10 @@ impl IfdIter {
             if tag.code() == ExifTag::OffsetTimeOriginal.code()
                 || tag.code() == ExifTag::OffsetTimeDigitized.code()
             {
-                return entry.1.as_str().map(|x| x.to_owned());
+                // A damaged entry must not hide the other ones
+                if let Some(x) = entry.1.as_str() {
+                    return Some(x.to_owned());
+                }
             } else if tag.code() == ExifTag::OffsetTime.code() {
                 offset = entry.1.as_str().map(|x| x.to_owned());
             }
-- 
2.43.0


From 01511b583455c5066abd1c7bca49427b38934abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 09/44] fix: keep PNG chunks captured before a skip

With a reader, skipping a chunk that is not in the buffer (any IDAT larger
than the initial buffer) dropped all tEXt chunks and the EXIF found before.
---
 src/exif.rs   |   2 +-
 src/parser.rs |   4 ++
 src/png.rs    | 125 +++++++++++++++++++++++++++++++-------------------
 3 files changed, 84 insertions(+), 47 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 1dfc66b..e9ed407 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -250,7 +250,7 @@ fn extract_exif_range(
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
-        ParsingState::PngPastSignature => None,
+        ParsingState::PngPastSignature | ParsingState::PngResume(_) => None,
     });
     Ok(exif_data
         .and_then(|x| buf.subslice_in_range(x))
diff --git a/src/parser.rs b/src/parser.rs
index 91655da..5a4c81a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     error::{ParsedError, ParsingError, ParsingErrorState},
     exif::TiffHeader,
     file::MediaMime,
+    png::PngProgress,
     ExifIter, TrackInfo,
 };
 
@@ -507,6 +508,8 @@ pub(crate) enum ParsingState {
     /// Carried across `Need` / `ClearAndSkip` retries so the resumed
     /// call doesn't re-check signature against a mid-stream slice.
     PngPastSignature,
+    /// Same as `PngPastSignature`, and there are chunks captured already.
+    PngResume(Box<PngProgress>),
 }
 
 impl Display for ParsingState {
@@ -516,6 +519,7 @@ impl Display for ParsingState {
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
+            ParsingState::PngResume(_) => f.write_str("ParsingState: PngResume"),
         }
     }
 }
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..b394613 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -19,25 +19,68 @@ use crate::parser::ParsingState;
 
 /// Output of [`extract_chunks`]: where the EXIF data lives (if any) and
 /// every `tEXt` (key, value) pair encountered, in file order.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) struct PngParseOut {
     pub exif: Option<PngExifSource>,
     pub text_chunks: Vec<(String, String)>,
 }
 
 /// Where the EXIF data was found in the PNG.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) enum PngExifSource {
     /// PNG 1.5 `eXIf` chunk — TIFF body sits at this byte range inside
     /// the parser buffer. Use this with `bytes::Bytes::slice` for zero-copy.
     EXif(Range<usize>),
 
     /// Legacy hex-encoded TIFF inside `Raw profile type {exif,APP1}` `tEXt`.
-    /// Already hex-decoded + APP1 prefix stripped — owned bytes. Phase 5
-    /// adds the actual decoding logic; until then this variant is unused.
+    /// Already hex-decoded + APP1 prefix stripped — owned bytes. Also holds
+    /// a copy of the `eXIf` data once a `ClearAndSkip` has dropped the buffer
+    /// it was found in.
     Legacy(Vec<u8>),
 }
 
+/// What the chunk walker has found so far, carried across `Need` /
+/// `ClearAndSkip` retries.
+#[derive(Debug, Clone)]
+pub(crate) struct PngProgress {
+    /// Next chunk header in the buffer of the resumed call.
+    cursor: usize,
+    out: PngParseOut,
+    text_total: usize,
+    exif_priority: u8, // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+}
+
+impl PngProgress {
+    fn new(cursor: usize) -> Self {
+        Self {
+            cursor,
+            out: PngParseOut {
+                exif: None,
+                text_chunks: Vec::new(),
+            },
+            text_total: 0,
+            exif_priority: 0,
+        }
+    }
+
+    /// State to resume with after `buf` has grown.
+    fn resume_grown(self) -> Option<ParsingState> {
+        Some(ParsingState::PngResume(Box::new(self)))
+    }
+
+    /// State to resume with after `buf` has been dropped.
+    fn resume_skipped(mut self, buf: &[u8]) -> Option<ParsingState> {
+        if self.exif_priority == 0 && self.out.text_chunks.is_empty() {
+            return Some(ParsingState::PngPastSignature);
+        }
+        if let Some(PngExifSource::EXif(range)) = self.out.exif {
+            self.out.exif = Some(PngExifSource::Legacy(buf[range].to_vec()));
+        }
+        self.cursor = 0;
+        Some(ParsingState::PngResume(Box::new(self)))
+    }
+}
+
 const PNG_SIGNATURE: &[u8; 8] = b"\x89PNG\r\n\x1a\n";
 
 /// Maximum size of a single `tEXt` chunk we'll capture. Above this
@@ -109,12 +152,13 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// from any prior call, returns either output or a `ParsingErrorState`
 /// requesting more bytes / skipping bytes.
 ///
-/// `state` is `None` while `buf` is anchored at byte 0 of the file
-/// (initial call, or after a `Need` which only grows the buffer).
-/// After a `ClearAndSkip` the parser has dropped the buffer and the
-/// resumed `buf` starts at a fresh file offset, so the returned state
-/// flips to `Some(ParsingState::PngPastSignature)` to tell the next
-/// call not to look for the 8-byte signature at `buf[..8]`.
+/// `state` is `None` for the initial call, where `buf` is anchored at byte 0
+/// of the file. A `Need` only grows the buffer, so the walker goes on at the
+/// chunk it could not read completely. After a `ClearAndSkip` the parser has
+/// dropped the buffer and the resumed `buf` starts at a fresh file offset, so
+/// the returned state tells the next call not to look for the 8-byte signature
+/// at `buf[..8]`. What has been captured before is carried in the state
+/// ([`ParsingState::PngResume`]).
 ///
 /// `ClearAndSkip(n)` is interpreted by the parser as "advance the
 /// parser's logical position by `n` bytes from where it is now". The
@@ -129,17 +173,12 @@ pub(crate) fn extract_chunks(
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> Result<PngParseOut, ParsingErrorState> {
-    let past_signature = matches!(state, Some(ParsingState::PngPastSignature));
-    // Preserves the incoming flag across error returns. A `Need` keeps
-    // whatever the caller already had; only `ClearAndSkip` flips a
-    // previously-false flag to true (handled at the skip sites).
-    let preserve = || past_signature.then_some(ParsingState::PngPastSignature);
-    let skipped = || Some(ParsingState::PngPastSignature);
-
-    let mut cursor = if past_signature {
+    let mut progress = if let Some(ParsingState::PngResume(progress)) = state {
+        *progress
+    } else if matches!(state, Some(ParsingState::PngPastSignature)) {
         // Resumed after a ClearAndSkip; buf[0] is a chunk-header
         // boundary, not the PNG signature.
-        0
+        PngProgress::new(0)
     } else {
         if buf.len() < PNG_SIGNATURE.len() {
             return Err(ParsingErrorState::new(
@@ -156,22 +195,16 @@ pub(crate) fn extract_chunks(
                 None,
             ));
         }
-        PNG_SIGNATURE.len()
+        PngProgress::new(PNG_SIGNATURE.len())
     };
 
-    let mut out = PngParseOut {
-        exif: None,
-        text_chunks: Vec::new(),
-    };
-    let mut text_total: usize = 0;
-    let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
-
     loop {
+        let cursor = progress.cursor;
         // Need 8 bytes for the chunk header (length:4 + type:4).
         if buf.len() - cursor < 8 {
             return Err(ParsingErrorState::new(
                 ParsingError::Need(8 - (buf.len() - cursor)),
-                preserve(),
+                progress.resume_grown(),
             ));
         }
         let length = u32::from_be_bytes([
@@ -193,7 +226,7 @@ pub(crate) fn extract_chunks(
                         kind: MalformedKind::PngChunk,
                         message: "PNG: chunk length overflows addressable size".into(),
                     },
-                    preserve(),
+                    None,
                 ));
             }
         };
@@ -205,15 +238,15 @@ pub(crate) fn extract_chunks(
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::Need(total - remaining),
-                        preserve(),
+                        progress.resume_grown(),
                     ));
                 }
                 let data_start = cursor + 8;
                 let data_end = data_start + length as usize;
                 // eXIf has priority 3 (highest), always wins.
-                out.exif = Some(PngExifSource::EXif(data_start..data_end));
-                exif_priority = 3;
-                cursor += total;
+                progress.out.exif = Some(PngExifSource::EXif(data_start..data_end));
+                progress.exif_priority = 3;
+                progress.cursor += total;
             }
             b"tEXt" => {
                 if length > MAX_TEXT_CHUNK_SIZE {
@@ -222,17 +255,17 @@ pub(crate) fn extract_chunks(
                     if total > remaining {
                         return Err(ParsingErrorState::new(
                             ParsingError::ClearAndSkip(cursor + total),
-                            skipped(),
+                            progress.resume_skipped(buf),
                         ));
                     }
-                    cursor += total;
+                    progress.cursor += total;
                     continue;
                 }
                 let remaining = buf.len() - cursor;
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::Need(total - remaining),
-                        preserve(),
+                        progress.resume_grown(),
                     ));
                 }
                 let data = &buf[cursor + 8..cursor + 8 + length as usize];
@@ -247,7 +280,7 @@ pub(crate) fn extract_chunks(
                         "Raw profile type exif" => 1,
                         _ => 0,
                     };
-                    if candidate_priority > 0 && candidate_priority > exif_priority {
+                    if candidate_priority > 0 && candidate_priority > progress.exif_priority {
                         if let Ok(mut bytes) = decode_raw_profile_value(&value) {
                             // Strip APP1's leading "Exif\0\0" if present.
                             if key.ends_with("APP1") && bytes.starts_with(b"Exif\0\0") {
@@ -256,8 +289,8 @@ pub(crate) fn extract_chunks(
                             // Validate as TIFF (must have a valid byte-order marker
                             // + magic number) before accepting.
                             if bytes.len() >= 8 && crate::exif::TiffHeader::parse(&bytes).is_ok() {
-                                out.exif = Some(PngExifSource::Legacy(bytes));
-                                exif_priority = candidate_priority;
+                                progress.out.exif = Some(PngExifSource::Legacy(bytes));
+                                progress.exif_priority = candidate_priority;
                             }
                             // else: silently drop the legacy candidate, keep raw text entry below
                         }
@@ -265,29 +298,29 @@ pub(crate) fn extract_chunks(
                     }
 
                     let entry_size = key.len() + value.len();
-                    if text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
-                        text_total += entry_size;
-                        out.text_chunks.push((key, value));
+                    if progress.text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
+                        progress.text_total += entry_size;
+                        progress.out.text_chunks.push((key, value));
                     }
                     // else: silently skip (already-captured entries kept).
                 }
                 // else: malformed tEXt (no NUL separator) — silently skip.
-                cursor += total;
+                progress.cursor += total;
             }
             _ => {
                 let remaining = buf.len() - cursor;
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::ClearAndSkip(cursor + total),
-                        skipped(),
+                        progress.resume_skipped(buf),
                     ));
                 }
-                cursor += total;
+                progress.cursor += total;
             }
         }
     }
 
-    Ok(out)
+    Ok(progress.out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 040bf3630837f685f840facebfa10da47a4856b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 10/44] fix: an APP1 segment that isn't Exif must not end the
 search for it

A JPEG whose XMP segment comes before the Exif one, or that has no Exif at
all, failed as malformed or as truncated.
---
 src/exif/exif_exif.rs | 4 ++--
 src/jpeg.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 48bb3fb..8b69fec 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -276,8 +276,8 @@ impl TiffHeader {
     }
 }
 
-pub(crate) fn check_exif_header(data: &[u8]) -> Result<bool, nom::Err<nom::error::Error<&[u8]>>> {
-    tag::<_, _, nom::error::Error<_>>(EXIF_IDENT)(data).map(|_| true)
+pub(crate) fn check_exif_header(data: &[u8]) -> bool {
+    data.starts_with(EXIF_IDENT.as_bytes())
 }
 
 pub(crate) fn check_exif_header2(i: &[u8]) -> IResult<&[u8], ()> {
diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..c273fc1 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 54e45144c475b109050f9324592a0e2083b839d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 11/44] fix: accept fill bytes before a JPEG marker

---
 src/jpeg.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index c273fc1..b93f480 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -39,9 +39,7 @@ pub(crate) enum MotionPhotoScan {
 pub(crate) fn scan_motion_photo(input: &[u8]) -> MotionPhotoScan {
     let mut remain = input;
     loop {
-        let parsed: IResult<&[u8], (&[u8], u8)> =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain);
-        let (rem, (_, code)) = match parsed {
+        let (rem, code) = match parse_marker(remain) {
             Ok(t) => t,
             Err(nom::Err::Incomplete(_)) => return MotionPhotoScan::NeedMoreBytes,
             Err(_) => return MotionPhotoScan::NotPresent,
@@ -209,8 +207,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
     let mut remain = input;
 
     let (remain, segment) = loop {
-        let (rem, (_, code)) =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain)?;
+        let (rem, code) = parse_marker(remain)?;
         let (rem, segment) = parse_segment(code, rem)?;
         // Sanity check
         assert!(rem.len() < remain.len());
@@ -268,6 +265,13 @@ pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
     Ok(())
 }
 
+/// Parse a marker, which may be preceded by any number of 0xFF fill bytes.
+fn parse_marker(input: &[u8]) -> IResult<&[u8], u8> {
+    let (remain, _) = streaming::tag(&[0xFF_u8][..])(input)?;
+    let (remain, _) = streaming::take_while(|b| b == 0xFF)(remain)?;
+    number::streaming::u8(remain)
+}
+
 fn parse_segment(marker_code: u8, input: &[u8]) -> IResult<&[u8], Segment<'_>> {
     let remain = input;
 
-- 
2.43.0


From e7be3bf1799dbfe94a400251e2239e6d38c8066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 12/44] fix: find a Motion Photo signal behind any JPEG header,
 and report read errors

The scan gave up after 256 KiB and took any I/O error for the absence of the
signal.
---
 src/exif.rs | 59 +++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index e9ed407..55ef372 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -49,7 +49,7 @@ pub(crate) fn parse_exif_iter<R: Read>(
     let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
-        MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
+        MediaMimeImage::Jpeg => detect_motion_photo(parser, reader)?,
         _ => false,
     };
 
@@ -63,27 +63,25 @@ pub(crate) fn parse_exif_iter<R: Read>(
 /// for JPEGs with a large EXIF (Pixel/Galaxy thumbnails routinely push
 /// it past 30 KB) the XMP segment that carries `GCamera:MotionPhoto`
 /// can sit just past the buffer's edge. Try the scan first; if it
-/// reports `NeedMoreBytes`, pull another small chunk and retry. Cap
-/// the total extra reads at `MAX_EXTRA` so a malformed file can't loop
-/// forever.
-fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> bool {
+/// reports `NeedMoreBytes`, pull another chunk and retry, until the
+/// start of scan or the end of the file has been reached.
+fn detect_motion_photo<R: Read>(
+    parser: &mut MediaParser,
+    reader: &mut R,
+) -> Result<bool, crate::Error> {
     use crate::parser::{Buf, BufParser};
-    const CHUNK: usize = 8 * 1024;
-    const MAX_EXTRA: usize = 256 * 1024;
-    let mut extra = 0;
+    let mut want = 8 * 1024;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
-            jpeg::MotionPhotoScan::Found(_) => return true,
-            jpeg::MotionPhotoScan::NotPresent => return false,
+            jpeg::MotionPhotoScan::Found(_) => return Ok(true),
+            jpeg::MotionPhotoScan::NotPresent => return Ok(false),
             jpeg::MotionPhotoScan::NeedMoreBytes => {
-                if extra >= MAX_EXTRA {
-                    return false;
-                }
-                let want = CHUNK.min(MAX_EXTRA - extra);
-                if parser.fill_buf(reader, want).is_err() {
-                    return false;
+                match parser.fill_buf(reader, want) {
+                    Ok(_) => {}
+                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(false),
+                    Err(e) => return Err(e.into()),
                 }
-                extra += want;
+                want *= 2;
             }
         }
     }
@@ -317,7 +315,7 @@ where
     let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
-        MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
+        MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await?,
         _ => false,
     };
 
@@ -326,27 +324,26 @@ where
 
 /// Async twin of [`detect_motion_photo`].
 #[cfg(feature = "tokio")]
-async fn detect_motion_photo_async<P, R>(parser: &mut P, reader: &mut R) -> bool
+async fn detect_motion_photo_async<P, R>(
+    parser: &mut P,
+    reader: &mut R,
+) -> Result<bool, crate::Error>
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::Buf,
     R: AsyncRead + Unpin + Send,
 {
-    const CHUNK: usize = 8 * 1024;
-    const MAX_EXTRA: usize = 256 * 1024;
-    let mut extra = 0;
+    let mut want = 8 * 1024;
     loop {
         match jpeg::scan_motion_photo(parser.buffer()) {
-            jpeg::MotionPhotoScan::Found(_) => return true,
-            jpeg::MotionPhotoScan::NotPresent => return false,
+            jpeg::MotionPhotoScan::Found(_) => return Ok(true),
+            jpeg::MotionPhotoScan::NotPresent => return Ok(false),
             jpeg::MotionPhotoScan::NeedMoreBytes => {
-                if extra >= MAX_EXTRA {
-                    return false;
-                }
-                let want = CHUNK.min(MAX_EXTRA - extra);
-                if parser.fill_buf(reader, want).await.is_err() {
-                    return false;
+                match parser.fill_buf(reader, want).await {
+                    Ok(_) => {}
+                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(false),
+                    Err(e) => return Err(e.into()),
                 }
-                extra += want;
+                want *= 2;
             }
         }
     }
-- 
2.43.0


From 9ba4e05071c6ce7fabd8fd6c5ffcaf459186540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 13/44] fix: parse the Motion Photo track from memory and
 asynchronous sources too

Only the synchronous streaming path looked for it, the others answered
TrackNotFound for the same file.
---
 src/parser.rs | 91 +++++++++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5a4c81a..e2d00a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -848,6 +848,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return parse_jpeg_motion_photo(self.buffer())
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -863,7 +866,10 @@ impl MediaParser {
                 self.fill_buf(&mut ms.reader, INIT_BUF_SIZE)?;
                 match ms.mime {
                     crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
-                        self.parse_jpeg_motion_photo(&mut ms.reader)
+                        // Drain the rest of the JPEG into the parse buffer so we
+                        // can address the trailing MP4 by its byte offset from EOF.
+                        ms.reader.read_to_end(self.buf_mut())?;
+                        parse_jpeg_motion_photo(self.buffer())
                     }
                     crate::file::MediaMime::Image(_) => Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(mime_track) => {
@@ -880,43 +886,6 @@ impl MediaParser {
         res
     }
 
-    /// Read a JPEG to EOF, locate a Pixel-style Motion Photo MP4 trailer,
-    /// and parse it as track metadata. Returns
-    /// [`crate::Error::TrackNotFound`] if no Motion Photo signal is
-    /// present in the JPEG's XMP.
-    fn parse_jpeg_motion_photo<R: Read>(&mut self, reader: &mut R) -> crate::Result<TrackInfo> {
-        // Drain the rest of the JPEG into the parse buffer so we can
-        // address the trailing MP4 by its byte offset from EOF.
-        reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
-        let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
-            return Err(crate::Error::TrackNotFound);
-        };
-        let trailer_start = (buf.len() as u64)
-            .checked_sub(offset)
-            .ok_or(crate::Error::TrackNotFound)? as usize;
-        let trailer = &buf[trailer_start..];
-
-        // The trailer can be MP4 / MOV / 3gp depending on the source device;
-        // dispatch by sniffing it as a fresh ISO BMFF input.
-        let trailer_mime =
-            crate::file::MediaMime::try_from(trailer).map_err(|_| crate::Error::TrackNotFound)?;
-        let mime_track = match trailer_mime {
-            crate::file::MediaMime::Track(t) => t,
-            crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
-        };
-        crate::video::parse_track_info(trailer, mime_track).map_err(|e| match e {
-            crate::error::ParsingError::Need(_) | crate::error::ParsingError::ClearAndSkip(_) => {
-                crate::Error::UnexpectedEof {
-                    context: "motion-photo trailer",
-                }
-            }
-            crate::error::ParsingError::Failed { kind, message } => {
-                crate::Error::Malformed { kind, message }
-            }
-        })
-    }
-
     /// Parse Exif metadata from an in-memory byte payload built via
     /// the deprecated [`MediaSource::<()>::from_bytes`].
     ///
@@ -1029,6 +998,38 @@ impl MediaParser {
     }
 }
 
+/// Locate a Pixel-style Motion Photo MP4 trailer in a complete JPEG, and
+/// parse it as track metadata. Returns [`crate::Error::TrackNotFound`] if
+/// no Motion Photo signal is present in the JPEG's XMP.
+fn parse_jpeg_motion_photo(buf: &[u8]) -> crate::Result<TrackInfo> {
+    let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
+        return Err(crate::Error::TrackNotFound);
+    };
+    let trailer_start = (buf.len() as u64)
+        .checked_sub(offset)
+        .ok_or(crate::Error::TrackNotFound)? as usize;
+    let trailer = &buf[trailer_start..];
+
+    // The trailer can be MP4 / MOV / 3gp depending on the source device;
+    // dispatch by sniffing it as a fresh ISO BMFF input.
+    let trailer_mime =
+        crate::file::MediaMime::try_from(trailer).map_err(|_| crate::Error::TrackNotFound)?;
+    let mime_track = match trailer_mime {
+        crate::file::MediaMime::Track(t) => t,
+        crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
+    };
+    crate::video::parse_track_info(trailer, mime_track).map_err(|e| match e {
+        crate::error::ParsingError::Need(_) | crate::error::ParsingError::ClearAndSkip(_) => {
+            crate::Error::UnexpectedEof {
+                context: "motion-photo trailer",
+            }
+        }
+        crate::error::ParsingError::Failed { kind, message } => {
+            crate::Error::Malformed { kind, message }
+        }
+    })
+}
+
 #[cfg(feature = "tokio")]
 mod tokio_impl {
     use super::*;
@@ -1194,8 +1195,9 @@ mod tokio_impl {
             res
         }
 
-        /// Parse track info from an async video/audio source. Returns
-        /// `Error::TrackNotFound` if the source is an `Image`.
+        /// Parse track info from an async video/audio source, or from a JPEG
+        /// image that carries an embedded Pixel/Google Motion Photo trailer.
+        /// Returns `Error::TrackNotFound` for any other `Image`.
         ///
         /// As of v3.3, also accepts memory-mode sources built via
         /// [`AsyncMediaSource::from_memory`].
@@ -1206,6 +1208,15 @@ mod tokio_impl {
             self.reset();
             let res: crate::Result<TrackInfo> = async {
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        if let Some(memory) = ms.memory.take() {
+                            return parse_jpeg_motion_photo(&memory);
+                        }
+                        self.acquire_buf();
+                        self.buf_mut().append(&mut ms.buf);
+                        ms.reader.read_to_end(self.buf_mut()).await?;
+                        return parse_jpeg_motion_photo(self.buffer());
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
-- 
2.43.0


From fa3f0b6bbf8d145293f36a36df83c4faef92ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 14/44] fix: deliver all CMT blocks of a CR3 file from
 asynchronous sources too

---
 src/exif.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index 55ef372..bde6041 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -99,7 +99,14 @@ fn parse_cr3_exif_iter<R: Read>(
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
         cr3::extract_all_cmt_ranges(buf)
     })?;
+    cmt_ranges_to_iter(parser, cmt_ranges)
+}
 
+/// Creates an [`ExifIter`] of all the CMT blocks in the parser's buffer.
+fn cmt_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: Option<cr3::Cr3CmtRanges>,
+) -> Result<ExifIter, crate::Error> {
     let Some(cmt_ranges) = cmt_ranges else {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -306,6 +313,14 @@ where
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
+    if mime_img == MediaMimeImage::Cr3 {
+        let cmt_ranges = parser
+            .load_and_parse(reader, skip_by_seek, |buf, _state| {
+                cr3::extract_all_cmt_ranges(buf)
+            })
+            .await?;
+        return cmt_ranges_to_iter(parser, cmt_ranges);
+    }
 
     let out = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-- 
2.43.0


From 9096bba36a3aef3f2d11232b5a3adb96ac7f9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 15/44] fix: don't overflow on a damaged item location

---
 src/bbox/iloc.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..48d109f 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -118,11 +118,10 @@ impl IlocBox {
     pub fn item_offset_len(&self, id: u32) -> Option<(ConstructionMethod, u64, u64)> {
         self.items.get(&id).and_then(|item| {
             let extent = item.extents.first()?;
-            Some((
-                item.construction_method,
-                item.base_offset + extent.offset,
-                extent.length,
-            ))
+            let offset = item.base_offset.checked_add(extent.offset)?;
+            // The end has to be a valid offset too
+            offset.checked_add(extent.length)?;
+            Some((item.construction_method, offset, extent.length))
         })
     }
 }
-- 
2.43.0


From 1bae4b528711ba1b51cb0e9df7dc8a2de29bd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 16/44] fix: go on with the next box when the buffer ends right
 between two boxes

A HEIF or CR3 file whose meta/moov box starts exactly where the data read so
far ends was reported as having no Exif.
---
 src/exif.rs | 74 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index bde6041..bfde25d 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -46,7 +46,7 @@ pub(crate) fn parse_exif_iter<R: Read>(
     let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
     });
-    let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
+    let out = accept_eof(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader)?,
@@ -97,11 +97,36 @@ fn parse_cr3_exif_iter<R: Read>(
 ) -> Result<ExifIter, crate::Error> {
     // First, parse to get all CMT ranges
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
-        cr3::extract_all_cmt_ranges(buf)
-    })?;
+        extract_cmt_ranges(buf)
+    });
+    let cmt_ranges = accept_eof_cr3(cmt_ranges, parser.buffer())?;
     cmt_ranges_to_iter(parser, cmt_ranges)
 }
 
+fn extract_cmt_ranges(buf: &[u8]) -> Result<Option<cr3::Cr3CmtRanges>, ParsingErrorState> {
+    match cr3::extract_all_cmt_ranges(buf)? {
+        // The buffer happens to end between two boxes, go on with the next one
+        None => Err(ParsingErrorState::new(ParsingError::Need(1), None)),
+        ranges => Ok(ranges),
+    }
+}
+
+/// The last box of a CR3 file has been passed without finding a moov box.
+fn accept_eof_cr3(
+    out: Result<Option<cr3::Cr3CmtRanges>, ParsedError>,
+    buf: &[u8],
+) -> Result<Option<cr3::Cr3CmtRanges>, ParsedError> {
+    match out {
+        Err(ParsedError::IOError(e))
+            if e.kind() == std::io::ErrorKind::UnexpectedEof
+                && matches!(cr3::extract_all_cmt_ranges(buf), Ok(None)) =>
+        {
+            Ok(None)
+        }
+        out => out,
+    }
+}
+
 /// Creates an [`ExifIter`] of all the CMT blocks in the parser's buffer.
 fn cmt_ranges_to_iter(
     parser: &mut impl ShareBuf,
@@ -250,7 +275,12 @@ fn extract_exif_range(
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> ExifRangeResult {
+    let first = state.is_none();
     let (exif_data, state) = extract_exif_with_mime(img, buf, state)?;
+    if exif_data.is_none() && first && is_heif(img) && heif_meta_not_found(buf) {
+        // The buffer happens to end between two boxes, go on with the next one
+        return Err(ParsingErrorState::new(ParsingError::Need(1), None));
+    }
     let header = state.and_then(|x| match x {
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
@@ -262,10 +292,26 @@ fn extract_exif_range(
         .map(|x| (x, header)))
 }
 
-/// Something in a TIFF file refers to data beyond the end of the file. The
-/// whole file has been loaded by then, so leave it to [`ExifIter`] to report
-/// what can't be read, and to deliver the rest.
-fn accept_incomplete_tiff(
+fn is_heif(img: MediaMimeImage) -> bool {
+    matches!(
+        img,
+        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif
+    )
+}
+
+fn heif_meta_not_found(buf: &[u8]) -> bool {
+    matches!(heif::parse_meta_box(buf), Ok((_, None)))
+}
+
+/// Decides what reaching the end of the file means while there was still
+/// something to look for:
+///
+/// - Something in a TIFF file refers to data beyond the end of the file. The
+///   whole file has been loaded by then, so leave it to [`ExifIter`] to report
+///   what can't be read, and to deliver the rest.
+///
+/// - The last box of a HEIF file has been passed without finding a meta box.
+fn accept_eof(
     img: MediaMimeImage,
     out: Result<Option<(Range<usize>, Option<TiffHeader>)>, ParsedError>,
     buf: &[u8],
@@ -276,6 +322,13 @@ fn accept_incomplete_tiff(
         {
             Ok(Some((0..buf.len(), None)))
         }
+        Err(ParsedError::IOError(e))
+            if is_heif(img)
+                && e.kind() == std::io::ErrorKind::UnexpectedEof
+                && heif_meta_not_found(buf) =>
+        {
+            Ok(None)
+        }
         out => out,
     }
 }
@@ -316,9 +369,10 @@ where
     if mime_img == MediaMimeImage::Cr3 {
         let cmt_ranges = parser
             .load_and_parse(reader, skip_by_seek, |buf, _state| {
-                cr3::extract_all_cmt_ranges(buf)
+                extract_cmt_ranges(buf)
             })
-            .await?;
+            .await;
+        let cmt_ranges = accept_eof_cr3(cmt_ranges, parser.buffer())?;
         return cmt_ranges_to_iter(parser, cmt_ranges);
     }
 
@@ -327,7 +381,7 @@ where
             extract_exif_range(mime_img, buf, state)
         })
         .await;
-    let out = accept_incomplete_tiff(mime_img, out, parser.buffer())?;
+    let out = accept_eof(mime_img, out, parser.buffer())?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await?,
-- 
2.43.0


From 419eef3ebadad1dc1f633edcd1a082df120d7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 17/44] fix: accept a RAF camera name that fills its whole
 field

---
 src/raf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..3acda4c 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -3,7 +3,7 @@ use nom::{
     number, IResult,
 };
 
-use crate::{jpeg, utils::parse_cstr};
+use crate::jpeg;
 
 const MAGIC: &[u8] = b"FUJIFILMCCD-RAW ";
 
@@ -54,7 +54,9 @@ impl RafInfo<'_> {
         })?;
         let (remain, exif_data) = jpeg::extract_exif_data(remain)?;
 
-        let (_, camera_string) = parse_cstr(camera_string)?;
+        // The string may fill the whole field, without a NUL
+        let camera_string = camera_string.split(|b| *b == 0).next().unwrap_or_default();
+        let camera_string = String::from_utf8_lossy(camera_string).into_owned();
 
         Ok((
             remain,
-- 
2.43.0


From 4facf1c82c0b19ecaae63c66b92b40f2055ad1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 18/44] fix: find the TIFF header of a HEIF Exif item by its
 offset field

Items without the "Exif" identifier (offset 0, as written by several
encoders) were reported as having no Exif.
---
 src/heif.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 5416564..265919d 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -7,7 +7,7 @@ use crate::{
     error::{
         nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
     },
-    exif::check_exif_header2,
+    exif::{check_exif_header2, TiffHeader},
     parser::ParsingState,
 };
 
@@ -60,11 +60,22 @@ pub(crate) fn extract_exif_data(
         }
     };
 
-    let data = data.and_then(|x| check_exif_header2(x).map(|x| x.0).ok());
+    let data = data.and_then(|x| match check_exif_header2(x) {
+        Ok((data, _)) => Some(data),
+        Err(_) => find_tiff_header(x),
+    });
 
     Ok((data, state))
 }
 
+/// An Exif item starts with the offset of the TIFF header in the rest of the
+/// item, which doesn't have to begin with the "Exif" identifier.
+fn find_tiff_header(item: &[u8]) -> Option<&[u8]> {
+    let offset = u32::from_be_bytes(item.get(..4)?.try_into().ok()?);
+    let data = item[4..].get(usize::try_from(offset).ok()?..)?;
+    TiffHeader::parse(data).is_ok().then_some(data)
+}
+
 pub(crate) fn parse_meta_box(input: &[u8]) -> IResult<&[u8], Option<MetaBox>> {
     let remain = input;
     let (remain, bbox) = BoxHolder::parse(remain)?;
-- 
2.43.0


From dcffec590ddc81eea587c202287071ff429c8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 19/44] fix: read version 1 mvhd and tkhd boxes, and leave out
 what they can't tell

---
 src/bbox/mvhd.rs | 59 ++++++++++++++++++++++++++++++++++++++----------
 src/bbox/tkhd.rs | 53 ++++++++++++++++++++-----------------------
 src/mov.rs       | 12 +++++-----
 3 files changed, 77 insertions(+), 47 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..c4ba8e3 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,9 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -15,10 +19,10 @@ pub struct MvhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     /// The number of time units that pass per second in its time coordinate
     /// system.
@@ -29,24 +33,43 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
 
 impl MvhdBox {
+    #[allow(dead_code)]
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        self.checked_duration_ms().unwrap_or_default()
+    }
+
+    /// `None` if there is no time scale to convert the duration with, or if
+    /// the duration doesn't fit.
+    pub fn checked_duration_ms(&self) -> Option<u64> {
+        (self.duration as u128 * 1000)
+            .checked_div(self.time_scale as u128)?
+            .try_into()
+            .ok()
+    }
+
+    fn checked_creation_time_naive(&self) -> Option<NaiveDateTime> {
+        NaiveDate::from_ymd_opt(1904, 1, 1)?
+            .and_hms_opt(0, 0, 0)?
+            .checked_add_signed(Duration::try_seconds(self.creation_time.try_into().ok()?)?)
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-        NaiveDate::from_ymd_opt(1904, 1, 1)
-            .unwrap()
-            .and_hms_opt(0, 0, 0)
-            .unwrap()
-            + Duration::seconds(self.creation_time as i64)
+        self.checked_creation_time_naive().unwrap_or_default()
     }
 
+    /// `None` if the creation time is out of range.
+    pub fn checked_creation_time(&self) -> Option<DateTime<FixedOffset>> {
+        self.checked_creation_time_naive()
+            .map(|t| t.and_utc().fixed_offset())
+    }
+
+    #[allow(dead_code)]
     pub fn creation_time(&self) -> DateTime<FixedOffset> {
         self.creation_time_utc().fixed_offset()
     }
@@ -56,6 +79,7 @@ impl MvhdBox {
         Local.from_utc_datetime(&self.creation_time_naive())
     }
 
+    #[allow(dead_code)]
     pub fn creation_time_utc(&self) -> DateTime<Utc> {
         self.creation_time_naive().and_utc()
     }
@@ -63,8 +87,19 @@ impl MvhdBox {
 
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // Times and duration are 64 bits wide in version 1
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (created, modified, time_scale, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (created.into(), modified.into(), time_scale, duration.into()),
+                )
+            };
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..898fba8 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,31 +41,26 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
-        let (
-            remain,
-            (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
+        // Times and duration are 64 bits wide in version 1
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (created, modified, track_id, reserved, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (
+                        created.into(),
+                        modified.into(),
+                        track_id,
+                        reserved,
+                        duration.into(),
+                    ),
+                )
+            };
+
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +72,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..89676d7 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -44,12 +44,12 @@ fn parse_mvhd_tkhd(moov_body: &[u8]) -> BTreeMap<TrackInfoTag, EntryValue> {
     let mut entries = BTreeMap::new();
     if let Ok((_, Some(bbox))) = find_box(moov_body, "mvhd") {
         if let Ok((_, mvhd)) = MvhdBox::parse_box(bbox.data) {
-            entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
-
-            entries.insert(
-                TrackInfoTag::CreateDate,
-                EntryValue::DateTime(mvhd.creation_time()),
-            );
+            if let Some(ms) = mvhd.checked_duration_ms() {
+                entries.insert(TrackInfoTag::DurationMs, ms.into());
+            }
+            if let Some(t) = mvhd.checked_creation_time() {
+                entries.insert(TrackInfoTag::CreateDate, EntryValue::DateTime(t));
+            }
         }
     }
 
-- 
2.43.0


From db4435f0a87a1ce87787f32fcaf05fc297f84e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 20/44] fix: pair ilst items with the keys they refer to, and
 skip unreadable ones

---
 src/bbox/ilst.rs | 24 ++++++++++++++++++++----
 src/mov.rs       | 12 ++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..f45a244 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::{tag, take};
 use nom::combinator::{fail, map_res};
 use nom::error::context;
-use nom::multi::many0;
 use nom::number::complete::{
     be_f32, be_f64, be_i16, be_i24, be_i32, be_i64, be_u16, be_u24, be_u32, be_u64, u8,
 };
@@ -27,17 +26,34 @@ pub struct IlstBox {
 
 impl IlstBox {
     pub fn parse_box(input: &[u8]) -> nom::IResult<&[u8], IlstBox> {
-        let (remain, header) = BoxHeader::parse(input)?;
-        let (remain, items) = many0(IlstItem::parse).parse(remain)?;
+        let (mut remain, header) = BoxHeader::parse(input)?;
+        let mut items = Vec::new();
+
+        while let Ok((rem, item)) = Self::take_item(remain) {
+            remain = rem;
+            // An item which can't be read only costs itself
+            if let Ok((_, item)) = IlstItem::parse(item) {
+                items.push(item);
+            }
+        }
 
         Ok((remain, IlstBox { header, items }))
     }
+
+    /// Take the whole data of the next item, including its size field.
+    fn take_item(input: &[u8]) -> nom::IResult<&[u8], &[u8]> {
+        let (_, size) = be_u32(input)?;
+        if size < 8 {
+            return context("invalid ilst item", fail()).parse(input);
+        }
+        take(size).parse(input)
+    }
 }
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
+    pub index: u32, // 1-based index (start from 1)
     data_len: u32, // including self size
 
     /// Type indicator, see [type
diff --git a/src/mov.rs b/src/mov.rs
index 89676d7..4cd12c8 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -237,11 +237,15 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    // An item refers to its key by a 1-based index
+    let mut keys: Vec<_> = keys.entries.into_iter().map(|k| Some(k.key)).collect();
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|v| {
+            let key = keys.get_mut((v.index as usize).checked_sub(1)?)?.take()?;
+            Some((key, v.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From 3a8f63976fd0aea563dd623deffaecd91ee5cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 21/44] fix: accept the 32-bit zero terminating a udta box

---
 src/bbox.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..2e640f8 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -183,7 +183,8 @@ pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
     let mut res = Vec::new();
     let mut remain = input;
     loop {
-        if remain.is_empty() {
+        // The list may be terminated by a 32-bit zero
+        if remain.is_empty() || remain == [0; 4] {
             break;
         }
 
-- 
2.43.0


From 7e6ed9c7304ff8762b6210995078b0f6bb7d16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 22/44] fix: read 4 byte EBML floats

---
 src/ebml/element.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..3a51c95 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -250,12 +250,13 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
 
     let n = match size {
         4 => {
-            let buf = [0u8; 4];
+            let mut buf = [0u8; 4];
+            cursor.read_exact(&mut buf).ok()?;
             f32::from_be_bytes(buf) as f64
         }
-        5..=8 => {
+        8 => {
             let mut buf = [0u8; 8];
-            cursor.read_exact(&mut buf[8 - size..]).ok()?;
+            cursor.read_exact(&mut buf).ok()?;
             f64::from_be_bytes(buf)
         }
         _ => return None,
-- 
2.43.0


From 3d885fe6a5955277f13f5efd995e52c87ee631f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 23/44] fix: apply the EBML timestamp scale wherever it is
 stored

---
 src/ebml/webm.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..d496b18 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -340,10 +340,12 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
     let mut info = SegmentInfo::default();
+    let mut duration = None;
 
     while cursor.has_remaining() {
         let header = next_element_header(cursor)?;
         let id = TryInto::<InfoId>::try_into(header.id);
+        let end = cursor.position().saturating_add(header.data_size as u64);
         tracing::debug!(?header, "segment info sub-element");
 
         if let Ok(id) = id {
@@ -355,7 +357,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
+                        duration = Some(v);
                     }
                 }
                 InfoId::Date => {
@@ -371,9 +373,14 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
             }
-        } else {
-            cursor.consume(header.data_size);
         }
+        // An element whose value can't be read only costs itself
+        cursor.set_position(end);
+    }
+
+    // The time scale may come after the duration
+    if let Some(v) = duration {
+        info.duration = v * time_scale as f64;
     }
 
     Ok(info)
-- 
2.43.0


From 4c4285813bfd95d0750b1148594d72b71e7b7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 24/44] fix: take EBML seek positions relative to the segment,
 and check what is there

---
 src/ebml/webm.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index d496b18..9b26a4f 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -171,6 +171,9 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
     let mut cursor = Cursor::new(&input[pos..]);
     let header = next_element_header(&mut cursor)?;
     tracing::debug!(tracks_info_header = ?header);
+    if header.id != SegmentId::Tracks as u64 {
+        return Ok(None);
+    }
 
     if cursor.remaining() < header.data_size {
         return Err(ParseWebmFailed::Need(header.data_size - cursor.remaining()));
@@ -321,6 +324,9 @@ fn parse_segment_info(input: &[u8], pos: usize) -> Result<Option<SegmentInfo>, P
     let mut cursor = Cursor::new(&input[pos..]);
     let header = next_element_header(&mut cursor)?;
     tracing::debug!(segment_info_header = ?header);
+    if header.id != SegmentId::Info as u64 {
+        return Ok(None);
+    }
 
     if cursor.remaining() < header.data_size {
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
@@ -395,11 +401,11 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
     let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
+    // Seek positions are relative to the start of the segment's data
+    for (_, seek_pos) in seeks.iter_mut() {
+        *seek_pos = seek_pos.saturating_add(pos as u64);
     }
     Ok(seeks)
 }
-- 
2.43.0


From 761c4bc85e7063da3d56f8a1dfb3727ca8a2c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 25/44] fix: find the video track behind tracks of other types

---
 src/ebml/webm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 9b26a4f..d2e7125 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -208,6 +208,10 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
                     height: x.height,
                 })
             })?;
+            if track.is_none() {
+                // Not a video track, go on with the next one
+                return Err(nom::Err::Error((Z, ErrorKind::Fail)));
+            }
 
             Ok((Z, track))
         },
-- 
2.43.0


From d8b9012f01a7a7f2c3c19396debfd61e139dedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 26/44] fix: don't invent a duration or a picture size for EBML
 files without one

---
 src/ebml/webm.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index d2e7125..4e3d0e0 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -31,7 +31,7 @@ pub struct EbmlFileInfo {
     #[allow(unused)]
     doc_type: String,
     segment_info: SegmentInfo,
-    tracks_info: TracksInfo,
+    tracks_info: Option<TracksInfo>,
 }
 
 impl From<EbmlFileInfo> for TrackInfo {
@@ -43,12 +43,16 @@ impl From<EbmlFileInfo> for TrackInfo {
                 EntryValue::DateTime(date.fixed_offset()),
             );
         }
-        info.put(
-            TrackInfoTag::DurationMs,
-            ((value.segment_info.duration / 1000.0 / 1000.0) as u64).into(),
-        );
-        info.put(TrackInfoTag::Width, value.tracks_info.width.into());
-        info.put(TrackInfoTag::Height, value.tracks_info.height.into());
+        if let Some(duration) = value.segment_info.duration {
+            let ms = duration / 1000.0 / 1000.0;
+            if ms.is_finite() && ms >= 0.0 {
+                info.put(TrackInfoTag::DurationMs, (ms as u64).into());
+            }
+        }
+        if let Some(tracks_info) = value.tracks_info {
+            info.put(TrackInfoTag::Width, tracks_info.width.into());
+            info.put(TrackInfoTag::Height, tracks_info.height.into());
+        }
         info
     }
 }
@@ -117,7 +121,7 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
             tracing::debug!(?tracks);
             if let Some(info) = tracks {
                 tracks_set = true;
-                file_info.tracks_info = info;
+                file_info.tracks_info = Some(info);
             }
         }
     }
@@ -150,7 +154,7 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         };
         tracing::debug!(?track);
         if let Some(info) = track {
-            file_info.tracks_info = info;
+            file_info.tracks_info = Some(info);
         }
     }
 
@@ -316,7 +320,7 @@ struct VideoTrackInfo {
 #[derive(Debug, Clone, Default)]
 struct SegmentInfo {
     // in nano seconds
-    duration: f64,
+    duration: Option<f64>,
     date: Option<DateTime<Utc>>,
 }
 
@@ -389,9 +393,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     }
 
     // The time scale may come after the duration
-    if let Some(v) = duration {
-        info.duration = v * time_scale as f64;
-    }
+    info.duration = duration.map(|v| v * time_scale as f64);
 
     Ok(info)
 }
-- 
2.43.0


From 0330587fbec71f6029568bf4dbaaa5becf1b2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 27/44] fix: recognise MP4 files by their compatible brands

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From 0d997699abafcb2e2c8b816d32d80e5c595b79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 28/44] fix: skip in small steps when the reader can't seek

---
 src/parser.rs       | 5 ++++-
 src/parser_async.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e2d00a9..e60293b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -283,10 +283,13 @@ impl MediaSource<std::io::Empty> {
 //   gives the excess back to the allocator. Tuned for typical metadata
 //   sizes (HEIC Live Photo / large CR3 / IIQ all fit under 4 MB) so the
 //   recycle path stays warm for batch workloads.
+// - `MAX_SKIP_READ_SIZE` — how much is read at once to skip bytes of a reader
+//   which can't seek. They are dropped, so they needn't be in memory together.
 pub(crate) const INIT_BUF_SIZE: usize = 8 * 1024;
 pub(crate) const MIN_GROW_SIZE: usize = 16 * 1024;
 pub(crate) const MAX_PARSE_BUF_SIZE: usize = 1024 * 1024 * 1024;
 const MAX_REUSE_BUF_SIZE: usize = 4 * 1024 * 1024;
+pub(crate) const MAX_SKIP_READ_SIZE: usize = 256 * 1024;
 
 pub(crate) trait Buf {
     fn buffer(&self) -> &[u8];
@@ -609,7 +612,7 @@ pub(crate) trait BufParser: Buf + Debug {
                     let mut skipped = 0;
                     while skipped < skip_n {
                         let mut to_skip = skip_n - skipped;
-                        to_skip = min(to_skip, MAX_PARSE_BUF_SIZE);
+                        to_skip = min(to_skip, MAX_SKIP_READ_SIZE);
                         let n = self.fill_buf(reader, to_skip)?;
                         skipped += n;
                         if skipped <= skip_n {
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 4f55438..397e098 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -14,9 +14,11 @@ use crate::{
     error::{ParsedError, ParsingErrorState},
     parser::{
         clear_and_skip_decide, parse_loop_step, Buf, LoopAction, ParsingState, SkipPlan,
-        MAX_PARSE_BUF_SIZE, MIN_GROW_SIZE,
+        MAX_SKIP_READ_SIZE, MIN_GROW_SIZE,
     },
 };
+#[cfg(test)]
+use crate::parser::MAX_PARSE_BUF_SIZE;
 
 // Should be enough for parsing header
 const HEADER_PARSE_BUF_SIZE: usize = 128;
@@ -253,7 +255,7 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
                     let mut skipped = 0;
                     while skipped < skip_n {
                         let mut to_skip = skip_n - skipped;
-                        to_skip = min(to_skip, MAX_PARSE_BUF_SIZE);
+                        to_skip = min(to_skip, MAX_SKIP_READ_SIZE);
                         let n = self.fill_buf(reader, to_skip).await?;
                         skipped += n;
                         if skipped <= skip_n {
-- 
2.43.0


From fee89194e71a82473b118a6098ca705bb6e77d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 29/44] fix: load the whole SOI marker of a RAF preview before
 checking it

---
 src/raf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raf.rs b/src/raf.rs
index 3acda4c..00fa2f5 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -49,6 +49,7 @@ impl RafInfo<'_> {
         let (remain, _) = take(skip_n)(remain)?;
 
         // parse as a JPEG
+        let _ = take(2usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0


From ac858d13ea18e14111662af19e6f4e615f2879ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:36 +0000
Subject: [PATCH 30/44] fix: round instead of truncating the altitude of an ISO
 6709 text

---
 src/exif/gps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index d6af139..de602f2 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -337,7 +337,7 @@ impl GPSInfo {
         let altitude = match v.altitude {
             None => Altitude::Unknown,
             Some(x) => {
-                let mag = URational::new((x.abs() * 1000.0).trunc() as u32, 1000);
+                let mag = URational::new((x.abs() * 1000.0).round() as u32, 1000);
                 if x >= 0.0 {
                     Altitude::AboveSeaLevel(mag)
                 } else {
-- 
2.43.0


From 88af73f92cbb37c75e5c91216d8610fad458fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 31/44] fix: accept the Exif header in front of either legacy
 PNG profile

---
 src/png.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/png.rs b/src/png.rs
index b394613..cda7cd3 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -282,8 +282,9 @@ pub(crate) fn extract_chunks(
                     };
                     if candidate_priority > 0 && candidate_priority > progress.exif_priority {
                         if let Ok(mut bytes) = decode_raw_profile_value(&value) {
-                            // Strip APP1's leading "Exif\0\0" if present.
-                            if key.ends_with("APP1") && bytes.starts_with(b"Exif\0\0") {
+                            // Strip the leading "Exif\0\0" if present (writers put it
+                            // in front of either profile).
+                            if bytes.starts_with(b"Exif\0\0") {
                                 bytes.drain(0..6);
                             }
                             // Validate as TIFF (must have a valid byte-order marker
-- 
2.43.0


From 210b094eab0e70feb0aced94fefbf9c2e977e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:19 +0000
Subject: [PATCH 32/44] fix: honour the TIFF header offset of an Exif item
 behind its identifier

---
 src/heif.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 265919d..f108ff3 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -60,9 +60,10 @@ pub(crate) fn extract_exif_data(
         }
     };
 
-    let data = data.and_then(|x| match check_exif_header2(x) {
-        Ok((data, _)) => Some(data),
-        Err(_) => find_tiff_header(x),
+    let data = data.and_then(|x| match find_tiff_header(x) {
+        Some(data) => Some(data),
+        // tolerate a wrong offset in front of the identifier
+        None => check_exif_header2(x).map(|x| x.0).ok(),
     });
 
     Ok((data, state))
-- 
2.43.0


From 5fb96d889b478164790d3d823f72b853248b4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:05 +0000
Subject: [PATCH 33/44] fix: report no duration for a movie whose duration is
 marked as unknown

---
 src/bbox/mvhd.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index c4ba8e3..34c13a3 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -47,6 +47,15 @@ impl MvhdBox {
     /// `None` if there is no time scale to convert the duration with, or if
     /// the duration doesn't fit.
     pub fn checked_duration_ms(&self) -> Option<u64> {
+        // All ones: the duration can't be determined
+        let unknown = if self.header.version == 1 {
+            u64::MAX
+        } else {
+            u32::MAX.into()
+        };
+        if self.duration == unknown {
+            return None;
+        }
         (self.duration as u128 * 1000)
             .checked_div(self.time_scale as u128)?
             .try_into()
-- 
2.43.0


From 00c5b4df33ad68a52c56d6e89c4ec99d2066f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 34/44] fix: drop Matroska dimensions and durations that cannot
 be represented instead of truncating them

---
 src/ebml/webm.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 4e3d0e0..b7a7a01 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -45,7 +45,7 @@ impl From<EbmlFileInfo> for TrackInfo {
         }
         if let Some(duration) = value.segment_info.duration {
             let ms = duration / 1000.0 / 1000.0;
-            if ms.is_finite() && ms >= 0.0 {
+            if ms >= 0.0 && ms < u64::MAX as f64 {
                 info.put(TrackInfoTag::DurationMs, (ms as u64).into());
             }
         }
@@ -292,16 +292,18 @@ fn parse_video_track(input: &[u8]) -> Result<Option<VideoTrackInfo>, ParseWebmFa
 
     let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelWidth as u64)?;
     tracing::debug!(?header, "video track width element");
-    if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.width = v as u32;
+    match get_as_u64(&mut cursor, header.data_size).map(u32::try_from) {
+        Some(Ok(v)) => info.width = v,
+        _ => return Ok(None),
     }
 
     // search from beginning
     cursor.set_position(0);
     let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelHeight as u64)?;
     tracing::debug!(?header, "video track height element");
-    if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.height = v as u32;
+    match get_as_u64(&mut cursor, header.data_size).map(u32::try_from) {
+        Some(Ok(v)) => info.height = v,
+        _ => return Ok(None),
     }
 
     if info == VideoTrackInfo::default() {
-- 
2.43.0


From 6f4faf94c680b6f56f82abfd779122071d1abd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 35/44] fix: check the marker behind SOI, not SOI twice, when
 recognising a JPEG file

---
 src/jpeg.rs | 4 ++--
 src/raf.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index b93f480..97d8e70 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -236,7 +236,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
 
 pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
     // check soi marker [0xff, 0xd8]
-    let (_, (_, code)) = (
+    let (remain, (_, code)) = (
         nom::bytes::complete::tag(&[0xFF_u8][..]),
         number::complete::u8,
     )
@@ -258,7 +258,7 @@ pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
         nom::bytes::complete::tag(&[0xFF_u8][..]),
         number::complete::u8,
     )
-        .parse(input)
+        .parse(remain)
         .map_err(|e| {
             crate::error::nom_err_to_malformed(e, crate::error::MalformedKind::JpegSegment)
         })?;
diff --git a/src/raf.rs b/src/raf.rs
index 00fa2f5..b0b7a87 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -49,7 +49,7 @@ impl RafInfo<'_> {
         let (remain, _) = take(skip_n)(remain)?;
 
         // parse as a JPEG
-        let _ = take(2usize)(remain)?;
+        let _ = take(4usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0


From defdc1c2024308f0c4e8fec9c581476a56c15899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 36/44] fix: report a HEIF file without an Exif item as having
 no EXIF

---
 src/bbox/meta.rs | 7 +++++++
 src/heif.rs      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..4d6d6e5 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -102,6 +102,13 @@ impl MetaBox {
             .unwrap_or(Ok((input, None)))
     }
 
+    #[tracing::instrument(skip_all)]
+    pub fn has_exif_item(&self) -> bool {
+        self.iinf
+            .as_ref()
+            .is_some_and(|iinf| iinf.get_infe("Exif").is_some())
+    }
+
     #[tracing::instrument(skip_all)]
     pub fn exif_data_offset(&self) -> Option<Range<usize>> {
         self.iinf
diff --git a/src/heif.rs b/src/heif.rs
index f108ff3..cd54fd8 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -36,6 +36,8 @@ pub(crate) fn extract_exif_data(
                     } else {
                         (Some(&buf[range]), None)
                     }
+                } else if !meta.has_exif_item() {
+                    (None, None)
                 } else {
                     return Err(ParsingErrorState::new(
                         ParsingError::Failed {
-- 
2.43.0


From 301a752915544f17a7522274cf2dc8fb0097569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 37/44] fix: report damage in the preview of a RAF file as
 damage of a JPEG

---
 src/exif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif.rs b/src/exif.rs
index bfde25d..49c925e 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -477,7 +477,7 @@ pub(crate) fn extract_exif_with_mime(
         MediaMimeImage::Raf => RafInfo::parse(buf)
             .map(|res| (res.1.exif_data, state.clone()))
             .map_err(|e| {
-                nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, state)
+                nom_error_to_parsing_error_with_state(e, MalformedKind::JpegSegment, state)
             })?,
         MediaMimeImage::Cr3 => cr3_extract_exif(state, buf)?,
         MediaMimeImage::Png => {
-- 
2.43.0


From 59cabb8bb45b61867606a482db06e673bee41fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 38/44] fix: a blank or unreadable OffsetTimeOriginal no longer
 hides a readable offset

---
 src/exif/exif_iter.rs | 29 ++++++++++++++++++-----------
 src/values.rs         |  6 ++++++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 9d6e58f..63ad8ce 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -6,7 +6,7 @@ use nom::{number::complete, Parser};
 use crate::{
     error::EntryError,
     slice::SliceChecked,
-    values::{DataFormat, EntryData, IRational, URational},
+    values::{is_tz_str, DataFormat, EntryData, IRational, URational},
     EntryValue, ExifTag,
 };
 
@@ -864,23 +864,30 @@ impl IfdIter {
     pub fn find_tz_offset(&self) -> Option<String> {
         let iter = self.find_exif_iter()?;
         let mut offset = None;
+        let mut unreadable = None;
         for entry in iter {
             let Some(tag) = entry.0 else {
                 continue;
             };
-            if tag.code() == ExifTag::OffsetTimeOriginal.code()
-                || tag.code() == ExifTag::OffsetTimeDigitized.code()
-            {
-                // A damaged entry must not hide the other ones
-                if let Some(x) = entry.1.as_str() {
-                    return Some(x.to_owned());
-                }
-            } else if tag.code() == ExifTag::OffsetTime.code() {
-                offset = entry.1.as_str().map(|x| x.to_owned());
+            let preferred = tag.code() == ExifTag::OffsetTimeOriginal.code()
+                || tag.code() == ExifTag::OffsetTimeDigitized.code();
+            if !preferred && tag.code() != ExifTag::OffsetTime.code() {
+                continue;
+            }
+            // A damaged or blank entry must not hide the other ones
+            let Some(x) = entry.1.as_str() else {
+                continue;
+            };
+            if !is_tz_str(x) {
+                unreadable = Some(x.to_owned());
+            } else if preferred {
+                return Some(x.to_owned());
+            } else {
+                offset = Some(x.to_owned());
             }
         }
 
-        offset
+        offset.or(unreadable)
     }
 
     // Assume the current ifd is GPSInfo subifd.
diff --git a/src/values.rs b/src/values.rs
index a6e2eb5..0dca643 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -495,6 +495,12 @@ fn parse_naive_time(s: String) -> Result<NaiveDateTime, EntryError> {
         .map_err(|_| EntryError::InvalidValue("invalid time format"))
 }
 
+/// Whether `tz` is an offset which date-time values can be combined with.
+pub(crate) fn is_tz_str(tz: &str) -> bool {
+    let s = format!("1970:01:01 00:00:00 {}", repair_tz_str(tz));
+    DateTime::parse_from_str(&s, "%Y:%m:%d %H:%M:%S %z").is_ok()
+}
+
 fn repair_tz_str(tz: &str) -> String {
     if let Some(idx) = tz.find(":") {
         if tz[idx..].len() < 3 {
-- 
2.43.0


From 637e31f88702fdb316b2aa4a81fb5d7c24d11704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 39/44] fix: read the author of a 3GP file under every
 language, not only 'und'

---
 src/mov.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index 4cd12c8..67afc85 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -124,19 +124,26 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
     }
 }
 
-const ISO_639_2_UND: [u8; 2] = [0x55, 0xc4];
+/// Whether the two bytes are a packed ISO-639-2/T language code: a zero bit,
+/// then three letters of 5 bits each, `1` being `a`.
+fn is_packed_language(code: [u8; 2]) -> bool {
+    let code = u16::from_be_bytes(code);
+    code >> 15 == 0
+        && [10, 5, 0]
+            .into_iter()
+            .all(|shift| (1..=26).contains(&(code >> shift & 0x1f)))
+}
 
 fn parse_udta_auth(data: &[u8]) -> Option<String> {
-    // Skip leading zero bytes
-    let data = filter_zero(data);
-
-    // Skip leading language flags.
+    // Skip version & flags and the leading language code.
     // Refer to: https://exiftool.org/forum/index.php?topic=11498.0
-    if data.starts_with(&ISO_639_2_UND) {
-        String::from_utf8(data.into_iter().skip(2).collect()).ok()
-    } else {
-        String::from_utf8(data).ok()
-    }
+    let text = match data {
+        [0, 0, 0, 0, a, b, text @ ..] if is_packed_language([*a, *b]) => text,
+        _ => data,
+    };
+
+    // Skip leading zero bytes
+    String::from_utf8(filter_zero(text)).ok()
 }
 
 /// Parse the byte data of an ISOBMFF file and return the potential body data of
-- 
2.43.0


From 01bb988a7b49719d6164e1df7b96ae4985199558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 40/44] fix: keep the fraction of a second in the text and JSON
 of a date-time without offset

---
 src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/values.rs b/src/values.rs
index 0dca643..d75cb51 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -597,7 +597,7 @@ impl Serialize for EntryValue {
             EntryValue::F64(v) => serializer.serialize_f64(*v),
             EntryValue::DateTime(t) => serializer.serialize_str(&t.to_rfc3339()),
             EntryValue::NaiveDateTime(t) => {
-                serializer.serialize_str(&t.format("%Y-%m-%d %H:%M:%S").to_string())
+                serializer.serialize_str(&t.format("%Y-%m-%d %H:%M:%S%.f").to_string())
             }
             EntryValue::Undefined(bytes) => {
                 let mut hex = String::with_capacity(bytes.len() * 2);
@@ -663,7 +663,7 @@ impl Display for EntryValue {
             EntryValue::U8(v) => Display::fmt(&v, f),
             EntryValue::I8(v) => Display::fmt(&v, f),
             EntryValue::DateTime(v) => Display::fmt(&v.to_rfc3339(), f),
-            EntryValue::NaiveDateTime(v) => Display::fmt(&v.format("%Y-%m-%d %H:%M:%S"), f),
+            EntryValue::NaiveDateTime(v) => Display::fmt(&v.format("%Y-%m-%d %H:%M:%S%.f"), f),
             EntryValue::Undefined(v) => fmt_undefined(v, f),
             EntryValue::URationalArray(v) => {
                 format!("URationalArray[{}]", rationals_to_string::<u32>(v)).fmt(f)
-- 
2.43.0


From 6c40cb9193b7f7034f6228ecc17696c1d9fba61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 41/44] fix: read one-byte signed items of a QuickTime metadata
 list as signed

---
 src/bbox/ilst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index f45a244..ba9d2f2 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -113,7 +113,7 @@ fn parse_value(type_code: u32, data: &[u8]) -> crate::Result<EntryValue> {
             Text(s)
         }
         21 => match data.len() {
-            1 => data[0].into(),
+            1 => (data[0] as i8).into(),
             2 => be_i16(data)
                 .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?
                 .1
-- 
2.43.0


From 1529e0de141c8d62d140bfe8251fb7bfb3fb30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 42/44] fix: recognise files with very many compatible brands

---
 src/file.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c824d04..4ea00cc 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,7 +2,7 @@ use nom::{bytes::complete, FindSubstring};
 use std::io::Cursor;
 
 use crate::{
-    bbox::{travel_header, BoxHolder},
+    bbox::{travel_header, BoxHeader},
     ebml::element::parse_ebml_doc_type,
     error::MalformedKind,
     exif::TiffHeader,
@@ -158,7 +158,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
     }
 
     // Check compatible brands
-    let compatible_brands = ftyp.body_data();
+    let compatible_brands = ftyp;
 
     if QT_BRAND_NAMES
         .iter()
@@ -217,32 +217,38 @@ fn check_png(input: &[u8]) -> Result<(), ()> {
     }
 }
 
-fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(BoxHolder<'_>, Option<&[u8]>)> {
-    let (_, bbox) = BoxHolder::parse(input).map_err(|e| crate::Error::Malformed {
+/// Returns the body of the `ftyp` box and the major brand in it.
+///
+/// `input` is only the beginning of a file: of a `ftyp` box with so many
+/// compatible brands that it reaches beyond, the part at hand is returned.
+fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(&[u8], Option<&[u8]>)> {
+    let (remain, bbox) = BoxHeader::parse(input).map_err(|e| crate::Error::Malformed {
         kind: MalformedKind::IsoBmffBox,
         message: format!("parse ftyp failed: {e}"),
     })?;
 
-    if bbox.box_type() == "ftyp" {
-        if bbox.body_data().len() < 4 {
+    if bbox.box_type == "ftyp" {
+        let body_size = bbox.body_size().min(remain.len() as u64) as usize;
+        let body = &remain[..body_size]; // Safe-slice
+        if body.len() < 4 {
             return Err(crate::Error::Malformed {
                 kind: MalformedKind::IsoBmffBox,
                 message: format!(
                     "parse ftyp failed; body size should greater than 4, got {}",
-                    bbox.body_data().len()
+                    body.len()
                 ),
             });
         }
-        let (_, ftyp) = complete::take(4_usize)(bbox.body_data())
+        let (_, ftyp) = complete::take(4_usize)(body)
             .map_err(|e| crate::error::nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
-        Ok((bbox, Some(ftyp)))
-    } else if bbox.box_type() == "wide" {
+        Ok((body, Some(ftyp)))
+    } else if bbox.box_type == "wide" {
         // MOV files that extracted from HEIC starts with `wide` & `mdat` atoms
-        Ok((bbox, None))
+        Ok((&[], None))
     } else {
         Err(crate::Error::Malformed {
             kind: MalformedKind::IsoBmffBox,
-            message: format!("parse ftyp failed; first box type is: {}", bbox.box_type()),
+            message: format!("parse ftyp failed; first box type is: {}", bbox.box_type),
         })
     }
 }
-- 
2.43.0


From 353357d7b3cc431d52cfec2afa28f6e2f9cb39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 43/44] fix: recognise Matroska files with a long EBML header

---
 src/ebml/element.rs | 12 ++++++++++++
 src/file.rs         |  6 ++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index 3a51c95..f5ba73c 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -127,6 +127,18 @@ pub(crate) fn parse_ebml_doc_type(cursor: &mut Cursor<&[u8]>) -> Result<String,
     }
 }
 
+/// Get the doc type from the beginning of a file, which need not hold the
+/// whole EBML header.
+pub(crate) fn peek_ebml_doc_type(input: &[u8]) -> Result<String, ParseEBMLFailed> {
+    let mut cursor = Cursor::new(input);
+    let header = next_element_header(&mut cursor)?;
+    if header.id != TopElementId::Ebml as u64 {
+        return Err(ParseEBMLFailed::NotEBMLFile);
+    }
+    let size = header.data_size.min(cursor.remaining());
+    parse_ebml_head_data(&cursor.chunk()[..size])
+}
+
 fn parse_ebml_head_data(input: &[u8]) -> Result<String, ParseEBMLFailed> {
     let mut cur = Cursor::new(input);
     while cur.has_remaining() {
diff --git a/src/file.rs b/src/file.rs
index 4ea00cc..9da0135 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,9 +1,8 @@
 use nom::{bytes::complete, FindSubstring};
-use std::io::Cursor;
 
 use crate::{
     bbox::{travel_header, BoxHeader},
-    ebml::element::parse_ebml_doc_type,
+    ebml::element::peek_ebml_doc_type,
     error::MalformedKind,
     exif::TiffHeader,
     jpeg::check_jpeg,
@@ -104,8 +103,7 @@ impl TryFrom<&[u8]> for MediaMime {
 }
 
 fn get_ebml_doc_type(input: &[u8]) -> crate::Result<String> {
-    let mut cursor = Cursor::new(input);
-    let doc = parse_ebml_doc_type(&mut cursor)?;
+    let doc = peek_ebml_doc_type(input)?;
     Ok(doc)
 }
 
-- 
2.43.0


From d0ec7ff0b486480e22401dde1c05650e8ec89be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 44/44] fix: give back the buffer of a large file before a
 parse from memory, too

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e60293b..8160062 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -345,6 +345,12 @@ impl BufferedParserState {
             self.buf.is_none() && self.memory.is_none(),
             "set_memory called on non-clean state"
         );
+        if self.cached.is_some() {
+            // The cache isn't used in this mode, but it mustn't keep the memory
+            // of an earlier large file either: let `acquire_buf` cut it down.
+            self.acquire_buf();
+            self.cached = self.buf.take().map(bytes::Bytes::from);
+        }
         self.memory = Some(bytes);
         self.position = 0;
     }
@@ -1213,7 +1219,8 @@ mod tokio_impl {
                 let mime_track = match ms.mime {
                     crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
                         if let Some(memory) = ms.memory.take() {
-                            return parse_jpeg_motion_photo(&memory);
+                            self.state.set_memory(memory);
+                            return parse_jpeg_motion_photo(self.buffer());
                         }
                         self.acquire_buf();
                         self.buf_mut().append(&mut ms.buf);
-- 
2.43.0

