From acb70d3ad0ba923ec415b226706fc4cac8d52262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 01/23] fix: do not yield a CR that may belong to the CRLF of a
 boundary split across reads

---
 src/server/boundary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..cf6e4f2 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -97,6 +97,12 @@ impl<R> BoundaryReader<R> where R: Read {
             }
         }
 
+        // don't yield a carriage return at the end of the buffer yet, as it could be
+        // the start of the CRLF preceding a boundary which is still to be read
+        if self.state == Searching && self.search_idx == buf.len() && buf.ends_with(b"\r") {
+            self.search_idx -= 1;
+        }
+
         let ret_buf = &buf[..self.search_idx];
 
         trace!("Returning buf: {:?}", String::from_utf8_lossy(ret_buf));
-- 
2.43.0


From 61f7b8173ca027d9087d708747b6c88b6bcc6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 02/23] fix: read the bytes following a boundary when the field
 before it was not consumed

---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index cf6e4f2..6c4ad39 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -137,6 +137,11 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard any unread data before the boundary so that the bytes following the boundary
+        // are read into the buffer as well
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From c0dd7e14b0b8ec2bab4e123fe62341729ec59a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 03/23] fix: make room in the buffer when the minimum buffer
 size is near its capacity

---
 src/server/boundary.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 6c4ad39..0516d7b 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -55,6 +55,7 @@ impl<R> BoundaryReader<R> where R: Read {
     }
 
     fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        self.make_room();
         let buf = self.source.fill_buf()?;
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
@@ -110,6 +111,16 @@ impl<R> BoundaryReader<R> where R: Read {
         Ok(ret_buf)
     }
 
+    /// Ensure there is space in the buffer to read into if it holds less than the minimum.
+    ///
+    /// The policy won't move data down unless at least the minimum buffer size is free, leaving
+    /// no space to read into when the minimum is near the capacity of the buffer.
+    fn make_room(&mut self) {
+        if self.source.buf_len() < self.source.policy_mut().0 {
+            self.source.make_room();
+        }
+    }
+
     pub fn set_min_buf_size(&mut self, min_buf_size: usize) {
         // ensure the minimum buf size is at least enough to find a boundary with some extra
         let min_buf_size = cmp::max(self.boundary.len() * 2, min_buf_size);
@@ -141,6 +152,7 @@ impl<R> BoundaryReader<R> where R: Read {
         // are read into the buffer as well
         let unread = self.search_idx;
         self.consume(unread);
+        self.make_room();
 
         let consume_amt = {
             let buf = self.source.fill_buf()?;
-- 
2.43.0


From 095b4437a10faf3569dc511063fbf7397b90a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 04/23] fix: retry interrupted reads while skipping to a
 boundary or reading field headers

---
 src/server/boundary.rs | 14 ++++++++++++--
 src/server/field.rs    |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 0516d7b..aa0f82d 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -136,7 +136,11 @@ impl<R> BoundaryReader<R> where R: Read {
         while self.state == Searching {
             debug!("Boundary not found yet");
 
-            let buf_len = self.read_to_boundary()?.len();
+            let buf_len = match self.read_to_boundary() {
+                Ok(buf) => buf.len(),
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
 
             if buf_len == 0 && self.state == Searching {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -154,8 +158,14 @@ impl<R> BoundaryReader<R> where R: Read {
         self.consume(unread);
         self.make_room();
 
+        while let Err(e) = self.source.fill_buf() {
+            if e.kind() != io::ErrorKind::Interrupted {
+                return Err(e);
+            }
+        }
+
         let consume_amt = {
-            let buf = self.source.fill_buf()?;
+            let buf = self.source.buffer();
 
             // if the boundary is found we should have at least this much in-buffer
             let mut consume_amt = self.search_idx + self.boundary.len();
diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..29a9f1e 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -64,7 +64,11 @@ where
 
     loop {
         // this should return a larger buffer each time
-        let buf = r.fill_buf()?;
+        let buf = match r.fill_buf() {
+            Ok(buf) => buf,
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        };
 
         // buffer has stopped growing
         if buf.len() == last_len {
-- 
2.43.0


From dea7d42e50bd246b21ca659aff59f6369f913af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 05/23] fix: keep the kind of I/O errors which occur while
 reading field headers

---
 src/server/field.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 29a9f1e..57fbe8d 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -439,8 +439,11 @@ pub trait PrivReadEntry {
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut())
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+        FieldHeaders::read_from(self.source_mut()).map_err(|e| match e {
+            // keep the kind of the original error
+            ParseHeaderError::Io(e) => e,
+            e => io::Error::new(io::ErrorKind::InvalidData, e),
+        })
     }
 
     fn read_to_string(&mut self) -> io::Result<String> {
-- 
2.43.0


From 43b6c869c516413e675aaefc513798c9df6bae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 06/23] fix: accept field headers over 1 KiB regardless of how
 they are split across reads

---
 src/server/field.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 57fbe8d..c762666 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -18,8 +18,12 @@ use super::httparse::{self, Error as HttparseError, Header, Status, EMPTY_HEADER
 
 use self::ReadEntryResult::*;
 
+use super::boundary::MIN_BUF_SIZE;
 use super::save::SaveBuilder;
 
+/// Fields whose headers don't fit in this many bytes are rejected.
+const MAX_HEADERS_SIZE: usize = 8 * 1024;
+
 const EMPTY_STR_HEADER: StrHeader<'static> = StrHeader { name: "", val: "" };
 
 macro_rules! invalid_cont_disp {
@@ -439,7 +443,22 @@ pub trait PrivReadEntry {
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut()).map_err(|e| match e {
+        // the headers have to be in the buffer all at once, but it only grows up to the minimum size
+        let mut min_buf_size = MIN_BUF_SIZE;
+
+        let res = loop {
+            match FieldHeaders::read_from(self.source_mut()) {
+                Err(ParseHeaderError::TooLarge) if min_buf_size < MAX_HEADERS_SIZE => {
+                    min_buf_size *= 2;
+                    self.set_min_buf_size(min_buf_size);
+                }
+                res => break res,
+            }
+        };
+
+        self.set_min_buf_size(MIN_BUF_SIZE);
+
+        res.map_err(|e| match e {
             // keep the kind of the original error
             ParseHeaderError::Io(e) => e,
             e => io::Error::new(io::ErrorKind::InvalidData, e),
-- 
2.43.0


From b733827ddf841d57d380e7e2b0b6317830a47b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 07/23] fix: parse Content-Disposition parameters regardless of
 their order and of delimiters in quoted values

---
 src/server/field.rs | 67 ++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index c762666..e4c346c 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -186,20 +186,17 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match get_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => field_name,
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename = get_param("filename", after_disp_type).map(str::to_owned);
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -360,20 +357,46 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the parameter `name` in `params`, which is a series of `; name=value` or
+/// `; name="value"` where a quoted value may contain any of the delimiters.
+fn get_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
+    loop {
+        params = params.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
+
+        let key_end = try_opt!(params.find(|c| c == '=' || c == ';'));
+        let key = params[..key_end].trim();
+
+        if params[key_end..].starts_with(';') {
+            // parameter without a value
+            params = &params[key_end..];
+            continue;
+        }
+
+        let (val, rest) = split_param_value(params[key_end + 1..].trim_start());
+
+        if key.eq_ignore_ascii_case(name) {
+            return Some(val);
+        }
+
+        params = rest;
+    }
+}
+
+/// Split a parameter value, quoted or not, from the parameters following it.
+fn split_param_value(s: &str) -> (&str, &str) {
+    if s.starts_with('"') {
+        // the closing quote is at the end of the parameter, as clients don't agree on an escape
+        for (idx, _) in s[1..].match_indices('"') {
+            let rest = s[idx + 2..].trim_start();
+
+            if rest.is_empty() || rest.starts_with(';') {
+                return (&s[1..idx + 1], rest);
+            }
+        }
+    }
+
+    let (val, rest) = split_once(s, ';').unwrap_or((s, ""));
+    (trim_quotes(val.trim()), rest)
 }
 
 fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-- 
2.43.0


From a6f58599a6c2866915a0c7748b1e47f0d678df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 08/23] fix: create the permanent directory a whole request is
 saved to

---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..e619ee5 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -271,7 +271,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
     pub fn with_dir<P: Into<PathBuf>>(self, dir: P) -> EntriesSaveResult<M> {
         let dir = dir.into();
 
-        try_start!(create_dir_all(&dir));
+        try_start!(fs::create_dir_all(&dir));
 
         self.with_entries(Entries::new(SaveDir::Perm(dir)))
     }
-- 
2.43.0


From 4bfe17ea6b96cbb84758082745a17a3c0665db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 09/23] fix: only report the count limit when there is another
 field, and hand that field back

---
 src/server/save.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index e619ee5..87a2841 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -306,7 +306,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -319,6 +319,20 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            // the limit is only exceeded if there is another field to save
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -340,14 +354,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From a652fdb623598566795de385c0579d6c59eae314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 10/23] fix: don't loop on invalid UTF-8 when saving text, and
 report it if text is forced

---
 src/server/save.rs | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 87a2841..abe523f 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -458,21 +458,37 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     }
 
     fn save_text(&mut self) -> SaveResult<String, String> {
+        let limit = self.mem_limit();
         let mut string = String::new();
+        // length of the incomplete character left in the buffer by the last call, if any
+        let mut incomplete = 0;
 
         // incrementally validate UTF-8 to do as much work as possible during network activity
-        let res = self.read_mem(|buf| {
-            match str::from_utf8(buf) {
-                Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
-                    } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
-                    }
+        let res = try_read_buf(&mut self.savable, |buf| {
+            let remaining = limit - string.len() as u64;
+            let limited = buf.len() as u64 > remaining;
+            let buf = if limited { &buf[..remaining as usize] } else { buf };
+
+            let (valid, err) = match str::from_utf8(buf) {
+                Ok(s) => (s, None),
+                Err(e) => (str::from_utf8(&buf[..e.valid_up_to()]).unwrap(), Some(e)),
+            };
+
+            string.push_str(valid);
+
+            match err {
+                Some(e) if e.error_len().is_some() => Partial(valid.len(), e.into()),
+                _ if limited => Partial(valid.len(), PartialReason::SizeLimit),
+                Some(e) => if valid.is_empty() && buf.len() == incomplete {
+                    // the buffer has stopped growing so there's nothing to complete the character
+                    Partial(0, e.into())
+                } else {
+                    incomplete = buf.len() - valid.len();
+                    Full(valid.len())
+                },
+                None => Full(valid.len()),
             }
-        }, 0);
+        });
 
         match res {
             Full(_) => Full(string),
@@ -482,11 +498,15 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     }
 
     fn read_mem<Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(&mut self, with_buf: Wb, pre_read: u64) -> SaveResult<u64, u64> {
-        let limit = cmp::min(self.size_limit, self.memory_threshold)
-            .saturating_sub(pre_read);
+        let limit = self.mem_limit().saturating_sub(pre_read);
         try_copy_limited(&mut self.savable, with_buf, limit)
     }
 
+    /// The maximum number of bytes of a field to read into memory.
+    fn mem_limit(&self) -> u64 {
+        cmp::min(self.size_limit, self.memory_threshold)
+    }
+
     fn cmp_size_limit(&self, size: usize) -> bool {
         size as u64 >= self.size_limit
     }
-- 
2.43.0


From 31aedb7049740f86f06ae4d666c131a9b8a50126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 11/23] fix: save a field with a given file name in the OS
 temporary directory

---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index abe523f..61db894 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -373,10 +373,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 84c551e941e71cc8553e2aa2fe3930734a82648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 12/23] fix: apply the size limit of a field exactly, in memory
 and on disk

---
 src/server/save.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 61db894..c973047 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -426,7 +426,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // the data written so far counts towards the limit as well
+        self.write_limited(file, data.size()).map(move |written| data.add_size(written))
     }
 
 
@@ -436,9 +437,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        self.write_limited(dest, 0)
+    }
+
+    fn write_limited<W: Write>(&mut self, mut dest: W, pre_written: u64) -> SaveResult<u64, u64> {
         if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+            let limit = self.size_limit.saturating_sub(pre_written);
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
@@ -996,11 +1002,18 @@ fn create_dir_all(path: &Path) -> io::Result<()> {
 fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(src: R, mut with_buf: Wb, limit: u64) -> SaveResult<u64, u64> {
     let mut copied = 0u64;
     try_read_buf(src, |buf| {
-        let new_copied = copied.saturating_add(buf.len() as u64);
-        if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
+        let remaining = limit - copied;
+
+        if buf.len() as u64 > remaining {
+            return match with_buf(&buf[..remaining as usize]) {
+                Full(last) => Partial(last, PartialReason::SizeLimit),
+                other => other,
+            };
+        }
 
-        with_buf(buf)
+        let res = with_buf(buf);
+        if let Full(new_copied) = res { copied += new_copied as u64; }
+        res
     })
 }
 
-- 
2.43.0


From fdd5d7fc2c60273935b2d9e7cb7d0a39f36ae855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 13/23] fix: keep the file in the result when the save fails
 after creating it

---
 src/server/save.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index c973047..2b31045 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -427,7 +427,12 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         );
 
         // the data written so far counts towards the limit as well
-        self.write_limited(file, data.size()).map(move |written| data.add_size(written))
+        match self.write_limited(file, data.size()) {
+            Full(written) => Full(data.add_size(written)),
+            Partial(written, reason) => Partial(data.add_size(written), reason),
+            // the file was already created, so it has to be part of the result
+            Error(e) => Partial(data, e.into()),
+        }
     }
 
 
-- 
2.43.0


From c51aaffc2e8c286e4d22b87a1e29c01b365162cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 14/23] fix: return an error from into_result_strict for every
 partial result

---
 src/server/save.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 2b31045..96bce60 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -989,7 +989,9 @@ impl<S, P> SaveResult<S, P> where P: Into<S> {
         match self {
             Full(entries) => Ok(entries),
             Partial(_, PartialReason::IoError(e)) | Error(e) => Err(e),
-            Partial(partial, _) => Ok(partial.into()),
+            Partial(_, PartialReason::Utf8Error(e)) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
+            Partial(_, PartialReason::CountLimit) => Err(io::Error::new(io::ErrorKind::Other, "count limit hit")),
+            Partial(_, PartialReason::SizeLimit) => Err(io::Error::new(io::ErrorKind::Other, "size limit hit")),
         }
     }
 }
-- 
2.43.0


From 44987bdf83618d1ea62366bd3f0d23918ff6690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 15/23] fix: terminate the body of a lazy request without
 fields

---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..86014fa 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // Always written, as the server expects it to terminate an empty request as well
+        boundary.push_str("--");
 
         content_len += boundary.len() as u64;
 
-- 
2.43.0


From d5109cd45f053f97223df8f380c9d79ad73a711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 16/23] fix: don't drop bytes when a stream of a lazy request
 fails or is interrupted

---
 src/client/lazy.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 86014fa..4572f2c 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -340,27 +340,23 @@ impl<'d> Read for PreparedFields<'d> {
             return Ok(0);
         }
 
-        let mut total_read = 0;
-
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
-            total_read += if !cursor_at_end(&self.text_data) {
-                self.text_data.read(buf)?
+        // Return as soon as anything was read, so that an error in a stream
+        // never discards the bytes which were already copied to `buf`.
+        loop {
+            if !cursor_at_end(&self.text_data) {
+                return self.text_data.read(buf);
             } else if let Some(mut field) = self.streams.pop() {
                 match field.read(buf) {
                     Ok(0) => continue,
                     res => {
                         self.streams.push(field);
-                        res
+                        return res;
                     }
-                }?
+                }
             } else {
-                self.end_boundary.read(buf)?
-            };
+                return self.end_boundary.read(buf);
+            }
         }
-
-        Ok(total_read)
     }
 }
 
-- 
2.43.0


From 374b6b016313a6f15cc0128c45399902db7e29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 17/23] fix: count text fields in the content length of a lazy
 request

---
 src/client/lazy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4572f2c..5ad5724 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -308,7 +308,7 @@ impl<'d> PreparedFields<'d> {
         // Always written, as the server expects it to terminate an empty request as well
         boundary.push_str("--");
 
-        content_len += boundary.len() as u64;
+        content_len += text_data.len() as u64 + boundary.len() as u64;
 
         Ok(PreparedFields {
             text_data: Cursor::new(text_data),
-- 
2.43.0


From 2f50f50ccf16d71d72bedaac932ddc6fabb61fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 18/23] fix: don't send a request which refused its headers

---
 src/client/lazy.rs |  4 +++-
 src/client/mod.rs  | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 5ad5724..18fa70f 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,9 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        if !req.apply_headers(prepared.boundary(), prepared.content_len()) {
+            return Err(LazyError::without_field(super::headers_refused()));
+        }
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..1a38b2e 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -215,10 +215,21 @@ fn open_stream<R: HttpRequest>(
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+
+    if !req.apply_headers(&boundary, content_len) {
+        return Err(headers_refused().into());
+    }
+
     req.open_stream().map(|stream| (boundary, stream))
 }
 
+fn headers_refused() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        "failed to apply headers to request",
+    )
+}
+
 struct MultipartWriter<'a, W> {
     inner: W,
     boundary: Cow<'a, str>,
-- 
2.43.0


From 8a69685ec11d941078e44e00578e4b0fcbeb15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 19/23] fix: write the same bytes once to both sides of a
 StdoutTee

---
 src/mock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..f58634c 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -192,8 +192,10 @@ impl<'s, W> StdoutTee<'s, W> {
 
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        // only report as written what was written to both, or it'd be repeated for one of them
+        let written = self.inner.write(buf)?;
+        self.stdout.write_all(&buf[..written])?;
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 77fb951fd648dc35149f077ff48a35186ce5fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 20/23] fix: create the missing parent of the temporary
 directory in the iron middleware

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..13ed4bc 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -10,7 +10,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -128,7 +128,8 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path)
+                        .and_then(|_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path))
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From 5b0e04134b1b769dff5a4971b73cb3cff72bfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 21/23] fix: keep the fields beyond the count limit in the
 lenient mode of the iron middleware

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 13ed4bc..fdd0e43 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -160,8 +160,9 @@ impl Intercept {
     }
 
     fn read_request_lenient(&self, mut multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>> {
+        // the count limit is ignored, the fields beyond it would be dropped otherwise
         let mut entries = match multipart.save().size_limit(self.file_size_limit)
-                                                .count_limit(self.file_count_limit)
+                                                .count_limit(None)
                                                 .with_temp_dir(tempdir) {
             Full(entries) => return Ok(Some(entries)),
             Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
@@ -171,7 +172,7 @@ impl Intercept {
 
         loop {
             entries = match multipart.save().size_limit(self.file_size_limit)
-                                            .count_limit(self.file_count_limit)
+                                            .count_limit(None)
                                             .with_entries(entries) {
                 Full(entries) => return Ok(Some(entries)),
                 Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
-- 
2.43.0


From 477be693f948f63bae143aa21565985c3fe4d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:15 +0000
Subject: [PATCH 22/23] fix: find the boundary of every valid
 multipart/form-data content type

---
 src/server/field.rs     | 57 +++++++++++++++++++++++++++++++++++++++--
 src/server/hyper.rs     | 44 +++----------------------------
 src/server/iron.rs      | 10 ++------
 src/server/nickel.rs    |  7 ++---
 src/server/tiny_http.rs | 13 +++-------
 5 files changed, 65 insertions(+), 66 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index e4c346c..92519c0 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -359,7 +359,16 @@ fn trim_quotes(s: &str) -> &str {
 
 /// Get the value of the parameter `name` in `params`, which is a series of `; name=value` or
 /// `; name="value"` where a quoted value may contain any of the delimiters.
-fn get_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
+fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    get_param_with(name, params, split_param_value)
+}
+
+/// As `get_param()`, using the given function to split a value from the parameters following it.
+fn get_param_with<'a>(
+    name: &str,
+    mut params: &'a str,
+    split_value: fn(&str) -> (&str, &str),
+) -> Option<&'a str> {
     loop {
         params = params.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
 
@@ -372,7 +381,7 @@ fn get_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
             continue;
         }
 
-        let (val, rest) = split_param_value(params[key_end + 1..].trim_start());
+        let (val, rest) = split_value(params[key_end + 1..].trim_start());
 
         if key.eq_ignore_ascii_case(name) {
             return Some(val);
@@ -399,6 +408,50 @@ fn split_param_value(s: &str) -> (&str, &str) {
     (trim_quotes(val.trim()), rest)
 }
 
+/// Split a token or quoted string from the parameters following it.
+#[cfg(any(feature = "hyper", feature = "iron", feature = "nickel", feature = "tiny_http"))]
+fn split_token_or_quoted(s: &str) -> (&str, &str) {
+    if s.starts_with('"') {
+        let mut escaped = false;
+
+        for (idx, c) in s.char_indices().skip(1) {
+            match c {
+                _ if escaped => escaped = false,
+                '\\' => escaped = true,
+                '"' => return (&s[1..idx], &s[idx + 1..]),
+                _ => (),
+            }
+        }
+    }
+
+    let (val, rest) = split_once(s, ';').unwrap_or((s, ""));
+    (val.trim(), rest)
+}
+
+/// Get the boundary from the value of a `Content-Type` header, if it is `multipart/form-data`.
+///
+/// The typed headers of the HTTP libraries don't support every valid parameter.
+#[cfg(any(feature = "hyper", feature = "iron", feature = "nickel", feature = "tiny_http"))]
+pub fn content_type_boundary(content_type: &str) -> Option<&str> {
+    let (media_type, params) = try_opt!(split_once(content_type, ';'));
+
+    if !media_type.trim().eq_ignore_ascii_case("multipart/form-data") {
+        return None;
+    }
+
+    get_param_with("boundary", params, split_token_or_quoted).filter(|b| !b.is_empty())
+}
+
+/// Get the boundary from the raw lines of the `Content-Type` header.
+#[cfg(any(feature = "hyper", feature = "iron", feature = "nickel"))]
+pub fn raw_content_type_boundary(raw: &[Vec<u8>]) -> Option<&str> {
+    if raw.len() != 1 {
+        return None;
+    }
+
+    str::from_utf8(&raw[0]).ok().and_then(content_type_boundary)
+}
+
 fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
     str::from_utf8(buf).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
 }
diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..bd83a53 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -10,15 +10,13 @@
 //! Also contains an implementation of [`HttpRequest`](../trait.HttpRequest.html)
 //! for `hyper::server::Request` and `&mut hyper::server::Request`.
 use hyper::net::Fresh;
-use hyper::header::ContentType;
 use hyper::method::Method;
 use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
-
 use super::{Multipart, HttpRequest};
+use super::field::raw_content_type_boundary;
 
 /// A container that implements `hyper::server::Handler` which will switch
 /// the handler implementation depending on if the incoming request is multipart or not.
@@ -77,25 +75,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
             return None;
         }
 
-        self.headers.get::<ContentType>().and_then(|ct| {
-            let ContentType(ref mime) = *ct;
-            let params = match *mime {
-                Mime(TopLevel::Multipart, SubLevel::FormData, ref params) => params,
-                _ => return None,
-            };
-
-            params.iter().find(|&&(ref name, _)|
-                match *name {
-                    Attr::Boundary => true,
-                    _ => false,
-                }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
-        })
+        self.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
 
     fn body(self) -> Self {
@@ -111,25 +91,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
             return None;
         }
 
-        self.headers.get::<ContentType>().and_then(|ct| {
-            let ContentType(ref mime) = *ct;
-            let params = match *mime {
-                Mime(TopLevel::Multipart, SubLevel::FormData, ref params) => params,
-                _ => return None,
-            };
-
-            params.iter().find(|&&(ref name, _)|
-                match *name {
-                    Attr::Boundary => true,
-                    _ => false,
-                }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
-        })
+        self.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
 
     fn body(self) -> Self::Body {
diff --git a/src/server/iron.rs b/src/server/iron.rs
index fdd0e43..49a3783 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -3,8 +3,6 @@
 //! Not shown here: `impl `[`HttpRequest`](../trait.HttpRequest.html#implementors)` for
 //! iron::Request`.
 
-use iron::headers::ContentType;
-use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
@@ -14,6 +12,7 @@ use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
+use super::field::raw_content_type_boundary;
 use super::save::{Entries, PartialReason, TempDir};
 use super::save::SaveResult::*;
 
@@ -21,12 +20,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        let content_type = try_opt!(self.headers.get::<ContentType>());
-        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
-            content_type.get_param("boundary").map(|b| b.as_str())
-        } else {
-            None
-        }
+        self.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
 
     fn body(self) -> &'r mut IronBody<'a, 'b> {
diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..5460cec 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -1,13 +1,11 @@
 //! Support for `multipart/form-data` bodies in [Nickel](https://nickel.rs).
 pub extern crate nickel;
 
-use self::nickel::hyper;
-use self::hyper::header::ContentType;
-
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
 
 use server::{HttpRequest, Multipart};
+use server::field::raw_content_type_boundary;
 
 /// A wrapper for `&mut nickel::Request` which implements `multipart::server::HttpRequest`.
 ///
@@ -20,8 +18,7 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
 
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
-        let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        self.0.origin.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
 
     fn body(self) -> Self::Body {
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..9ab9de0 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,7 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use super::field::content_type_boundary;
 use super::HttpRequest;
 
 use std::io::Read;
@@ -14,20 +15,12 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
-
         let content_type = try_opt!(self
             .headers()
             .iter()
-            .find(|header| header.field.equiv("Content-Type")))
-        .value
-        .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
+            .find(|header| header.field.equiv("Content-Type")));
 
-        Some(&content_type[start..end])
+        content_type_boundary(content_type.value.as_str())
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 6dbcc93df7943835397357c5c87936b6e509c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 23/23] fix: only treat POST requests as multipart with iron,
 nickel and tiny_http

---
 src/server/iron.rs      | 5 +++++
 src/server/nickel.rs    | 6 ++++++
 src/server/tiny_http.rs | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 49a3783..5cea738 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -3,6 +3,7 @@
 //! Not shown here: `impl `[`HttpRequest`](../trait.HttpRequest.html#implementors)` for
 //! iron::Request`.
 
+use iron::method::Method;
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
@@ -20,6 +21,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         self.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
 
diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 5460cec..910c59f 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -1,6 +1,8 @@
 //! Support for `multipart/form-data` bodies in [Nickel](https://nickel.rs).
 pub extern crate nickel;
 
+use self::nickel::hyper::method::Method;
+
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
 
@@ -17,6 +19,10 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
     type Body = &'r mut HyperRequest<'mw, 'server>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         // we can't use the impl from the `hyper` module because it might be the wrong version
         self.0.origin.headers.get_raw("Content-Type").and_then(raw_content_type_boundary)
     }
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index 9ab9de0..918506c 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,8 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
 use super::field::content_type_boundary;
 use super::HttpRequest;
 
@@ -15,6 +17,10 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if *self.method() != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self
             .headers()
             .iter()
-- 
2.43.0

