From 92cbee532f2bad779713783c4596f8dc91e1f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 1/5] fix: apply a hunk with an empty new range at the position
 it states

The start of an empty range is the number of the line before it, so a
deletion without context was looked for one line too early. With repeated
lines it could remove the wrong one: applying the patch from "x\ny\nx\n" to
"x\ny\n" made with a context length of 0 gave "y\nx\n".
---
 src/apply.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..41dc956 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,14 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    //
+    // The start of an empty range is the number of the line just before it.
+    let start = if hunk.new_range().is_empty() {
+        hunk.new_range().start()
+    } else {
+        hunk.new_range().start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(start, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From c676deb199e79668774b18108ac41e7765dba243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 2/5] fix: escape control characters in quoted filenames by
 their letter

A newline, tab, NUL or carriage return in a filename was written raw after
the backslash, which Patch::from_str rejects, so a patch with such a name
could be printed but not read back.
---
 src/patch/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..475d917 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,6 +147,17 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
+// The character which stands for `c` after a backslash in a quoted filename
+fn escaped_char(c: char) -> char {
+    match c {
+        '\n' => 'n',
+        '\t' => 't',
+        '\0' => '0',
+        '\r' => 'r',
+        c => c,
+    }
+}
+
 impl Filename<'_, str> {
     fn needs_to_be_escaped(&self) -> bool {
         self.0.contains(ESCAPED_CHARS)
@@ -168,8 +179,10 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
             for b in self.0.as_ref().as_ref() {
                 if ESCAPED_CHARS_BYTES.contains(b) {
                     w.write_all(b"\\")?;
+                    w.write_all(&[escaped_char(*b as char) as u8])?;
+                } else {
+                    w.write_all(&[*b])?;
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -209,7 +222,7 @@ impl fmt::Display for Filename<'_, str> {
                 if ESCAPED_CHARS.contains(&c) {
                     f.write_char('\\')?;
                 }
-                f.write_char(c)?;
+                f.write_char(escaped_char(c))?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From 461c74b7391a22eb468bbfe393c4dc6f346f330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 3/5] fix: keep a hunk's function context intact when parsing
 and printing

The parser kept the header line's newline in the function context and the
formatter put a second space before it, so printing a parsed patch with a
function context added a blank line to the hunk and could not be read back.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..c075778 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 5cb17926befca94e4088baabc0d7b0e9f8339dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 4/5] fix: reject hunk ranges whose end overflows

Computing the end of such a range overflowed, so Patch::from_str panicked (or
wrapped around in release builds) when checking the order of the hunks.
---
 src/patch/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index c075778..5bcc335 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,6 +274,10 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    if start.checked_add(len).is_none() {
+        return Err(ParsePatchError::new("can't parse range"));
+    }
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From 4add06c75850c726ee70127deb1c3019e9352257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 5/5] fix: put conflict markers on a line of their own

When a conflicting region ended without a newline the next conflict marker
was glued to its last line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..f9b9756 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // The lines before the marker may not end with a newline
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // The lines before the marker may not end with a newline
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

