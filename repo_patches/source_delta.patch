From 9b0b822e9c565e492c91e9ee716a6ad7fb3e33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 01/22] fix: extend common runs from their end, not one past it

The forward extension in longest_common_subsequence() compared the items
starting one after the end of the run, so differing items adjacent to it were
counted as unchanged and changes vanished from the diff.
---
 pw_diff_lib/src/changes.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..59d73a2 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
@@ -309,15 +309,9 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                 self.after.range_from(j),
             ));
         } else if i < self.before.len() {
-            changes.push(Change::Delete(
-                self.before.range_from(i),
-                self.after.len(),
-            ));
+            changes.push(Change::Delete(self.before.range_from(i), self.after.len()));
         } else if j < self.after.len() {
-            changes.push(Change::Insert(
-                self.before.len(),
-                self.after.range_from(j),
-            ));
+            changes.push(Change::Insert(self.before.len(), self.after.range_from(j)));
         }
 
         changes
-- 
2.43.0


From 4957ca5b7202a30b2c2a458b8432a9b712cb88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 02/22] fix: ChangeClump::before_end() is the end of its last
 change

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 59d73a2..bcd0ab3 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -379,7 +379,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From cf6f9355cae04f24cb723da8c20a982735077741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 03/22] fix: an empty subsequence fits at the very end of a
 sequence

Byte hunks that only insert at the end (context 0) or into an empty file were
silently not applied, and deletions to the end not recognised as applied.
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 156eb4a4dff8ca710b7cbf4bc3118fe252eaf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 04/22] fix: take a hunk's own lines when writing it with
 reduced context

before_write_into() indexed the hunk's lines with file positions whenever
context was dropped: wrong lines were written or the patcher panicked.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From ff696fca2b92458b17da6063b3d4280faf02f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 05/22] fix: compute the limit of the forward search without
 underflow

A target shorter than a hunk, or a hunk shifted towards the top of the file,
made will_apply_nearby() panic where overflow checks are on, and a hunk
without context was never found at the very end of the file.
---
 pw_diff_lib/src/apply_text.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..9ca3b1d 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -153,11 +153,13 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         offset: isize,
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
+        let core_length =
+            self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize;
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - core_length
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize - core_length
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +178,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From da78f8c732fb4c28fa84b73a7dc76f72e09a4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 06/22] fix: keep conflict markers on lines of their own

When a hunk's last line has no final newline the marker following it was
glued to it.
---
 pw_diff_lib/src/apply_text.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 9ca3b1d..81ddf52 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -228,8 +228,22 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
     fn write_failure_data_into<W: io::Write>(&self, into: &mut W, reverse: bool) -> io::Result<()> {
         into.write_all(b"<<<<<<<\n")?;
         self.before_write_into(into, None, reverse)?;
+        if self
+            .before_lines(None, reverse)
+            .last()
+            .is_some_and(|line| !line.ends_with('\n'))
+        {
+            into.write_all(b"\n")?;
+        }
         into.write_all(b"=======\n")?;
         self.after_write_into(into, None, reverse)?;
+        if self
+            .after_lines(None, reverse)
+            .last()
+            .is_some_and(|line| !line.ends_with('\n'))
+        {
+            into.write_all(b"\n")?;
+        }
         into.write_all(b">>>>>>>\n")
     }
 }
-- 
2.43.0


From 553fa11bef069574fbe196431fdf2982f20259dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 07/22] fix: never apply a text hunk over lines already
 consumed

A hunk matching (at its expected place or further on) inside the region of an
earlier, displaced hunk was applied there: lines were duplicated or lost, or
the patcher panicked. Such places are no longer considered.
---
 pw_diff_lib/src/apply_text.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 81ddf52..3586af1 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,23 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// As `will_apply()` but only where nothing has been consumed yet
+    fn will_apply_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        reverse: bool,
+    ) -> Option<WillApply> {
+        self.will_apply(pd.data(), offset, reverse)
+            .filter(|will_apply| {
+                let reductions = match will_apply {
+                    WillApply::Cleanly => None,
+                    WillApply::WithReductions(reductions) => Some(*reductions),
+                };
+                self.before_adjusted_start(offset, reductions, reverse) >= pd.consumed() as isize
+            })
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -179,7 +196,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -284,7 +303,7 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump.will_apply_unconsumed(&pd, offset, reverse) {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
@@ -313,7 +332,7 @@ where
                         log::warn!("Clump #{clump_num} applies with {reductions:?} reductions and offset {offset_adj}.");
                     }
                 }
-            } else if let Some(appplied) = clump.is_already_applied(patchable, offset, reverse) {
+            } else if let Some(appplied) = clump.will_apply_unconsumed(&pd, offset, !reverse) {
                 match appplied {
                     WillApply::Cleanly => {
                         clump.already_applied_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From edb5d6a1da266ae7c269f43c0d5eb4b115412064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 08/22] fix: never apply a byte hunk over bytes already
 consumed

On a partly patched target a hunk could match inside the stretch just passed
over as already applied: bytes were duplicated or lost, or the patcher
panicked.
---
 pw_diff_lib/src/apply_bytes.rs | 5 ++++-
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..fd7aa33 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,7 +43,9 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.before_start(reverse) >= pd.consumed()
+                && clump.will_apply(patchable, reverse)
+            {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.is_already_applied(patchable, reverse) {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From 1c3e393405bcd7b02d9474f3565c8e91a609674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 09/22] fix: a parsed unified hunk's lines do not include their
 prefix

---
 pw_cub_diff_lib/src/unified_diff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..4569cb9 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -148,18 +148,18 @@ impl UnifiedDiffClump {
         {
             let line = *iter.next().check_end_of_input()?;
             if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
             } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+                after_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
             } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
+                after_lines.push(line[1..].to_string());
                 if at_the_front {
                     start_context_length += 1
                 } else {
-- 
2.43.0


From 8a9c9f58b110db4a9293fcf4b6dce57d95a063ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 10/22] fix: a parsed unified hunk's positions count lines from
 0

---
 pw_cub_diff_lib/src/unified_diff.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 4569cb9..c774fe4 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -201,10 +201,16 @@ impl UnifiedDiffClump {
 
 impl ChangeBasics for UnifiedDiffClump {
     fn before_start(&self, reverse: bool) -> usize {
-        if reverse {
-            self.starts_and_lengths.after.start
+        let StartAndLength { start, length } = if reverse {
+            &self.starts_and_lengths.after
+        } else {
+            &self.starts_and_lengths.before
+        };
+        // Headers number lines from 1 and an empty side gives the number of the line before it
+        if *length > 0 {
+            start.saturating_sub(1)
         } else {
-            self.starts_and_lengths.before.start
+            *start
         }
     }
 
-- 
2.43.0


From 082d6b0da20cdf5352fd93f1a7238418bdace637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 11/22] fix: parse unified hunks with more than 255 lines of
 context

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index c774fe4..dc0112c 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -161,9 +161,9 @@ impl UnifiedDiffClump {
                 before_lines.push(line[1..].to_string());
                 after_lines.push(line[1..].to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = "-";
             } else {
-- 
2.43.0


From 412ab4a7bb5f0284738891e592f319d4f76b622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 12/22] fix: heed markers of missing final newlines anywhere in
 a unified hunk

---
 pw_cub_diff_lib/src/unified_diff.rs | 39 +++++++++++++++--------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index dc0112c..c8011b2 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,14 @@ pub fn starts_and_lengths(
     }
 }
 
+fn trim_newline(line: Option<&mut String>) {
+    if let Some(line) = line {
+        if line.ends_with('\n') {
+            line.pop();
+        }
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -127,7 +135,7 @@ pub struct UnifiedDiffClump {
 
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
-        let mut iter = lines.subsequence(lines.range_from(start_index));
+        let mut iter = lines.subsequence(lines.range_from(start_index)).peekable();
         let line = match iter.next() {
             Some(line) => line,
             None => return Ok(None),
@@ -142,11 +150,11 @@ impl UnifiedDiffClump {
         let mut before_lines = vec![];
         let mut after_lines = vec![];
         let mut index = 0usize;
-        let mut last_line_type = "X";
         while before_lines.len() < starts_and_lengths.before.length
             || after_lines.len() < starts_and_lengths.after.length
         {
             let line = *iter.next().check_end_of_input()?;
+            let last_line_type;
             if line.starts_with('-') {
                 before_lines.push(line[1..].to_string());
                 end_context_length = 0;
@@ -165,30 +173,23 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line_type = " ";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
             index += 1;
-        }
-        let mut lines_consumed = index + 1;
-        if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
-                lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
+            // any line can be a side's last one and be followed by a marker
+            if iter.next_if(|line| line.starts_with('\\')).is_some() {
+                index += 1;
+                if last_line_type != "+" {
+                    trim_newline(before_lines.last_mut());
+                }
+                if last_line_type != "-" {
+                    trim_newline(after_lines.last_mut());
                 }
             }
         }
+        let lines_consumed = index + 1;
         Ok(Some(Self {
             lines_consumed,
             before_lines: before_lines.into_boxed_slice(),
-- 
2.43.0


From b543e877cb9956aff09f7b1e515050f6ff6051e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 13/22] fix: reject unified hunks with more lines than their
 header says

---
 pw_cub_diff_lib/src/unified_diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index c8011b2..2804f62 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -177,6 +177,11 @@ impl UnifiedDiffClump {
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
+            if before_lines.len() > starts_and_lengths.before.length
+                || after_lines.len() > starts_and_lengths.after.length
+            {
+                return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
+            }
             index += 1;
             // any line can be a side's last one and be followed by a marker
             if iter.next_if(|line| line.starts_with('\\')).is_some() {
-- 
2.43.0


From 71206f5dda2cf940e4b9e31f617ab9adba2a8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 14/22] fix: number lines from 1 in the headers of rendered
 unified hunks

---
 pw_cub_diff_lib/src/unified_diff.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 2804f62..357e6fe 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -260,6 +260,15 @@ pub struct UnifiedClumpText {
     pub lines: Vec<String>,
 }
 
+/// Headers number lines from 1 and an empty side gives the number of the line before it
+fn header_start(start: usize, length: usize) -> usize {
+    if length > 0 {
+        start + 1
+    } else {
+        start
+    }
+}
+
 pub struct UnifiedClumpIter<'a> {
     pub before: &'a Seq<String>,
     pub after: &'a Seq<String>,
@@ -275,11 +284,11 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
         let starts = change_clump.starts();
         let ends = change_clump.ends();
         let before_start_and_end = StartAndLength {
-            start: starts.0,
+            start: header_start(starts.0, ends.0 - starts.0),
             length: ends.0 - starts.0,
         };
         let after_start_and_end = StartAndLength {
-            start: starts.1,
+            start: header_start(starts.1, ends.1 - starts.1),
             length: ends.1 - starts.1,
         };
         let starts_and_lengths = StartsAndLengths {
-- 
2.43.0


From d56d2f88333f7aff9cb8643178280fc9d1234d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 15/22] fix: mark each line without a newline in rendered
 unified hunks

---
 pw_cub_diff_lib/src/unified_diff.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 357e6fe..7ddfa20 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -335,12 +335,15 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
+        // either side's last line may lack a newline
+        let mut index = 0;
+        while index < lines.len() {
+            if !lines[index].ends_with("\n") {
+                lines[index].push('\n');
+                index += 1;
+                lines.insert(index, "\\ No newline at end of file\n".to_string());
+            }
+            index += 1;
         }
 
         Some(UnifiedClumpText { header, lines })
-- 
2.43.0


From aced276b9b8e14ef97facfb38b6441d35ccc678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 16/22] fix: exit with an error if pw_patch cannot create a
 file

---
 pw_patch/src/main.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..d8ca043 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -112,11 +112,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -128,11 +130,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -208,11 +212,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -224,11 +230,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From f5c19e5111eb6d17d5aad260c22a779ca3b77a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 17/22] fix: remove the temporary file when pw_patch fails

---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index d8ca043..9eef6e4 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -81,12 +82,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -172,6 +175,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -181,12 +185,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From dfd8edb342cc6bd02b71d2135fefa46c29679a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 18/22] fix: a file that cannot be examined is not a missing
 file

---
 pw_diff_lib/src/diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..e4ef0a5 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -21,8 +21,8 @@ pub enum Diff {
 
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.exists() {
-            if after_file_path.exists() {
+        if before_file_path.try_exists()? {
+            if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +37,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.exists() {
+        } else if after_file_path.try_exists()? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From 485846b92e3e135b8614ecba9eaf3feb86cba7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 19/22] fix: pw_diff reports a failure to write the end of its
 output

---
 pw_diff/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..9928144 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -51,4 +51,9 @@ fn main() {
             std::process::exit(5);
         }
     }
+    // What is still buffered would be written at exit, ignoring errors.
+    if let Err(err) = io::stdout().flush() {
+        log::error!("Error writing diff: {err}");
+        std::process::exit(5);
+    }
 }
-- 
2.43.0


From a72b38c6c82875cdd93f63fd98aa5ade4caa41ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 20/22] fix: show what the library logs about hunks that cannot
 be applied

---
 pw_patch/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 9eef6e4..b57d371 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -28,6 +28,7 @@ fn main() {
 
     stderrlog::new()
         .module(module_path!())
+        .module("pw_diff_lib")
         .verbosity(LogLevelNum::from(args.verbose as usize))
         .init()
         .unwrap();
-- 
2.43.0


From d99846822fc54e73e686d0f6284680e0e0437203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:45 +0000
Subject: [PATCH 21/22] fix: Diff::new() reads each file once so that pipes
 give complete diffs

Whether the files are text was found out by reading them, and the fallback
read them again: what had come through a pipe was gone by then, and the
binary diff was made without it and reported as a success.
---
 pw_diff_lib/src/byte_diff.rs | 29 +++++++++++++++--
 pw_diff_lib/src/diff.rs      | 60 ++++++++++++++++++++++++++----------
 pw_diff_lib/src/text_diff.rs | 28 +++++++++++++++--
 3 files changed, 96 insertions(+), 21 deletions(-)

diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index aad0ad5..4910fd5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -101,9 +101,26 @@ impl ByteChangeDiff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
         let before_bytes = Seq::<u8>::read(File::open(before_file_path)?)?;
         let after_bytes = Seq::<u8>::read(File::open(after_file_path)?)?;
+
+        Ok(Self::from_bytes(
+            before_file_path,
+            before_bytes,
+            after_file_path,
+            after_bytes,
+            context,
+        ))
+    }
+
+    pub(crate) fn from_bytes(
+        before_file_path: &Path,
+        before_bytes: Seq<u8>,
+        after_file_path: &Path,
+        after_bytes: Seq<u8>,
+        context: u8,
+    ) -> Self {
         let modifications = Changes::<u8>::new(before_bytes, after_bytes);
 
-        Ok(Self {
+        Self {
             before_path: before_file_path.to_path_buf(),
             after_path: after_file_path.to_path_buf(),
             compressed: false,
@@ -111,7 +128,7 @@ impl ByteChangeDiff {
                 .change_clumps(context)
                 .map(|c| ByteChangeClump::from(c))
                 .collect(),
-        })
+        }
     }
 
     pub fn from_reader<R: io::Read>(reader: &mut R) -> Result<Self, serde_json::Error> {
@@ -161,6 +178,14 @@ impl PathAndBytes {
         })
     }
 
+    pub(crate) fn from_bytes(path: &Path, bytes: Seq<u8>) -> Self {
+        Self {
+            path: path.to_path_buf(),
+            compressed: false,
+            bytes: bytes.0,
+        }
+    }
+
     pub fn path(&self) -> &Path {
         &self.path
     }
diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index e4ef0a5..4c4611e 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -1,5 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
+use std::fs::File;
 use std::io;
 use std::io::ErrorKind;
 use std::path::Path;
@@ -7,6 +8,7 @@ use std::path::Path;
 use serde::{Deserialize, Serialize};
 
 use crate::byte_diff::{ByteChangeDiff, PathAndBytes};
+use crate::sequence::Seq;
 use crate::text_diff::{PathAndLines, TextChangeDiff};
 
 #[derive(Debug, Serialize, Deserialize)]
@@ -19,35 +21,59 @@ pub enum Diff {
     ByteRemove(PathAndBytes),
 }
 
+/// The lines of `bytes` if they're text.  What a file holds has to be read once only as the
+/// "file" may be a pipe.
+fn as_text(bytes: &Seq<u8>) -> Option<Seq<String>> {
+    std::str::from_utf8(bytes).ok().map(Seq::<String>::from)
+}
+
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
         if before_file_path.try_exists()? {
+            let before_bytes = Seq::<u8>::read(File::open(before_file_path)?)?;
             if after_file_path.try_exists()? {
-                match TextChangeDiff::new(before_file_path, after_file_path, context) {
-                    Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
-                    Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
+                let after_bytes = Seq::<u8>::read(File::open(after_file_path)?)?;
+                match (as_text(&before_bytes), as_text(&after_bytes)) {
+                    (Some(before_lines), Some(after_lines)) => {
+                        Ok(Self::TextChange(TextChangeDiff::from_lines(
+                            before_file_path,
+                            before_lines,
+                            after_file_path,
+                            after_lines,
+                            context,
+                        )))
+                    }
+                    _ => Ok(Self::ByteChange(ByteChangeDiff::from_bytes(
                         before_file_path,
+                        before_bytes,
                         after_file_path,
+                        after_bytes,
                         context,
-                    )?)),
+                    ))),
                 }
             } else {
-                match PathAndLines::new(before_file_path) {
-                    Ok(path_and_lines) => Ok(Self::TextRemove(path_and_lines)),
-                    Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
+                match as_text(&before_bytes) {
+                    Some(lines) => Ok(Self::TextRemove(PathAndLines::from_lines(
+                        before_file_path,
+                        lines,
+                    ))),
+                    None => Ok(Self::ByteRemove(PathAndBytes::from_bytes(
+                        before_file_path,
+                        before_bytes,
+                    ))),
                 }
             }
         } else if after_file_path.try_exists()? {
-            match PathAndLines::new(after_file_path) {
-                Ok(mut path_and_lines) => {
-                    path_and_lines.change_path(&before_file_path);
-                    Ok(Self::TextAdd(path_and_lines))
-                }
-                Err(_) => {
-                    let mut path_and_bytes = PathAndBytes::new(after_file_path)?;
-                    path_and_bytes.change_path(&before_file_path);
-                    Ok(Self::ByteAdd(path_and_bytes))
-                }
+            let after_bytes = Seq::<u8>::read(File::open(after_file_path)?)?;
+            match as_text(&after_bytes) {
+                Some(lines) => Ok(Self::TextAdd(PathAndLines::from_lines(
+                    before_file_path,
+                    lines,
+                ))),
+                None => Ok(Self::ByteAdd(PathAndBytes::from_bytes(
+                    before_file_path,
+                    after_bytes,
+                ))),
             }
         } else {
             Err(io::Error::new(
diff --git a/pw_diff_lib/src/text_diff.rs b/pw_diff_lib/src/text_diff.rs
index b25d416..00d0a60 100644
--- a/pw_diff_lib/src/text_diff.rs
+++ b/pw_diff_lib/src/text_diff.rs
@@ -93,16 +93,33 @@ impl TextChangeDiff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
         let before_lines = Seq::<String>::read(File::open(before_file_path)?)?;
         let after_lines = Seq::<String>::read(File::open(after_file_path)?)?;
+
+        Ok(Self::from_lines(
+            before_file_path,
+            before_lines,
+            after_file_path,
+            after_lines,
+            context,
+        ))
+    }
+
+    pub(crate) fn from_lines(
+        before_file_path: &Path,
+        before_lines: Seq<String>,
+        after_file_path: &Path,
+        after_lines: Seq<String>,
+        context: u8,
+    ) -> Self {
         let modifications = Changes::<String>::new(before_lines, after_lines);
 
-        Ok(Self {
+        Self {
             before_path: before_file_path.to_path_buf(),
             after_path: after_file_path.to_path_buf(),
             clumps: modifications
                 .change_clumps(context)
                 .map(|c| TextChangeClump::from(c))
                 .collect(),
-        })
+        }
     }
 
     pub fn from_reader<R: io::Read>(reader: &mut R) -> Result<Self, serde_json::Error> {
@@ -157,6 +174,13 @@ impl PathAndLines {
         })
     }
 
+    pub(crate) fn from_lines(path: &Path, lines: Seq<String>) -> Self {
+        Self {
+            path: path.to_path_buf(),
+            lines: lines.0,
+        }
+    }
+
     pub fn path(&self) -> &Path {
         &self.path
     }
-- 
2.43.0


From 27e9dbf52c7873222b3467ea4d341714c9d21244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 22/22] fix: a hunk whose outer context lines were removed is
 searched for up to where it has room without them

---
 pw_diff_lib/src/apply_text.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 3586af1..649b406 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -178,17 +178,23 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         } else {
             pd.data().len() as isize - core_length
         };
+        // Outer context lines that are dropped don't need any room
+        let (start_context_len, end_context_len) = self.context_lengths();
+        let max_reduction = start_context_len.max(end_context_len).saturating_sub(1);
+        let max_reductions = Some((start_context_len.min(max_reduction), 0));
         let mut backward_done = false;
         let mut forward_done = false;
         for i in 1isize.. {
             if !backward_done {
                 let adjusted_offset = offset - i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse)
+                if self.before_adjusted_start(adjusted_offset, max_reductions, reverse)
                     < pd.consumed() as isize
                 {
                     backward_done = true;
                 } else {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((-i, will_apply));
                     }
                 }
-- 
2.43.0

