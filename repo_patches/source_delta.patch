From acd51b3856837a524e0aee35684ae6c458736da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 01/15] fix: don't overflow when deleting up to the highest
 representable line

---
 src/buffer/gap_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..40724d1 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -165,7 +165,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
-- 
2.43.0


From 3cc8bcd64df4407205e005adff5d5287882142f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 02/15] fix: find positions by the graphemes of the whole text,
 wherever the gap is

---
 src/buffer/gap_buffer.rs | 45 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 40724d1..a957258 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,28 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
-        let mut line = 0;
-        let mut line_offset = 0;
-
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
-                line += 1;
-                line_offset = 0;
+        self.find_content_offset(position).map(|offset| {
+            if offset < self.gap_start {
+                offset
             } else {
-                line_offset += 1;
+                // The position is beyond the gap.
+                offset + self.gap_length
             }
-        }
+        })
+    }
 
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
+    // Maps a position to its offset equivalent in the content, as if there
+    // were no gap. The content is looked at as a whole because the gap may
+    // be right in the middle of a grapheme.
+    fn find_content_offset(&self, position: &Position) -> Option<usize> {
+        let content = self.to_string();
+        let mut line = 0;
+        let mut line_offset = 0;
 
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in content.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                return Some(offset);
             }
 
             // Advance the line and offset characters.
@@ -247,10 +238,10 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
+        // We didn't find the position *within* the content, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
-            return Some(self.data.len());
+            return Some(content.len());
         }
 
         None
-- 
2.43.0


From 7a7f0c29b30fa9819325819f117112bea48d5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 03/15] fix: treat CRLF as a line break when locating positions

---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..f7bf274 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c == "\n" || c == "\r\n" {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index a957258..2c7bea8 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -230,7 +230,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From dd489e8b0b9a650e69792a7594ae9d8bfe55435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 04/15] fix: undo an insertion by removing precisely the bytes
 it inserted

---
 src/buffer/gap_buffer.rs       | 34 ++++++++++++++-----
 src/buffer/operation/insert.rs | 62 +++++++++++++---------------------
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 2c7bea8..3a995f9 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,13 +56,20 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.find_content_offset(position) {
+            self.insert_content(data, offset);
+        }
+    }
+
+    // Inserts data at the specified content offset.
+    pub(crate) fn insert_content(&mut self, data: &str, offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
             // there beforehand so that we're essentially just increasing the
             // gap size, and preventing a split/two-segment gap.
-            let offset = self.data.capacity();
-            self.move_gap(offset);
+            let end = self.data.capacity();
+            self.move_gap(end);
 
             // Re-allocate the gap buffer, increasing its size.
             self.data.reserve(data.len());
@@ -76,15 +83,16 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap_to_content(offset);
         self.write_to_gap(data);
     }
 
+    // Removes the specified number of bytes, starting at the specified content offset.
+    pub(crate) fn remove_content(&mut self, offset: usize, length: usize) {
+        self.move_gap_to_content(offset);
+        self.gap_length += length;
+    }
+
     /// Returns the specified range of data from the buffer.
     /// If any part of the range does not exist, a none value will be returned.
     ///
@@ -218,7 +226,7 @@ impl GapBuffer {
     // Maps a position to its offset equivalent in the content, as if there
     // were no gap. The content is looked at as a whole because the gap may
     // be right in the middle of a grapheme.
-    fn find_content_offset(&self, position: &Position) -> Option<usize> {
+    pub(crate) fn find_content_offset(&self, position: &Position) -> Option<usize> {
         let content = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
@@ -247,6 +255,14 @@ impl GapBuffer {
         None
     }
 
+    fn move_gap_to_content(&mut self, offset: usize) {
+        if offset > self.gap_start {
+            self.move_gap(offset + self.gap_length);
+        } else {
+            self.move_gap(offset);
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..284098f 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,12 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
 /// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// the operation by removing the content from where it was inserted in the underlying buffer.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,10 +14,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Track where the content ends up, so that we're able to remove it again.
+        self.offset = buffer.data.borrow().find_content_offset(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,42 +33,20 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
+    // We need to remove precisely the bytes we've inserted. Positions won't do: the content may
+    // have merged with its surroundings (e.g. a combining character, or one half of a CRLF).
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
+        if let Some(offset) = self.offset {
+            // Remove the content we'd previously inserted.
+            buffer
+                .data
+                .borrow_mut()
+                .remove_content(offset, self.content.len());
+
+            // Run the change callback, if present.
+            if let Some(ref callback) = buffer.change_callback {
+                callback(self.position)
             }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
-        // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
-
-        // Run the change callback, if present.
-        if let Some(ref callback) = buffer.change_callback {
-            callback(self.position)
         }
     }
 
@@ -78,7 +58,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 0c2899717198af52371e98aaedc7ae7ddd867e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 05/15] fix: make every deletion reversible, whatever its range
 covered

---
 src/buffer/operation/delete.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..faa41f5 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -13,17 +13,28 @@ use std::clone::Clone;
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: Option<usize>,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        let old_content = buffer.data();
+        self.offset = buffer
+            .data
+            .borrow()
+            .find_content_offset(&self.range.start());
 
         // Delete the data.
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've deleted. The range may extend beyond
+        // the end of a line, so we rely on what has actually been removed.
+        let length = old_content.len() - buffer.data().len();
+        self.content = self
+            .offset
+            .map(|offset| old_content[offset..offset + length].to_string());
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
@@ -31,11 +42,10 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
+            // The remaining content may have merged at the start of the range (e.g. with
+            // a combining character), which is why we use the offset and not the position.
+            buffer.data.borrow_mut().insert_content(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +64,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: None,
             range,
         }
     }
-- 
2.43.0


From b2de0a79b05774c231bbbc043cb49e01ac0e77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 06/15] fix: make an operation group that is undone while open
 available to redo

---
 src/buffer/mod.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..11b1c7f 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -241,21 +241,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // End the open operation group, if there is one, so that
+        // it's undone as a whole and available to be redone afterwards.
+        self.end_operation_group();
 
-        // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        // Look for an operation to undo, and reverse it.
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
-- 
2.43.0


From 2af6c75b21a1667a038317115170f8327814c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/15] fix: don't redo earlier operations on top of an open
 group's changes

---
 src/buffer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 11b1c7f..ed92a07 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -268,6 +268,11 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Changes in an open operation group supersede whatever could be redone.
+        if matches!(self.operation_group, Some(ref group) if !group.is_empty()) {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
-- 
2.43.0


From e6e2ad23a5cc9e902e8c0234a5e50abbcba1f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 08/15] fix: account for an open operation group when reporting
 modifications

---
 src/buffer/mod.rs               | 19 +++++++++++++++++--
 src/buffer/operation/group.rs   | 21 ++++++++++++++++++++-
 src/buffer/operation/history.rs |  4 ++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index ed92a07..99c825b 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -190,7 +190,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_as_synced();
 
         Ok(())
     }
@@ -366,7 +366,22 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        match self.operation_group {
+            Some(ref group) if !group.is_empty() => !group.at_mark(),
+            _ => !self.history.at_mark(),
+        }
+    }
+
+    // Marks the current point in the history (including any operations in an
+    // open operation group) as being in sync with the buffer's file equivalent.
+    fn mark_as_synced(&mut self) {
+        match self.operation_group {
+            Some(ref mut group) if !group.is_empty() => {
+                group.mark();
+                self.history.clear_mark();
+            }
+            _ => self.history.mark(),
+        }
     }
 
     /// The number of lines in the buffer, including trailing newlines.
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index c3e7e27..152aa3d 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -13,6 +13,7 @@ use crate::buffer::Buffer;
 /// buffer type to signal the start and end of a group.
 pub struct OperationGroup {
     operations: Vec<Box<dyn Operation>>,
+    marked_position: Option<usize>,
 }
 
 impl Operation for OperationGroup {
@@ -39,6 +40,7 @@ impl Operation for OperationGroup {
                 .iter()
                 .map(|o| (*o).clone_operation())
                 .collect(),
+            marked_position: self.marked_position,
         })
     }
 }
@@ -48,6 +50,7 @@ impl OperationGroup {
     pub fn new() -> OperationGroup {
         OperationGroup {
             operations: Vec::new(),
+            marked_position: None,
         }
     }
 
@@ -60,6 +63,16 @@ impl OperationGroup {
     pub fn is_empty(&self) -> bool {
         self.operations.is_empty()
     }
+
+    /// Marks the group's current (last) operation.
+    pub fn mark(&mut self) {
+        self.marked_position = Some(self.operations.len())
+    }
+
+    /// Whether or not the group's last operation is the one that was marked.
+    pub fn at_mark(&self) -> bool {
+        self.marked_position == Some(self.operations.len())
+    }
 }
 
 impl Buffer {
@@ -83,7 +96,13 @@ impl Buffer {
         // Push an open operation group on to the history stack, if one exists.
         if let Some(group) = self.operation_group.take() {
             if !group.is_empty() {
-                self.history.add(Box::new(group))
+                let at_mark = group.at_mark();
+                self.history.add(Box::new(group));
+
+                // Carry over the mark, if nothing has happened since.
+                if at_mark {
+                    self.history.mark();
+                }
             }
         }
     }
diff --git a/src/buffer/operation/history.rs b/src/buffer/operation/history.rs
index 288199b..a274c96 100644
--- a/src/buffer/operation/history.rs
+++ b/src/buffer/operation/history.rs
@@ -64,6 +64,10 @@ impl History {
         self.marked_position = Some(self.previous.len())
     }
 
+    pub fn clear_mark(&mut self) {
+        self.marked_position = None
+    }
+
     pub fn at_mark(&self) -> bool {
         if let Some(position) = self.marked_position {
             self.previous.len() == position
-- 
2.43.0


From 483786844a8ec00cf2823fd0578871af5efa4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 09/15] fix: report a buffer as modified after a save that
 emptied its file fails

---
 src/buffer/mod.rs             | 12 ++++++++++++
 src/buffer/operation/group.rs |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 99c825b..a0f9575 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -185,6 +185,10 @@ impl Buffer {
             File::create(PathBuf::new())?
         };
 
+        // The file has been emptied; until its new content
+        // is in place, the buffer isn't in sync with it.
+        self.clear_sync_marks();
+
         // We use to_string here because we don't want to write the gap contents.
         file.write_all(self.data().to_string().as_bytes())?;
 
@@ -384,6 +388,14 @@ impl Buffer {
         }
     }
 
+    // Forgets the point at which the buffer was in sync with its file equivalent.
+    fn clear_sync_marks(&mut self) {
+        if let Some(ref mut group) = self.operation_group {
+            group.clear_mark();
+        }
+        self.history.clear_mark();
+    }
+
     /// The number of lines in the buffer, including trailing newlines.
     ///
     /// # Examples
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index 152aa3d..d5a2d95 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -69,6 +69,11 @@ impl OperationGroup {
         self.marked_position = Some(self.operations.len())
     }
 
+    /// Removes the mark, if there is one.
+    pub fn clear_mark(&mut self) {
+        self.marked_position = None
+    }
+
     /// Whether or not the group's last operation is the one that was marked.
     pub fn at_mark(&self) -> bool {
         self.marked_position == Some(self.operations.len())
-- 
2.43.0


From daaf8e8cf5fb4dbcfc34e0104ca4e8e97dfcb3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 10/15] fix: read a file's content from the same path that is
 stored with its buffer

---
 src/buffer/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index a0f9575..fbd9ad5 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -111,8 +111,12 @@ impl Buffer {
     /// # assert_eq!(buffer.cursor.offset, 0);
     /// ```
     pub fn from_file(path: &Path) -> io::Result<Buffer> {
+        // Resolve the path before reading, so that the content is
+        // always that of the file the buffer's path refers to.
+        let path = path.canonicalize()?;
+
         // Try to open and read the file, returning any errors encountered.
-        let content = fs::read_to_string(path)?;
+        let content = fs::read_to_string(&path)?;
 
         let data = Rc::new(RefCell::new(GapBuffer::new(content)));
         let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });
@@ -121,7 +125,7 @@ impl Buffer {
         let mut buffer = Buffer {
             id: None,
             data: data.clone(),
-            path: Some(path.canonicalize()?),
+            path: Some(path),
             cursor,
             history: History::new(),
             operation_group: None,
-- 
2.43.0


From 5c9291cafc051cefd75c410c12c0d318250093af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 11/15] fix: don't open a second buffer when a path is first
 resolved while being read

---
 src/workspace.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/workspace.rs b/src/workspace.rs
index 26c159b..8d01fef 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -113,6 +113,15 @@ impl Workspace {
             Ok(())
         } else {
             let buffer = Buffer::from_file(path)?;
+
+            // The path may not have been resolvable (or may have referred to
+            // another file) when we looked for an existing buffer, above.
+            if let Some(ref canonical_path) = buffer.path {
+                if self.select_buffer_by_canonical_path(canonical_path) {
+                    return Ok(());
+                }
+            }
+
             self.add_buffer(buffer);
 
             Ok(())
@@ -467,26 +476,30 @@ impl Workspace {
 
     fn select_buffer_by_path(&mut self, path: &Path) -> bool {
         if let Ok(ref canonical_path) = path.canonicalize() {
-            // Do nothing if the current buffer matches the path.
-            if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
-                return true;
-            }
-
-            // Look at other open buffers to see if one matches.
-            let index = self
-                .buffers
-                .iter()
-                .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
-
-            // If we found a matching buffer, select it and propagate the
-            // result of that operation. Otherwise, return false.
-            index
-                .map(|index| self.select_buffer(index))
-                .unwrap_or(false)
+            self.select_buffer_by_canonical_path(canonical_path)
         } else {
             false
         }
     }
+
+    fn select_buffer_by_canonical_path(&mut self, canonical_path: &PathBuf) -> bool {
+        // Do nothing if the current buffer matches the path.
+        if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
+            return true;
+        }
+
+        // Look at other open buffers to see if one matches.
+        let index = self
+            .buffers
+            .iter()
+            .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
+
+        // If we found a matching buffer, select it and propagate the
+        // result of that operation. Otherwise, return false.
+        index
+            .map(|index| self.select_buffer(index))
+            .unwrap_or(false)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b752721bf50dcb2c7f812c5b457ebadb5397c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 12/15] fix: account for an open operation group when
 reloading, too

---
 src/buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index fbd9ad5..9df16ac 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -446,7 +446,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_as_synced();
 
         Ok(())
     }
-- 
2.43.0


From 5fb186dbb0d231fa35685742922ffe036f2d1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 13/15] fix: report search results as grapheme cluster-based
 positions

Positions address grapheme clusters, but byte offsets were reported, which
pointed elsewhere (or nowhere) on lines holding multi-byte characters.
---
 src/buffer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9df16ac..b54910a 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -332,8 +333,9 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
+            // Positions are grapheme cluster-based, unlike the indices we slice the data with.
+            for (offset, (index, _)) in data.grapheme_indices(true).enumerate() {
+                let haystack = &data[index..];
 
                 // Check haystack length before slicing it and comparing bytes with needle.
                 if haystack.len() >= needle.len()
-- 
2.43.0


From 73baa0a227f84ace20e5dc2053c8f674d45fb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 14/15] fix: measure distances in grapheme clusters rather than
 bytes

Distances are added to positions, whose offsets count grapheme clusters.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From ec4c3bbc722bb8b909a6fcc3e97c3d5f568da07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 15/15] fix: keep token positions right when a token ends
 within a grapheme cluster

Counting the clusters of each token separately counts a cluster that's been
split between two tokens (e.g. a combining character following an opening
quote) twice, misplacing all of the tokens that follow it on the same line.
---
 src/buffer/token/token_iterator.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..4a2a6da 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -2,8 +2,9 @@ use crate::buffer::{Lexeme, Position, Token};
 use crate::errors::*;
 use crate::util::LineIterator;
 use std::cmp;
+use std::iter::Peekable;
 use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxReference, SyntaxSet};
-use unicode_segmentation::UnicodeSegmentation;
+use unicode_segmentation::{GraphemeIndices, UnicodeSegmentation};
 
 pub struct TokenIterator<'a> {
     scopes: ScopeStack,
@@ -12,6 +13,7 @@ pub struct TokenIterator<'a> {
     current_line: Option<&'a str>,
     current_byte_offset: usize,
     current_position: Position,
+    current_graphemes: Option<Peekable<GraphemeIndices<'a>>>,
     line_events: Vec<(usize, ScopeStackOp)>,
     syntaxes: &'a SyntaxSet,
     pub error: Option<Error>,
@@ -30,6 +32,7 @@ impl<'a> TokenIterator<'a> {
             current_line: None,
             current_byte_offset: 0,
             current_position: Position { line: 0, offset: 0 },
+            current_graphemes: None,
             line_events: Vec::new(),
             syntaxes,
             error: None,
@@ -98,11 +101,14 @@ impl<'a> TokenIterator<'a> {
                         position: self.current_position,
                     }));
 
-                    // The event/current offsets are byte-based, but
-                    // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // The event/current offsets are byte-based, but position offsets
+                    // should be grapheme cluster-based. We count the line's clusters,
+                    // rather than the token's, because a token may end within a cluster.
+                    if let Some(ref mut graphemes) = self.current_graphemes {
+                        while graphemes.next_if(|&(i, _)| i < end_of_token).is_some() {
+                            self.current_position.offset += 1;
+                        }
+                    }
 
                     self.current_byte_offset = event_offset;
                 }
@@ -149,8 +155,9 @@ impl<'a> TokenIterator<'a> {
                 offset: 0,
             };
 
-            // Reset byte-based line offset.
+            // Reset byte-based line offset, and the clusters used to translate it.
             self.current_byte_offset = 0;
+            self.current_graphemes = Some(line.grapheme_indices(true).peekable());
         } else {
             self.current_line = None;
         }
-- 
2.43.0

