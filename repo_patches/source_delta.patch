From ee3bb4fc67164b47534eaad5ba0048bbb530203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 01/23] fix: forward word segmentation after ZWJ sequences and
 emoji modifiers

After ZWJ x Glue_After_Zwj (WB3c) the state of the text before the ZWJ was kept,
so that further letters were attached; a second E_Modifier was attached to an
emoji sequence, although WB14 only joins one to an E_Base.
---
 unic/segment/src/word.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..d35c21e 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -158,6 +158,20 @@ enum RegionalState {
     Unknown,
 }
 
+impl WordBoundsState {
+    // is more text needed to accept what was read since the last certain position?
+    fn is_pending(self) -> bool {
+        use self::FormatExtendType::*;
+
+        match self {
+            WordBoundsState::FormatExtend(t) => {
+                t == RequireLetter || t == RequireHLetter || t == RequireNumeric
+            }
+            _ => false,
+        }
+    }
+}
+
 impl<'a> Iterator for WordBounds<'a> {
     type Item = &'a str;
 
@@ -231,7 +245,12 @@ impl<'a> Iterator for WordBounds<'a> {
             // however we are in the previous state for the purposes of all other rules.
             if prev_zwj {
                 match cat {
-                    WB::GlueAfterZwj => continue,
+                    // still looking for a character that can't follow anymore: rewind
+                    WB::GlueAfterZwj | WB::EBaseGAZ if state.is_pending() => break,
+                    WB::GlueAfterZwj => {
+                        state = Zwj;
+                        continue;
+                    }
                     WB::EBaseGAZ => {
                         state = Emoji;
                         continue;
@@ -353,7 +372,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => Zwj,
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 7d517f4535f363d5b036889c1c6e3495ab433f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 02/23] fix: backward word segmentation joins ZWJ with a
 following E_Base

WB3c only covers Glue_After_Zwj and E_Base_GAZ.
---
 unic/segment/src/word.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index d35c21e..481b220 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -599,7 +599,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBase => Regional(RegionalState::Full),
+                    WB::EBaseGAZ => Zwj, // rule WB3c
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From b607f6ac97c015419d59ffa4faf642a9f7475d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/23] fix: GraphemeCursor with partial chunks

Asking for the character before the cursor panicked ('invalid state') when the
pair needed no further context, and took a Prepend before CR, LF or Control for
no boundary; moving before the start of the chunk panicked or gave InvalidOffset;
moving the cursor away from a suspended query left it half suspended; and
regional indicators before the chunk were counted twice.
---
 unic/segment/src/grapheme.rs | 124 +++++++++++++++++------------------
 1 file changed, 62 insertions(+), 62 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..21b634d 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,18 +394,19 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
-            self.offset = offset;
-            self.state = if offset == 0 || offset == self.len {
-                GraphemeState::Break
-            } else {
-                GraphemeState::Unknown
-            };
-            // reset state derived from text around cursor
-            self.cat_before = None;
-            self.cat_after = None;
-            self.ris_count = None;
-        }
+        self.offset = offset;
+        self.state = if offset == 0 || offset == self.len {
+            GraphemeState::Break
+        } else {
+            GraphemeState::Unknown
+        };
+        // reset state derived from text around cursor
+        self.cat_before = None;
+        self.cat_after = None;
+        self.ris_count = None;
+        // forget a suspended query
+        self.pre_context_offset = None;
+        self.resuming = false;
     }
 
     /// The current offset of the cursor. Equal to the last value provided to
@@ -452,17 +453,15 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
-            let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
-                return;
-            }
-        }
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            _ => {
+                // The category before the cursor was missing.
+                let ch = chunk.chars().rev().next().unwrap();
+                self.cat_before = Some(GCB::of(ch));
+                self.handle_pair(chunk, chunk_start);
+            }
         }
     }
 
@@ -474,11 +473,6 @@ impl GraphemeCursor {
         };
     }
 
-    fn decision(&mut self, is_break: bool) -> Result<bool, GraphemeIncomplete> {
-        self.decide(is_break);
-        Ok(is_break)
-    }
-
     fn is_boundary_result(&self) -> Result<bool, GraphemeIncomplete> {
         if self.state == GraphemeState::Break {
             Ok(true)
@@ -491,6 +485,31 @@ impl GraphemeCursor {
         }
     }
 
+    /// Decide from the categories around the cursor, looking at the text before it (which starts
+    /// at `chunk_start`) if needed.
+    fn handle_pair(&mut self, chunk: &str, chunk_start: usize) {
+        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
+            PairResult::NotBreak => self.decide(false),
+            PairResult::Break => self.decide(true),
+            PairResult::Extended => {
+                let is_extended = self.is_extended;
+                self.decide(!is_extended)
+            }
+            PairResult::Regional => {
+                if let Some(ris_count) = self.ris_count {
+                    self.decide((ris_count % 2) == 0);
+                } else {
+                    self.state = GraphemeState::Regional;
+                    self.handle_regional(chunk, chunk_start);
+                }
+            }
+            PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
+                self.handle_emoji(chunk, chunk_start);
+            }
+        }
+    }
+
     fn handle_regional(&mut self, chunk: &str, chunk_start: usize) {
         let mut ris_count = self.ris_count.unwrap_or(0);
         for ch in chunk.chars().rev() {
@@ -581,41 +600,17 @@ impl GraphemeCursor {
             let ch = chunk[offset_in_chunk..].chars().next().unwrap();
             self.cat_after = Some(GCB::of(ch));
         }
-        if self.offset == chunk_start {
-            let mut need_pre_context = true;
-            match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
-                GCB::EModifier => self.state = GraphemeState::Emoji,
-                _ => need_pre_context = self.cat_before.is_none(),
-            }
-            if need_pre_context {
-                self.pre_context_offset = Some(chunk_start);
-                return Err(GraphemeIncomplete::PreContext(chunk_start));
-            }
-        }
         if self.cat_before.is_none() {
-            let ch = chunk[..offset_in_chunk].chars().rev().next().unwrap();
-            self.cat_before = Some(GCB::of(ch));
-        }
-        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
-            PairResult::NotBreak => self.decision(false),
-            PairResult::Break => self.decision(true),
-            PairResult::Extended => {
-                let is_extended = self.is_extended;
-                self.decision(!is_extended)
-            }
-            PairResult::Regional => {
-                if let Some(ris_count) = self.ris_count {
-                    return self.decision((ris_count % 2) == 0);
+            match chunk[..offset_in_chunk].chars().rev().next() {
+                Some(ch) => self.cat_before = Some(GCB::of(ch)),
+                None => {
+                    self.pre_context_offset = Some(chunk_start);
+                    return Err(GraphemeIncomplete::PreContext(chunk_start));
                 }
-                self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
-            }
-            PairResult::Emoji => {
-                self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
             }
         }
+        self.handle_pair(&chunk[..offset_in_chunk], chunk_start);
+        self.is_boundary_result()
     }
 
     /// Find the next boundary after the current cursor position. Only a part of
@@ -659,7 +654,10 @@ impl GraphemeCursor {
             return Ok(None);
         }
         let mut iter = chunk[self.offset - chunk_start..].chars();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::NextChunk),
+        };
         loop {
             if self.resuming {
                 if self.cat_after.is_none() {
@@ -738,17 +736,19 @@ impl GraphemeCursor {
             return Ok(None);
         }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::PrevChunk),
+        };
         loop {
-            if self.offset == chunk_start {
-                self.resuming = true;
-                return Err(GraphemeIncomplete::PrevChunk);
-            }
             if self.resuming {
                 self.cat_before = Some(GCB::of(ch));
             } else {
                 self.offset -= ch.len_utf8();
                 self.cat_after = self.cat_before.take();
+                if self.cat_after.is_none() {
+                    self.cat_after = Some(GCB::of(ch));
+                }
                 self.state = GraphemeState::Unknown;
                 if let Some(ris_count) = self.ris_count {
                     self.ris_count = if ris_count > 0 {
-- 
2.43.0


From f8920bfecef372b6b23b0859c5f454546d1d0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 04/23] fix: U+11A7 is not a trailing consonant in Hangul
 composition

T_BASE is one before the first jongseong; composing an LV syllable with it
dropped the character, so NFC and NFKC lost it.
---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From f698f45beb705f4fb5d706688da3db06edef3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 05/23] fix: bidi line reordering of lines that do not start
 the text

Rule L1 looked up the classes, and reset the levels, at offsets from the
start of the line rather than of the text, and rule L2 used the levels
before L1.
---
 unic/bidi/src/bidi_info.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..16ed2b2 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -295,7 +295,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match self.original_classes[line.start + i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +318,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    levels[line.start + j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +326,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                levels[line.start + j] = para.level;
             }
         }
 
@@ -363,7 +363,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +371,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From fcd1ba65b6aea270688685f07b33bf9a12f4c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 06/23] fix: default Bidi_Class of unassigned U+086B..U+086F is
 AL

DerivedBidiClass-10.0.0.txt gives the Syriac Supplement block the default AL.
---
 gen/src/writer/ucd/bidi.rs          | 1 +
 unic/ucd/bidi/tables/bidi_class.rsv | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gen/src/writer/ucd/bidi.rs b/gen/src/writer/ucd/bidi.rs
index 78b77e1..c8e234d 100644
--- a/gen/src/writer/ucd/bidi.rs
+++ b/gen/src/writer/ucd/bidi.rs
@@ -33,6 +33,7 @@ pub fn generate(dir: &Path) {
 // Ref: <https://www.unicode.org/Public/UNIDATA/extracted/DerivedBidiClass.txt>
 const BIDI_CLASS_DEFAULTS: &[(u32, u32, &str)] = &[
     (0x0600, 0x07BF, "AL"),
+    (0x0860, 0x086F, "AL"),
     (0x08A0, 0x08FF, "AL"),
     (0xFB50, 0xFDCF, "AL"),
     (0xFDF0, 0xFDFF, "AL"),
diff --git a/unic/ucd/bidi/tables/bidi_class.rsv b/unic/ucd/bidi/tables/bidi_class.rsv
index 6d65f54..bc9a7c5 100644
--- a/unic/ucd/bidi/tables/bidi_class.rsv
+++ b/unic/ucd/bidi/tables/bidi_class.rsv
@@ -143,8 +143,8 @@ CharDataTable::Range(&[
     (chars!('\u{82e}'..='\u{858}'), R),
     (chars!('\u{859}'..='\u{85b}'), NSM),
     (chars!('\u{85c}'..='\u{85f}'), R),
-    (chars!('\u{860}'..='\u{86a}'), AL),
-    (chars!('\u{86b}'..='\u{89f}'), R),
+    (chars!('\u{860}'..='\u{86f}'), AL),
+    (chars!('\u{870}'..='\u{89f}'), R),
     (chars!('\u{8a0}'..='\u{8d3}'), AL),
     (chars!('\u{8d4}'..='\u{8e1}'), NSM),
     (chars!('\u{8e2}'..='\u{8e2}'), AN),
-- 
2.43.0


From f2d7c4f99999f30832db6a4a9fe3ceb8841d092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 07/23] fix: deserializing a bidi level refuses out-of-range
 numbers

---
 unic/bidi/src/level.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..edeb21a 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -32,7 +32,21 @@ use unic_ucd_bidi::BidiClass;
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-pub struct Level(u8);
+pub struct Level(
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_number"))] u8,
+);
+
+/// Read a level number, refusing numbers that are not valid.
+#[cfg(feature = "serde")]
+fn deserialize_number<'de, D>(deserializer: D) -> Result<u8, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let number = <u8 as ::serde::Deserialize>::deserialize(deserializer)?;
+    Level::new(number)
+        .map(|level| level.number())
+        .map_err(|_| <D::Error as ::serde::de::Error>::custom("embedding level out of range"))
+}
 
 /// LTR level with smallest number value (0).
 pub const LTR_LEVEL: Level = Level(0);
-- 
2.43.0


From 8057562c44023a5d73d6d98dbb502a3ae6522c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 08/23] fix: reordering a bidi line that is entirely at level
 126 panicked

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 16ed2b2..e830d45 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -357,7 +357,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // All of the line is at the highest (even) level: nothing to reverse.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From 1d61b1ba0fd9728d7e47cf3731a3eb9823073a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 09/23] fix: punycode decoding refuses non-ASCII before the
 last delimiter

---
 unic/idna/punycode/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..d0b838b 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -75,6 +75,7 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
+        Some(position) if !input[..position].is_ascii() => return None,
         Some(position) => (
             input[..position].chars().collect(),
             if position > 0 {
-- 
2.43.0


From 8213d70b2513e11d5a7376a62b010c95ad729893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 10/23] fix: punycode encoding reports overflow of the delta
 instead of panicking

---
 unic/idna/punycode/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index d0b838b..366bb5b 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -174,7 +174,7 @@ pub fn encode(input: &[char]) -> Option<String> {
         output.push_str("-")
     }
     let mut code_point = INITIAL_N;
-    let mut delta = 0;
+    let mut delta: u32 = 0;
     let mut bias = INITIAL_BIAS;
     let mut processed = basic_length;
     let input_length = input.len() as u32;
@@ -196,10 +196,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
@@ -227,7 +227,10 @@ pub fn encode(input: &[char]) -> Option<String> {
                 processed += 1;
             }
         }
-        delta += 1;
+        delta = match delta.checked_add(1) {
+            Some(delta) => delta,
+            None => return None, // Overflow
+        };
         code_point += 1;
     }
     Some(output)
-- 
2.43.0


From e4d0c195462fb2010da1b65a5fa491972998e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 11/23] fix: IDNA bidi rules apply when mapping produces the
 right-to-left characters

U+2135 ALEF SYMBOL and its neighbours are left-to-right and map to Hebrew letters.
---
 unic/idna/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..a68bb9b 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -223,8 +223,8 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
 
     // Find out if it's a Bidi Domain Name
     //
-    // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    // First, check for literal bidi chars, after mapping (which can produce them)
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From 103286566d326a33a8e3fdda213f970bee6621cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 12/23] fix: to_unicode keeps a label whose punycode cannot be
 decoded

---
 unic/idna/src/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index a68bb9b..c368445 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,7 +265,11 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    // Record the error and keep the label as it is
+                    errors.push(Error::PunycodeError);
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From 3cfa865cf3bc341f562c7eaa64ece531a8be2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 13/23] fix: IDNA refuses a punycode label that decodes to
 another one

---
 unic/idna/src/process.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index c368445..e3c2eaa 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -262,6 +262,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                         transitional_processing: false,
                         ..flags
                     };
+                    if decoded_label.starts_with(PUNYCODE_PREFIX) {
+                        // Would be decoded again
+                        errors.push(Error::ValidityCriteria);
+                    }
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-- 
2.43.0


From 70c2ef5a1e6f1fd46e3624756198e5f5d6930f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 14/23] fix: parallel iteration of ranges that start after the
 surrogates

---
 unic/char/range/src/par_iter.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..a30fbeb 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,14 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        let compact = |ch: char| {
+            if ch >= AFTER_SURROGATE {
+                ch as u32 - SKIP_LENGTH
+            } else {
+                ch as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From 25bde75940155dd843b41d37ab6189ad6e5e8ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 15/23] fix: StrBidiClass::has_ltr looked for right-to-left
 characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 70c514dd44137031e615a970c225a405b2752619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 16/23] fix: Age sorts in the order in which it compares

---
 unic/ucd/age/src/age.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..8e14cf0 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -83,13 +83,15 @@ impl Age {
     }
 }
 
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        other.0.cmp(&self.0)
+    }
+}
+
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From dc62b508dd9ed29a3a9a146bd786e55c62dbc85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 17/23] fix: Name is ordered like the names it displays

---
 unic/ucd/name/src/name.rs | 68 ++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/unic/ucd/name/src/name.rs b/unic/ucd/name/src/name.rs
index 8256764..011458d 100644
--- a/unic/ucd/name/src/name.rs
+++ b/unic/ucd/name/src/name.rs
@@ -129,6 +129,36 @@ impl Name {
         }
         jamos
     }
+
+    /// The bytes of the displayed name.
+    fn bytes(&self) -> impl Iterator<Item = u8> {
+        let no_jamos = [None; JAMO_BUFFER_SIZE];
+        let no_pieces: &'static [&'static str] = &[];
+        let (prefix, jamos, code_point, digits, pieces) = match *self {
+            Name::NR1(ch) => {
+                let jamos = Name::collect_jamo_short_names(ch);
+                (PREFIX_HANGUL_SYLLABLE, jamos, 0, 0, no_pieces)
+            }
+            Name::NR2(prefix, ch) => {
+                let digits = Name::number_of_hex_digits(ch);
+                (prefix, no_jamos, ch as u32, digits, no_pieces)
+            }
+            Name::NR3(pieces) => ("", no_jamos, 0, 0, pieces),
+        };
+        let jamos = (0..JAMO_BUFFER_SIZE).filter_map(move |index| jamos[index]);
+        let digits = (0..digits)
+            .rev()
+            .map(move |index| b"0123456789ABCDEF"[(code_point >> (4 * index)) as usize & 0xF]);
+        let pieces = pieces.iter().enumerate().flat_map(|(index, piece)| {
+            let separator = if index == 0 { "" } else { " " };
+            separator.bytes().chain(piece.bytes())
+        });
+        prefix
+            .bytes()
+            .chain(jamos.flat_map(str::bytes))
+            .chain(digits)
+            .chain(pieces)
+    }
 }
 
 impl fmt::Display for Name {
@@ -165,44 +195,10 @@ impl fmt::Display for Name {
     }
 }
 
+/// Names are ordered as the strings they display as.
 impl Ord for Name {
     fn cmp(&self, other: &Name) -> Ordering {
-        match *self {
-            Name::NR1(ch) => match *other {
-                Name::NR1(other_ch) => {
-                    let jamos = Name::collect_jamo_short_names(ch);
-                    let other_jamos = Name::collect_jamo_short_names(other_ch);
-                    jamos.cmp(&other_jamos)
-                }
-                Name::NR2(other_prefix, _) => PREFIX_HANGUL_SYLLABLE.cmp(other_prefix),
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    PREFIX_HANGUL_SYLLABLE.cmp(first)
-                }
-            },
-            Name::NR2(prefix, ch) => match *other {
-                Name::NR1(_) => prefix.cmp(PREFIX_HANGUL_SYLLABLE),
-                Name::NR2(other_prefix, other_ch) => {
-                    if prefix == other_prefix {
-                        ch.cmp(&other_ch)
-                    } else {
-                        prefix.cmp(other_prefix)
-                    }
-                }
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    prefix.cmp(first)
-                }
-            },
-            Name::NR3(pieces) => {
-                let (first, _) = pieces.split_first().unwrap();
-                match *other {
-                    Name::NR1(_) => first.cmp(&PREFIX_HANGUL_SYLLABLE),
-                    Name::NR2(other_prefix, _) => first.cmp(&other_prefix),
-                    Name::NR3(other_pieces) => pieces.cmp(other_pieces),
-                }
-            }
-        }
+        self.bytes().cmp(other.bytes())
     }
 }
 
-- 
2.43.0


From af972c690fe59459b62cc605998f44f36bdac8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 18/23] fix: SentenceBreak::Extend is abbreviated EX

---
 unic/ucd/segment/src/sentence_break.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/segment/src/sentence_break.rs b/unic/ucd/segment/src/sentence_break.rs
index 8f1ffc2..5b622c8 100644
--- a/unic/ucd/segment/src/sentence_break.rs
+++ b/unic/ucd/segment/src/sentence_break.rs
@@ -57,7 +57,7 @@ char_property! {
         /// General_Category = Spacing_Mark
         /// ```
         Extend {
-            abbr => Extend,
+            abbr => EX,
             long => Extend,
             human => "Extend",
         }
-- 
2.43.0


From 96b47b8fab00e2fa89e7854755f096d9c629c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 19/23] fix: unic-gen reads property lines without a space
 before the semicolon

Ranges in planes 15 and 16 fill the column ("10FFFE..10FFFF; ..."), and
the pattern, which demanded a space, skipped such lines silently.
---
 gen/src/source/ucd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/source/ucd/mod.rs b/gen/src/source/ucd/mod.rs
index e130e88..42a6279 100644
--- a/gen/src/source/ucd/mod.rs
+++ b/gen/src/source/ucd/mod.rs
@@ -30,7 +30,7 @@ lazy_static! {
         r"(?xm)^
           ([[:xdigit:]]{4,6})        # low
           (?:..([[:xdigit:]]{4,6}))? # high
-          \s+;\s+
+          \s*;\s*
           (\w+)                      # property
          ",
     )
-- 
2.43.0


From 8a10f13cd4631e47d5f08f1972341da9bcdc8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 20/23] fix: unic-echo reports a failure to write output
 without newline

---
 apps/cli/src/bin/unic-echo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/cli/src/bin/unic-echo.rs b/apps/cli/src/bin/unic-echo.rs
index d0939b0..bb203fa 100644
--- a/apps/cli/src/bin/unic-echo.rs
+++ b/apps/cli/src/bin/unic-echo.rs
@@ -195,5 +195,8 @@ fn run() -> Result<()> {
         writeln!(output)?;
     }
 
+    // Standard output is line-buffered, and errors in flushing it at exit are not reported.
+    output.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 81ddffaf9dca9423f892199dd81cc59d17ba1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 21/23] fix: GraphemeCursor reports InvalidOffset for a chunk
 without the cursor

next_boundary and prev_boundary, and is_boundary when the character after
the cursor was already known, panicked instead of returning the error
documented for this.
---
 unic/segment/src/grapheme.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 21b634d..f1a29e8 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -473,6 +473,11 @@ impl GraphemeCursor {
         };
     }
 
+    /// Is the cursor in the chunk, or at its end?
+    fn is_in_chunk(&self, chunk: &str, chunk_start: usize) -> bool {
+        chunk_start <= self.offset && self.offset <= chunk_start + chunk.len()
+    }
+
     fn is_boundary_result(&self) -> Result<bool, GraphemeIncomplete> {
         if self.state == GraphemeState::Break {
             Ok(true)
@@ -587,8 +592,8 @@ impl GraphemeCursor {
         if self.state == GraphemeState::NotBreak {
             return Ok(false);
         }
-        if (self.offset < chunk_start || self.offset >= chunk_start + chunk.len())
-            && (self.offset > chunk_start + chunk.len() || self.cat_after.is_none())
+        if !self.is_in_chunk(chunk, chunk_start)
+            || (self.offset == chunk_start + chunk.len() && self.cat_after.is_none())
         {
             return Err(GraphemeIncomplete::InvalidOffset);
         }
@@ -653,6 +658,9 @@ impl GraphemeCursor {
         if self.offset == self.len {
             return Ok(None);
         }
+        if !self.is_in_chunk(chunk, chunk_start) {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[self.offset - chunk_start..].chars();
         let mut ch = match iter.next() {
             Some(ch) => ch,
@@ -735,6 +743,9 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if !self.is_in_chunk(chunk, chunk_start) {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = match iter.next() {
             Some(ch) => ch,
-- 
2.43.0


From bb0d5cb8bb30f01811719cec8c93927037d046b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 22/23] fix: Stop reading ahead when a decomposition holds the
 next starter

A character that decomposes to several starters with a mark between them
(U+3340 and other square katakana words) made NFKD and NFKC read one
more character of the source for every such mark, without bound.
---
 unic/normal/src/decompose.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unic/normal/src/decompose.rs b/unic/normal/src/decompose.rs
index 2516c91..0c090e6 100644
--- a/unic/normal/src/decompose.rs
+++ b/unic/normal/src/decompose.rs
@@ -88,6 +88,13 @@ impl<I: Iterator<Item = char>> Iterator for Decompositions<I> {
             _ => self.sorted = false,
         }
 
+        // One source character may decompose to several starters; the marks up to the next starter
+        // are complete as soon as that starter is in the buffer.
+        if self.buffer.iter().any(|(_, ccc)| ccc.is_not_reordered()) {
+            canonical_sort(&mut self.buffer);
+            self.sorted = true;
+        }
+
         if !self.sorted {
             for ch in self.iter.by_ref() {
                 let buffer = &mut self.buffer;
-- 
2.43.0


From 2a4e3107f379d7d3aeeeabb4f1fb7925fc5d3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 23/23] fix: Sort long runs of combining marks in less than
 quadratic time

The bubble sort took seconds for a run of some ten thousand marks.
---
 unic/normal/src/decompose.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/unic/normal/src/decompose.rs b/unic/normal/src/decompose.rs
index 0c090e6..c6a23da 100644
--- a/unic/normal/src/decompose.rs
+++ b/unic/normal/src/decompose.rs
@@ -16,21 +16,15 @@ use unic_ucd_normal::{decompose_canonical, decompose_compatible, CanonicalCombin
 
 // Helper functions used for Unicode normalization
 fn canonical_sort(comb: &mut VecDeque<(char, CanonicalCombiningClass)>) {
-    let len = comb.len();
-    for i in 0..len {
-        let mut swapped = false;
-        for j in 1..len - i {
-            let class_a = comb[j - 1].1;
-            let class_b = comb[j].1;
-            if class_a.is_reordered() && class_b.is_reordered() && class_a > class_b {
-                comb.swap(j - 1, j);
-                swapped = true;
-            }
-        }
-        if !swapped {
-            break;
-        }
+    if comb.len() < 2 {
+        return;
+    }
+    let mut chars: Vec<_> = comb.drain(..).collect();
+    for marks in chars.split_mut(|(_, ccc)| ccc.is_not_reordered()) {
+        // The sort is stable: marks of the same class keep their order
+        marks.sort_by_key(|&(_, ccc)| ccc);
     }
+    comb.extend(chars);
 }
 
 #[derive(Clone, Debug)]
-- 
2.43.0

