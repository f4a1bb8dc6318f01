From 57af92f70765bf38c1c3a3cd54a7714c313926c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 01/15] fix: DNMRange::trim counts characters, not bytes

Range offsets are character offsets; trimming a multi-byte whitespace character moved the border too far.
---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From a87068237a6bd9ab6b773670b48876ac69a715df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 02/15] fix: tokenizer offsets count characters, not bytes

DNMRange offsets are character offsets, but sentences, words and words_and_punct
added up UTF-8 byte lengths, so any multi-byte character before a token shifted
its range or made the tokenizer panic.
---
 src/tokenizer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..3e2f0ab 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -319,7 +319,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range.get_subrange(start + 1, end).get_plaintext() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -338,18 +338,18 @@ impl Tokenizer {
     for c in text_iterator {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +384,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From b4742be95e5a4ff5aa590c5fa7edd3707bb70a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 03/15] fix: no empty token after a detached lone apostrophe in
 words_and_punct

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3e2f0ab..74f2ca9 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -328,7 +328,9 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From d2f49779f205351084ddb5dad345d0b04f4919c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 04/15] fix: blank annotations do not contribute to the lexemes
 of a formula

Several blank annotations produced a string of spaces instead of the fallback word.
---
 src/dnm/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..09d1d20 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -59,6 +59,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
         .collect::<Vec<String>>()
         .join(" ")
     })
+    .filter(|lexeme_words| !lexeme_words.is_empty())
     .collect::<Vec<String>>()
     .join(" ");
   if !lexemes.is_empty() {
-- 
2.43.0


From dbec25269b4ea85d2f62843cd6c42689ab48eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 05/15] fix: a word_not pattern matches when the inner pattern
 does not

---
 src/patterns/matching.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..bcd58f4 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -445,9 +445,12 @@ fn match_word<'t>(
     WordPattern::WordNot(ref p) => {
       let m = match_word(pf, p, word, range);
       if m.matched {
-        m
-      } else {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From 1cee9ce7d977b7eda3415c855bcca85761970f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 06/15] fix: math_descendant considers all descendants, not
 only the children

---
 src/patterns/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index bcd58f4..e86b5d8 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -596,7 +596,7 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
             matched: true,
           };
         }
-        let m = match_math(pf, pattern, child);
+        let m = match_math(pf, rule, child);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
-- 
2.43.0


From 443dd92c3a091a1ede61f8a887ed5897f1663517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 07/15] fix: pattern matching treats senna's word offsets as
 byte offsets

senna parses the UTF-8 plaintext of the sentence, so its word offsets count bytes
(as in data::SennaWordIterator); using them as character offsets marked the wrong
words, or panicked, after a multi-byte character.
---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index e86b5d8..5a1b12c 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -315,7 +315,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -410,7 +410,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let node = range
+        .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end())
+        .get_node();
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -459,7 +461,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From 0d472f887394824548e8df361dfb68baa08a1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 08/15] fix: do not mark an empty sequence match

A marker around a sequence matching no words indexed the word before (or past the
end of) the sentence.
---
 src/patterns/matching.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 5a1b12c..54a1e1a 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -310,7 +310,10 @@ fn match_seq<'t>(
     },
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
-      if m.matched {
+      if m.matched && m.end == pos {
+        // no words were matched, so there is nothing to mark
+        m
+      } else if m.matched {
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-- 
2.43.0


From c14197d4a26291285badbddf2ab9ffad50f3e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 09/15] fix: keep back-map offsets aligned when lowercasing
 expands a character

---
 src/dnm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..119ea41 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,14 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // the lowercase form of a character can consist of several characters
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0


From 8318749e8b5ecc079a3f7bf2d1c07a10938b75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 10/15] fix: record exactly the anchor-justified words in
 add_anchored_content

Words justified by an earlier anchor were dropped when another anchor followed or
at the cutoff, the left context was one word short, and trailing words (or whole
contents) without any anchor in reach were recorded.
---
 src/ngrams.rs | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..6241271 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -56,12 +56,6 @@ impl Default for Ngrams {
   }
 }
 
-#[derive(Debug, Copy, Clone, PartialEq)]
-enum AnchorSide {
-  Left,
-  Right,
-}
-
 impl Ngrams {
   /// Get the word count
   pub fn get(&self, word: &str) -> usize {
@@ -101,37 +95,36 @@ impl Ngrams {
   pub fn add_anchored_content(&mut self, content: &str) {
     // content to add through the ngram builder
     let mut continuous_buffer = Vec::new();
+    // words not (yet) justified by an anchor, the potential left context of the next one
     let mut context_window = CircularQueue::with_capacity(self.window_size);
-    let mut words_since_anchor_seen = 0;
-    let mut side = AnchorSide::Left;
+    // number of upcoming words still justified by the last anchor seen
+    let mut right_context = 0;
 
     for w in content
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
     {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
       let anchor = self.anchor.as_ref().unwrap();
       if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
-        words_since_anchor_seen = 0;
-        side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        // we've hit an anchor word, which justifies the words in the window and itself
+        continuous_buffer.extend(context_window.asc_iter().copied());
         context_window.clear();
+        continuous_buffer.push(w);
+        right_context = self.window_size;
+      } else if right_context > 0 {
+        continuous_buffer.push(w);
+        right_context -= 1;
       } else {
-        words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
+        if context_window.is_full() {
+          // the oldest word of the window is out of reach for any anchor: no-justification cutoff,
+          // record and reset
           self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
         }
+        // add the current word, potentially erasing the oldest word that falls outside the window
+        context_window.push(w);
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
+    // Any remaining justified content should be added
     self.record_words(std::mem::take(&mut continuous_buffer));
   }
 
-- 
2.43.0


From df1904749531823571d4b4caea11dcab90d844d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 11/15] fix: serialize ranges that end at the very end of the
 plaintext

---
 src/dnm/mod.rs   | 12 ++++++++++++
 src/dnm/range.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 119ea41..f01b91d 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -198,6 +198,18 @@ impl DNM {
     self.get_range_of_node(self.root_node)
   }
 
+  /// Get the DOM position of a plaintext offset, where the offset at the very end of the plaintext
+  /// is the position right after the last character
+  fn back_map_position(&self, offset: usize) -> (RoNode, i32) {
+    match self.back_map.get(offset) {
+      Some(&position) => position,
+      None => {
+        let (node, last) = self.back_map[offset - 1];
+        (node, if last < 0 { last } else { last + 1 })
+      },
+    }
+  }
+
   /// Get the underlying text for this DNM
   pub fn get_plaintext(&self) -> &str { &self.plaintext }
 
diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..8c8bf98 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -140,8 +140,8 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     if !self.dnm.parameters.support_back_mapping {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
-    let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
+    let (node1, offset1) = self.dnm.back_map_position(self.start);
+    let (node2, offset2) = self.dnm.back_map_position(self.end);
     DNMRange::create_arange(
       &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
       &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
-- 
2.43.0


From 7fb77b6d7119d4876d5d7ac09ad737608901b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 12/15] fix: apply class rules in the order of the class
 attribute

---
 src/dnm/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index f01b91d..91ce543 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -335,9 +335,10 @@ impl DNM {
       // Start scope of self.parameters borrow, to allow mutable self borrow for
       // recurse_node_create
       let mut rules = Vec::new();
-      // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // First class rules, as more specific, in the order of the class attribute
+      let class_attr = node.get_property("class").unwrap_or_default();
+      for classname in class_attr.split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From d85c332d9be189babb83d3dad73213a29c7ac82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 13/15] fix: count XPointer siblings the way XPath does

---
 src/dnm/range.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 8c8bf98..0edbc32 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -3,6 +3,7 @@
 
 use crate::dnm::DNM;
 use libxml::readonly::RoNode;
+use libxml::tree::NodeType;
 use libxml::xpath::Context;
 
 /// Very often we'll talk about substrings of the plaintext - words, sentences,
@@ -178,7 +179,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
           format!(
             "{}/text()[{}]",
             base,
-            get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
+            get_node_number(parent, node, &|n: RoNode| is_like(n, node)).unwrap()
           )
         } else {
           let act = if is_end {
@@ -204,7 +205,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
             } else {
               act.get_name()
             },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
+            get_node_number(parent, act, &|n: RoNode| is_like(n, act)).unwrap()
           )
         }
       },
@@ -306,6 +307,15 @@ fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
   }
 }
 
+/// Helper function: Checks whether a sibling is selected by the XPath step that selects `target`
+fn is_like(node: RoNode, target: RoNode) -> bool {
+  if target.is_text_node() {
+    node.is_text_node() || node.get_type() == Some(NodeType::CDataSectionNode)
+  } else {
+    node.get_type() == target.get_type() && node.get_name() == target.get_name()
+  }
+}
+
 /// Helper function: Returns the number of a node (the how many-th sibling of
 /// its kind it is)
 fn get_node_number(
-- 
2.43.0


From 09cf3560b09f0ad750a1a0e81bf6304c421b3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 14/15] fix: keep letter case in word normalisation when
 discard_case is not set

---
 src/util/data_helpers.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..3d05587 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,15 +59,18 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
+  let plaintext = if options.discard_case {
+    range.get_plaintext().to_lowercase()
+  } else {
+    range.get_plaintext().to_string()
+  };
   let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
+    plaintext
       .chars()
       .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
       .collect::<String>()
   } else {
-    range.get_plaintext().to_lowercase()
+    plaintext
   };
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
@@ -78,13 +81,14 @@ pub fn ams_normalize_word_range(
   // Note: the formula and citation counts are an approximate lower bound, as
   // sometimes they are not cleanly tokenized, e.g. $k$-dimensional
   // will be the word string "mathformula-dimensional"
-  if word_string.contains("mathformula") {
+  let lowercased = word_string.to_lowercase();
+  if lowercased.contains("mathformula") {
     if options.discard_math {
       word_string = String::new();
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if lowercased.contains("citationelement") {
     word_string = String::from("citationelement");
   } else if IS_NUMERIC.is_match(&word_string) {
     word_string = String::from("NUM");
-- 
2.43.0


From a27c49c7e4f722a934a52211a2d087611d67f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 15/15] fix: recognise the caption environment by its own name

---
 src/ams.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ams.rs b/src/ams.rs
index c4dd199..18d8b55 100644
--- a/src/ams.rs
+++ b/src/ams.rs
@@ -471,7 +471,7 @@ pub fn normalize_env(env: &str) -> AmsEnv {
     | "standingassumption"
     | "subsubaxiom" => AmsEnv::Assumption,
     "bound" => AmsEnv::Bound,
-    "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
+    "caption" | "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
     | "tabel" | "tabl" | "tabla" | "table" | "tldiag" => AmsEnv::Caption,
     "case" | "case1" | "case2" | "case3" | "caseone" | "casestudy" | "casetwo"
     | "innercustomcase" | "mycase" | "scase" | "sscase" | "subcase" | "subcase2" | "subsubcase"
-- 
2.43.0

