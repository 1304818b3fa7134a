From 3295c5cfea818548c4d90dba57822ad25f90d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 01/30] fix: keep the back map aligned when lowercasing expands
 a character

---
 src/dnm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..4be48d3 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,14 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // lowercasing can replace a character by multiple characters (e.g. 'İ')
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0


From f5b5cfd3f940c722ee8cb0319b44e41019e15c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 02/30] fix: apply class rules in class attribute order instead
 of a random one

---
 src/dnm/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 4be48d3..772f2a6 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -324,8 +324,10 @@ impl DNM {
       // recurse_node_create
       let mut rules = Vec::new();
       // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // (in the order of the class attribute, so that the first match is well-defined)
+      let class_attr = node.get_property("class").unwrap_or_default();
+      for classname in class_attr.split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From 349de9a4a62c05c1b569a6d9e8df1debe72fc58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 03/30] fix: trim ranges by characters, not bytes

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From 1b9d4c0dd181796f6f487a70aafb08126f4757fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 04/30] fix: an empty byte interval gives an empty subrange

---
 src/dnm/range.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..c926733 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -89,12 +89,20 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     rel_start: usize,
     rel_end: usize,
   ) -> DNMRange<'dnmrange> {
+    let start = self.byte_offset_bisection(
+      self.dnm.byte_offsets[self.start] + rel_start,
+      self.start,
+      self.end,
+    );
+    if rel_start == rel_end {
+      return DNMRange {
+        start,
+        end: start,
+        dnm: self.dnm,
+      };
+    }
     DNMRange {
-      start: self.byte_offset_bisection(
-        self.dnm.byte_offsets[self.start] + rel_start,
-        self.start,
-        self.end,
-      ),
+      start,
       end: self.byte_offset_bisection(
         self.dnm.byte_offsets[self.start] + rel_end - 1,
         self.start,
-- 
2.43.0


From 2b9f1a5ff030bf0005e4db2548c3d80125b7573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 05/30] fix: serialize range ends before a replaced node and at
 the end of the plaintext

---
 src/dnm/range.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index c926733..415b1e3 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -148,14 +148,33 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     if !self.dnm.parameters.support_back_mapping {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
-    let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
     DNMRange::create_arange(
-      &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
-      &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
+      &self.serialize_position(self.start, false),
+      &self.serialize_position(self.end, true),
     )
   }
 
+  /// serializes a plaintext position into an xpointer
+  fn serialize_position(&self, position: usize, is_end: bool) -> String {
+    let dnm = self.dnm;
+    let (node, offset, is_end) = match dnm.back_map.get(position) {
+      Some(&(node, offset)) => {
+        // an interval that ends right before a replaced node doesn't include (any of) it
+        let starts_here = dnm
+          .get_range_of_node(node)
+          .map_or(false, |range| range.start == position);
+        (node, offset, is_end && !starts_here)
+      },
+      None => {
+        // the end of the plaintext, i.e. right after its last character
+        let (node, offset) = dnm.back_map[position - 1];
+        let next_offset = if offset < 0 { offset } else { offset + 1 };
+        (node, next_offset, is_end)
+      },
+    };
+    DNMRange::serialize_offset(dnm.root_node, node, offset, is_end)
+  }
+
   /// creates an arange from to xpointers
   pub fn create_arange(from: &str, to: &str) -> String { format!("arange({from},{to})") }
 
-- 
2.43.0


From bab84f9c8d49188cb1f0f812da7c198cea77968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 06/30] fix: XPointers of elements with ids, namespaces or
 comments next to them name the right node

---
 src/dnm/range.rs | 55 ++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 415b1e3..b0d797e 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -194,45 +194,44 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
+    if is_end && node != root_node && !node.is_text_node() {
+      // the interval ends after the node, i.e. where the next one starts
+      if let Some(next) = get_next_sibling(root_node, node) {
+        return DNMRange::serialize_node(root_node, next, false);
+      }
+    }
     match node.get_property("id") {
       None => {
         if node == root_node {
           return "/".to_string();
         }
+        let parent = node.get_parent().unwrap();
+        let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
         if node.is_text_node() {
-          let parent = node.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
           format!(
             "{}/text()[{}]",
             base,
             get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
           )
         } else {
-          let act = if is_end {
-            get_next_sibling(root_node, node).unwrap_or(node)
-          } else {
-            node
+          let name = node.get_name();
+          let namespace = node
+            .get_namespace()
+            .map(|ns| (ns.get_prefix(), ns.get_href()));
+          let (test, any_namespace) = match namespace {
+            // default namespace without prefix
+            Some((ref prefix, _)) if prefix.is_empty() => (format!("*[local-name() = '{name}']"), true),
+            Some((ref prefix, _)) => (format!("{prefix}:{name}"), false),
+            None => (name.clone(), false),
           };
-          let parent = act.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
-          format!(
-            "{}/{}[{}]",
-            base,
-            if act.is_text_node() {
-              "text()".to_string()
-            } else if let Some(ns) = act.get_namespace() {
-              let prefix = ns.get_prefix();
-              if prefix.is_empty() {
-                // default namespace without prefix
-                format!("*[local-name() = '{}']", act.get_name())
-              } else {
-                format!("{}:{}", prefix, act.get_name())
-              }
-            } else {
-              act.get_name()
-            },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
-          )
+          let href = namespace.map(|(_, href)| href);
+          // count exactly the siblings selected by the node test
+          let number = get_node_number(parent, node, &|n: RoNode| {
+            n.is_element_node()
+              && n.get_name() == name
+              && (any_namespace || n.get_namespace().map(|ns| ns.get_href()) == href)
+          });
+          format!("{}/{}[{}]", base, test, number.unwrap())
         }
       },
       Some(x) => format!("//*[@id=\"{x}\"]"),
@@ -329,7 +328,9 @@ fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
         get_next_sibling(root_node, node.get_parent().unwrap())
       }
     },
-    Some(n) => Some(n),
+    Some(n) if n.is_text_node() || n.is_element_node() => Some(n),
+    // comments and processing instructions can't be addressed
+    Some(n) => get_next_sibling(root_node, n),
   }
 }
 
-- 
2.43.0


From e98f9c3b8eda327b29e313f568fdf1404838ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 07/30] fix: tokenize by characters, not bytes

---
 src/tokenizer.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..2e30071 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -63,7 +63,7 @@ impl Tokenizer {
     };
     // Don't consider single letters followed by a punctuation sign an end of a
     // sentence, Also "a.m." and "p.m." shouldn't get split
-    ((lw_word.len() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
+    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
   }
 
   // TODO: Reduce complexity, this tokenization pass is terribly overengineered
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -319,7 +319,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range.get_subrange(start + 1, end).get_plaintext() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -338,18 +338,18 @@ impl Tokenizer {
     for c in text_iterator {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +384,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From c828cce8195ea70c05983ca04644d6fe777bc635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 08/30] fix: no empty token after a lone apostrophe

---
 src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 2e30071..5e1ae75 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -328,7 +328,10 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          // a lone apostrophe leaves nothing behind
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From b87f50c9fa559ad83a9e46f3630952b9c02eba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 09/30] fix: keep a last sentence whose final characters hold
 no letter

---
 src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5e1ae75..455d8af 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -266,9 +266,9 @@ impl Tokenizer {
     }
 
     end = cmp::min(end, text.chars().count());
-    let last_left_window: String = left_window.into_iter().collect();
-    if last_left_window.find(char::is_alphabetic).is_some() {
-      sentences.push(DNMRange { start, end, dnm }.trim());
+    let last_range = DNMRange { start, end, dnm };
+    if last_range.get_plaintext().contains(char::is_alphabetic) {
+      sentences.push(last_range.trim());
     }
 
     // Filter out edge cases that return empty ranges
-- 
2.43.0


From e2cca13c28e380a540558db3ce36138a0e6fb2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 10/30] fix: blank annotations contribute no lexeme

---
 src/dnm/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..80237c6 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -59,6 +59,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
         .collect::<Vec<String>>()
         .join(" ")
     })
+    .filter(|lexemes| !lexemes.is_empty())
     .collect::<Vec<String>>()
     .join(" ");
   if !lexemes.is_empty() {
-- 
2.43.0


From 247f23107ae86786a7044a39f165f53a72be6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 11/30] fix: count anchored n-grams for exactly the words
 within reach of an anchor

---
 src/ngrams.rs | 54 +++++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..47ed010 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -56,12 +56,6 @@ impl Default for Ngrams {
   }
 }
 
-#[derive(Debug, Copy, Clone, PartialEq)]
-enum AnchorSide {
-  Left,
-  Right,
-}
-
 impl Ngrams {
   /// Get the word count
   pub fn get(&self, word: &str) -> usize {
@@ -99,40 +93,32 @@ impl Ngrams {
   /// flexibly looking for no-justification cutoffs, where a continuous word sequence is recorded
   /// for ngram counts
   pub fn add_anchored_content(&mut self, content: &str) {
-    // content to add through the ngram builder
-    let mut continuous_buffer = Vec::new();
-    let mut context_window = CircularQueue::with_capacity(self.window_size);
-    let mut words_since_anchor_seen = 0;
-    let mut side = AnchorSide::Left;
-
-    for w in content
+    let anchor = match self.anchor {
+      Some(ref anchor) => anchor.as_str(),
+      None => return,
+    };
+    let words: Vec<&str> = content
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
-    {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
-      let anchor = self.anchor.as_ref().unwrap();
-      if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
-        words_since_anchor_seen = 0;
-        side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
-        context_window.clear();
+      .collect();
+    // mark the words that are justified by some anchor word
+    let mut justified = vec![false; words.len()];
+    for (index, _) in words.iter().enumerate().filter(|&(_, w)| *w == anchor) {
+      let from = index.saturating_sub(self.window_size);
+      let to = index.saturating_add(self.window_size).min(words.len() - 1);
+      justified[from..=to].fill(true);
+    }
+    // record each continuous sequence of justified words
+    let mut continuous_buffer = Vec::new();
+    for (w, is_justified) in words.into_iter().zip(justified) {
+      if is_justified {
+        continuous_buffer.push(w);
       } else {
-        words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
-          self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
-        }
+        self.record_words(std::mem::take(&mut continuous_buffer));
       }
     }
     // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
-    self.record_words(std::mem::take(&mut continuous_buffer));
+    self.record_words(continuous_buffer);
   }
 
   /// Take an arbitrarily long vector of words, and record all (overlapping) ngrams obtainable from
-- 
2.43.0


From cbb567ddf2e2dcde8217ce8a866f827916cb003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 12/30] fix: heading normalization removes words without fusing
 their neighbours

---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..9823458 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -128,13 +128,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From 892c95a9e2b27b46b3cbfba399f3c66e283d615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 13/30] fix: keep the case of words unless it is to be
 discarded

---
 src/util/data_helpers.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 9823458..48deb7b 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,34 +59,34 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
-  let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
-      .chars()
-      .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
-      .collect::<String>()
-  } else {
-    range.get_plaintext().to_lowercase()
-  };
+  let mut word_string = range.get_plaintext().to_string();
+  if options.discard_case {
+    word_string = word_string.to_lowercase();
+  }
+  if options.discard_punct {
+    // drop apostrophes, other noise?
+    word_string.retain(|c| c.is_alphanumeric());
+  }
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
     // errors with lost whitespace - drop the entire paragraph when this occurs.
     return Err("exceeded max length".into());
   }
 
+  // recognize the special words regardless of case, as it may have been kept
+  let folded = word_string.to_lowercase();
   // Note: the formula and citation counts are an approximate lower bound, as
   // sometimes they are not cleanly tokenized, e.g. $k$-dimensional
   // will be the word string "mathformula-dimensional"
-  if word_string.contains("mathformula") {
+  if folded.contains("mathformula") {
     if options.discard_math {
       word_string = String::new();
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if folded.contains("citationelement") {
     word_string = String::from("citationelement");
-  } else if IS_NUMERIC.is_match(&word_string) {
+  } else if IS_NUMERIC.is_match(&folded) {
     word_string = String::from("NUM");
   }
 
-- 
2.43.0


From 957869a7dec645956b96ea19d38c9bad8abdc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 14/30] fix: environments named caption are captions

---
 src/ams.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ams.rs b/src/ams.rs
index c4dd199..18d8b55 100644
--- a/src/ams.rs
+++ b/src/ams.rs
@@ -471,7 +471,7 @@ pub fn normalize_env(env: &str) -> AmsEnv {
     | "standingassumption"
     | "subsubaxiom" => AmsEnv::Assumption,
     "bound" => AmsEnv::Bound,
-    "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
+    "caption" | "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
     | "tabel" | "tabl" | "tabla" | "table" | "tldiag" => AmsEnv::Caption,
     "case" | "case1" | "case2" | "case3" | "caseone" | "casestudy" | "casetwo"
     | "innercustomcase" | "mycase" | "scase" | "sscase" | "subcase" | "subcase2" | "subsubcase"
-- 
2.43.0


From a76ea00ed6ba0f9ece051e41d55e04c65abc0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 15/30] fix: skip unparseable documents when walking a corpus
 sequentially

---
 src/data.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..3183e5c 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -142,15 +142,10 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         };
         if selected {
           let path = entry.path().to_str().unwrap_or("").to_owned();
-          let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match Document::new(path.clone(), self.corpus) {
+            Ok(doc) => return Some(doc),
+            Err(e) => println!("-- Skipping unparseable document {path:?}: {e:?}"),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
-- 
2.43.0


From 259fdc7f7022ce68149ed15bfe55c626457b729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 16/30] fix: skip unparseable documents in parallel corpus
 walks

---
 src/parallel_data/corpus.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..c980713 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -76,16 +76,22 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(HashMap::new, |mut map1, map2| {
         for (k, v) in map2 {
@@ -124,16 +130,22 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
         for (k, v) in map21 {
-- 
2.43.0


From 6efe25f5b8ae60a22439ee25ef040d0dafce4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 17/30] fix: an unreadable document has no words instead of
 panicking

---
 src/util/path_helpers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/path_helpers.rs b/src/util/path_helpers.rs
index a68dac5..ce5514f 100644
--- a/src/util/path_helpers.rs
+++ b/src/util/path_helpers.rs
@@ -9,7 +9,10 @@ use crate::util::data_helpers::LexicalOptions;
 /// Given a path to a document, return a word-tokenized string of all of its paragraphs
 pub fn path_to_words(path: String) -> String {
   let corpus = Corpus::default();
-  let mut document = Document::new(path, &corpus).unwrap();
+  let mut document = match Document::new(path, &corpus) {
+    Ok(document) => document,
+    Err(_) => return String::new(), // nothing readable, no words
+  };
   let mut context = Context::new(&document.dom).unwrap();
 
   // We will tokenize each logical paragraph, which are the textual logical units
-- 
2.43.0


From 82b93c87177bf8d5f7e1cc5372f02e44bba3d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 18/30] fix: directories named like documents are not documents

---
 src/data.rs                 | 3 ++-
 src/parallel_data/corpus.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 3183e5c..c66b9fc 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -140,7 +140,8 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         } else {
           file_name.ends_with(".html") || file_name.ends_with(".xhtml")
         };
-        if selected {
+        // directories are no documents, however they are named
+        if selected && !entry.path().is_dir() {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           match Document::new(path.clone(), self.corpus) {
             Ok(doc) => return Some(doc),
diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index c980713..fd0f1a5 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -64,7 +64,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // directories are no documents, however they are named
+          if selected && !entry.path().is_dir() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
@@ -118,7 +119,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // directories are no documents, however they are named
+          if selected && !entry.path().is_dir() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
-- 
2.43.0


From a26011391b417e643125ad84ff1e341213475767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 19/30] fix: word_not matches the words its pattern does not
 match

---
 src/patterns/matching.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..26ab964 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -443,11 +443,13 @@ fn match_word<'t>(
       matched: true,
     },
     WordPattern::WordNot(ref p) => {
-      let m = match_word(pf, p, word, range);
-      if m.matched {
-        m
-      } else {
+      if match_word(pf, p, word, range).matched {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From 730315cb834a491ec8e8a8cb637ad7ae6d629cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 20/30] fix: math_descendant searches all descendants, not only
 the children

---
 src/patterns/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 26ab964..4ab6d16 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -595,7 +595,7 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
             matched: true,
           };
         }
-        let m = match_math(pf, pattern, child);
+        let m = match_math(pf, rule, child);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
-- 
2.43.0


From 835b196fdcbf3aaaf588242f269117b0188e1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 21/30] fix: word offsets of a sentence analysis are bytes, not
 characters

---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 4ab6d16..6eeee2a 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -315,7 +315,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -410,7 +410,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let word_range =
+        range.get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end());
+      let node = range.dnm.back_map[word_range.start].0;
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -458,7 +460,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From 8395ba450696c69567e5f6e420f56dc9f600d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 22/30] fix: a marked sequence that matches no words has an
 empty range

---
 src/patterns/matching.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 6eeee2a..7080e8b 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -311,14 +311,24 @@ fn match_seq<'t>(
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
       if m.matched {
+        let words = sentence.get_words();
+        let marked_range = if m.end > pos {
+          range.get_subrange_from_byte_offsets(
+            words[pos].get_offset_start(),
+            words[m.end - 1].get_offset_end(),
+          )
+        } else if pos < words.len() {
+          // nothing was matched before the word at `pos`
+          let offset = words[pos].get_offset_start();
+          range.get_subrange_from_byte_offsets(offset, offset)
+        } else {
+          range.get_subrange(range.end - range.start, range.end - range.start)
+        };
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange_from_byte_offsets(
-                sentence.get_words()[pos].get_offset_start(),
-                sentence.get_words()[m.end - 1].get_offset_end(),
-              ),
+              range: marked_range,
             }),
             sub_matches: m._matches,
           }],
-- 
2.43.0


From b09388a40b16d27faa3ee0155e4e1797e5638dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 23/30] fix: word_any takes no children, like math_any and
 mtext_any

---
 src/patterns/rules.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 78c3875..3fc5cd1 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -607,7 +607,10 @@ impl WordPattern {
         get_only_child(node)?,
         pctx,
       )?)),
-      "word_any" => Ok(WordPattern::AnyWord),
+      "word_any" => {
+        assert_no_child(node)?;
+        Ok(WordPattern::AnyWord)
+      },
       "word_not" => Ok(WordPattern::WordNot(Box::new(WordPattern::load_from_node(
         get_only_child(node)?,
         pctx,
-- 
2.43.0


From 59288c4396efbb403a774c62d363593cebdb5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 24/30] fix: a document without a root element has no sentences
 and no selected nodes, instead of panicking

---
 src/data.rs                   |  6 +++++-
 src/parallel_data/document.rs | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index c66b9fc..75bce09 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -261,7 +261,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // A document without a root element (e.g. an empty file) has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     SentenceIterator {
       walker: sentences.into_iter(),
       document: self,
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c742623..5a0d5e0 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -144,7 +144,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // A document without a root element (e.g. an empty file) has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     DNMRangeIterator {
       walker: sentences.into_iter(),
       document: self,
@@ -211,8 +215,13 @@ impl<'d> Document<'d> {
   /// descent)
   pub fn filter_iter(&self, filter: &dyn Fn(&RoNode) -> bool) -> RoNodeIterator {
     // TODO: Can this be lazy? Eager for now...
+    // A document without a root element (e.g. an empty file) has no nodes to select
+    let nodes = match self.dom.get_root_readonly() {
+      Some(root) => Document::dfs_filter_nodes(root, filter),
+      None => Vec::new(),
+    };
     RoNodeIterator {
-      walker: Document::dfs_filter_nodes(self.dom.get_root_readonly().unwrap(), filter).into_iter(),
+      walker: nodes.into_iter(),
       document: self,
     }
   }
-- 
2.43.0


From 9f78f3e18b9a67ff97d6b7cbdb7f79d3a79b0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 25/30] fix: serializing a range that ends with the document
 panicked if a comment follows the root element

---
 src/dnm/range.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index b0d797e..a20e39c 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -319,6 +319,11 @@ fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
 /// Helper function: Returns the next sibling of a node if it exists
 /// (goes up in the tree if required)
 fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
+  if !node.get_parent().map_or(false, |parent| parent.is_element_node()) {
+    // siblings of the document's root element, e.g. a comment at the end of the file, can't be
+    // addressed
+    return None;
+  }
   match node.get_next_sibling() {
     None => {
       if node == root_node {
-- 
2.43.0


From ab8a87c250c91c625cb76d413b8b96e6336c156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 26/30] fix: an entity reference contributes its replacement
 text, not all entities declared after it

---
 src/dnm/c14n.rs               | 4 ++--
 src/dnm/mod.rs                | 3 ++-
 src/parallel_data/document.rs | 6 +++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dnm/c14n.rs b/src/dnm/c14n.rs
index 067ec43..e8e3193 100644
--- a/src/dnm/c14n.rs
+++ b/src/dnm/c14n.rs
@@ -6,7 +6,7 @@ use crate::dnm::DNM;
 use crypto::digest::Digest;
 use crypto::md5::Md5;
 use libxml::readonly::RoNode;
-use libxml::tree::NodeType::{ElementNode, TextNode};
+use libxml::tree::NodeType::{ElementNode, EntityRefNode, TextNode};
 use regex::Regex;
 use std::sync::Mutex;
 
@@ -49,7 +49,7 @@ impl DNM {
     let next_indent_level = indent.map(|level| level + 2);
 
     match node.get_type() {
-      Some(TextNode) => {
+      Some(TextNode) | Some(EntityRefNode) => {
         if let Ok(range) = self.get_range_of_node(node) {
           let text = range.get_plaintext();
           if !text.trim().is_empty() {
diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 772f2a6..83b1240 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -203,7 +203,8 @@ impl DNM {
 
   /// The heart of the dnm generation...
   fn recurse_node_create(&mut self, node: RoNode) {
-    if node.is_text_node() {
+    // The children of an entity reference are the declarations of the DTD, not its replacement text
+    if node.is_text_node() || node.get_type() == Some(NodeType::EntityRefNode) {
       self.text_node_create(node)
     } else {
       self.intermediate_node_create(node)
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index 5a0d5e0..441231f 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -1,6 +1,6 @@
 use libxml::parser::XmlParseError;
 use libxml::readonly::RoNode;
-use libxml::tree::Document as XmlDoc;
+use libxml::tree::{Document as XmlDoc, NodeType};
 use libxml::xpath::Context;
 
 use super::corpus::Corpus;
@@ -205,6 +205,10 @@ impl<'d> Document<'d> {
     if filter(&node) {
       found.push(node);
     }
+    // The children of an entity reference are the declarations of the DTD
+    if node.get_type() == Some(NodeType::EntityRefNode) {
+      return found;
+    }
     for child in node.get_child_nodes().into_iter() {
       found.extend(Document::dfs_filter_nodes(child, filter));
     }
-- 
2.43.0


From a137417bbb3cec1752722fa2a4fe7fff6551fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 27/30] fix: CDATA sections count when text nodes are numbered
 in XPointers

---
 src/dnm/range.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index a20e39c..08cdf57 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -3,6 +3,7 @@
 
 use crate::dnm::DNM;
 use libxml::readonly::RoNode;
+use libxml::tree::NodeType;
 use libxml::xpath::Context;
 
 /// Very often we'll talk about substrings of the plaintext - words, sentences,
@@ -211,7 +212,10 @@ impl<'dnmrange> DNMRange<'dnmrange> {
           format!(
             "{}/text()[{}]",
             base,
-            get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
+            // text() selects CDATA sections as well
+            get_node_number(parent, node, &|n: RoNode| n.is_text_node()
+              || n.get_type() == Some(NodeType::CDataSectionNode))
+            .unwrap()
           )
         } else {
           let name = node.get_name();
-- 
2.43.0


From d119601b957b189b1324bcd5b9f88a7d3a77ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 28/30] fix: an xml:id is not an id attribute in XPointers

---
 src/dnm/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 08cdf57..aca9677 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -201,7 +201,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         return DNMRange::serialize_node(root_node, next, false);
       }
     }
-    match node.get_property("id") {
+    match node.get_property_no_ns("id") {
       None => {
         if node == root_node {
           return "/".to_string();
-- 
2.43.0


From 109c5243933b3c9fe3a8a9b2529649ebf059f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 29/30] fix: XPointers of elements whose ids hold commas,
 quotes or non-ASCII characters can be read back

---
 src/dnm/range.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index aca9677..cc0077a 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -238,6 +238,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
           format!("{}/{}[{}]", base, test, number.unwrap())
         }
       },
+      Some(x) if x.contains('"') => format!("//*[@id='{x}']"),
       Some(x) => format!("//*[@id=\"{x}\"]"),
     }
   }
@@ -257,12 +258,9 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     assert_eq!(&(string[0..7]), "arange(");
     assert_eq!(&(string[string.len() - 1..string.len()]), ")");
 
-    let main_comma = 1
-      + string.find("),").unwrap_or_else(|| {
-        string
-          .find("],")
-          .unwrap_or_else(|| panic!("DNMRange::deserialize: Malformed string: \"{string}\""))
-      });
+    let main_comma = 7
+      + find_separator(&string[7..])
+        .unwrap_or_else(|| panic!("DNMRange::deserialize: Malformed string: \"{string}\""));
 
     let start_str = &string[7..main_comma];
     let end_str = &string[main_comma + 1..string.len() - 1];
@@ -276,10 +274,10 @@ impl<'dnmrange> DNMRange<'dnmrange> {
   /// Gets the plaintext offset corresponding to an XPath/string-index'ed XPointer,
   /// again, does not cover everything!
   fn xpointer_to_offset(string: &str, dnm: &'dnmrange DNM, xpath_context: &Context) -> usize {
-    if string.len() > 13 && &(string[0..13]) == "string-index(" {
-      let comma = string
-        .find(',')
-        .unwrap_or_else(|| panic!("DNM::deserialize_part: Malformed string: \"{string}\""));
+    if string.starts_with("string-index(") {
+      let comma = 13
+        + find_separator(&string[13..])
+          .unwrap_or_else(|| panic!("DNM::deserialize_part: Malformed string: \"{string}\""));
       let node_str = &string[13..comma];
       let node_set = xpath_context.evaluate(node_str).unwrap();
       assert_eq!(node_set.get_number_of_nodes(), 1);
@@ -311,6 +309,25 @@ impl<'dnmrange> DNMRange<'dnmrange> {
  * (DE)?SERIALIZATION HELPER FUNCTIONS
  */
 
+/// Helper function: Finds the comma between two arguments, as opposed to those within quotes or
+/// parentheses
+fn find_separator(arguments: &str) -> Option<usize> {
+  let mut quote = None;
+  let mut depth = 0;
+  for (index, c) in arguments.char_indices() {
+    match (quote, c) {
+      (Some(q), _) if c == q => quote = None,
+      (Some(_), _) => {},
+      (None, '"') | (None, '\'') => quote = Some(c),
+      (None, '(') => depth += 1,
+      (None, ')') => depth -= 1,
+      (None, ',') if depth == 0 => return Some(index),
+      _ => {},
+    }
+  }
+  None
+}
+
 /// Helper function: Gets the start offset of the lowest parent recorded in the
 /// DNM
 fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
-- 
2.43.0


From 10bcc0fd54c6ad4583a8686d6c264a3f7b27ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 30/30] fix: only elements are nodes of a formula, so an entity
 reference in it is not followed into the DTD

---
 src/patterns/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/patterns/utils.rs b/src/patterns/utils.rs
index c57a1e4..46b26f2 100644
--- a/src/patterns/utils.rs
+++ b/src/patterns/utils.rs
@@ -60,7 +60,7 @@ pub fn get_non_text_children(node: RoNode) -> Result<Vec<RoNode>, String> {
   }
 }
 
-/// Returns a vector of the children, skipping comments and text nodes
+/// Returns a vector of the child elements
 pub fn fast_get_non_text_children(node: RoNode) -> Vec<RoNode> {
   let mut cur = node.get_first_child();
   let mut children: Vec<RoNode> = Vec::new();
@@ -69,7 +69,8 @@ pub fn fast_get_non_text_children(node: RoNode) -> Vec<RoNode> {
       return children;
     }
     let cur_ = cur.unwrap();
-    if !cur_.is_text_node() && !is_comment_node(cur_) {
+    // (the children of an entity reference are the declarations of the DTD)
+    if cur_.is_element_node() {
       children.push(cur_);
     }
     cur = cur_.get_next_sibling();
-- 
2.43.0

