From 3cfc1fbf9c7c72c0e27b0b50e5da8f9004e5e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:30 +0000
Subject: [PATCH 01/10] fix: LLSelection::after compares the selection's end
 with the line's end

It tested start_idx + 1, so it returned None for selections in front of the
last token and an out-of-bounds selection at the end of the line.
---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 7efee6d4129a3f0b62c217d30e934e6317fdd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 02/10] fix: trimming a match that reaches token 0 leaves
 nothing

trim/trim_end kept the matched token when the match began at index 0.
---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..51f3d7a 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left if the match reaches the first token of the line
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 6119ced1767b0a7af85912c31bb96a96de7cc133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 03/10] fix: token_has_any going forwards does not panic on a
 token without attributes

Custom tokens given no attributes have no entry for their span.
---
 src/ll_line/x.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..167d413 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,8 +143,7 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
             .filter_map(|value| {
                 if set.contains(value) {
-- 
2.43.0


From 7c38b50a1fcea04bc2c0f21723009c10ff85a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 04/10] fix: token_has_any going backwards only looks at the
 single token

It reported values of longer spans, unlike the forwards direction.
---
 src/ll_line/x.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 167d413..752c6b2 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -246,30 +246,19 @@ impl<'l> XDirection<'l> for XBackwards {
         ll_line: &'l LLLine,
     ) -> Vec<(&'l T, ToIdx)> {
         //        [ ... ] - Current Selection
-        // [ ... ] - Trying to match Attr
         //   [...] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .filter_map(|value| {
+                if set.contains(value) {
+                    Some((value, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From 55795b8fac893a314329f4465427a60286d22cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 05/10] =?UTF-8?q?fix:=20words=20like=202=C3=A8me=20do=20no?=
 =?UTF-8?q?t=20panic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A word starting with a digit may contain non-ASCII letters; the splitting below
works on chars and does not need ASCII.
---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From af1ec9c198c872ba19be162736866b861e523f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 06/10] fix: characters inside digit words get their own tag

'_' in 1_000 and combining marks were tagged as punctuation.
---
 src/create_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 57b924f..5265b54 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -144,7 +144,8 @@ where
                         insert_collected_digits!();
                         let text = String::from(ch);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = get_word_tag::get_unicode_word_tag(&text);
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From cc3f8210b5d2397d1d164db1ef1c7ec87360c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 07/10] fix: AmountResolver::french uses the documented comma
 decimal point

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..0b23c53 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From bd6f65f77e0da74fdd3a92d7a9d916e76f3cf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 08/10] fix: AmountResolver does not panic on numbers too large
 for Decimal

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 0b23c53..575e5ad 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // numbers that do not fit a Decimal get no Amount
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From 3434f64be53833a093d51e0becf12745db063541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 09/10] fix: case-insensitive dictionaries keep the values of
 keys that become equal

Keys equal after lower-casing overwrote each other, in hash order.
---
 src/resolvers/text_match.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..37a51ba 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,21 +20,32 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        // sorted, so that the order of the values of equal keys does not depend on the hashing
+        let mut entries: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
+        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        let mut lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, values) in entries {
+            lookup.entry(key.to_lowercase()).or_default().extend(values);
+        }
+
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup,
         }
     }
-    pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
+    pub fn new_case_insensitive_str_arr<const N: usize>(entries: [(&'static str, T); N]) -> Self {
+        let mut lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in entries.iter() {
+            lookup
+                .entry(key.to_lowercase())
+                .or_default()
+                .push(val.clone());
+        }
+
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup,
         }
     }
 }
-- 
2.43.0


From 6d4332e6a6d0b6eb3aa7ea1979270cf1b4bb4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 10/10] fix: split_by does not return tokens covered by a match

With matches of different lengths (overlapping, or several from one token) the
pieces were taken between neighbouring matches only.
---
 src/ll_line/ll_selection.rs | 39 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 51f3d7a..f2b01cc 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -68,38 +68,19 @@ impl LLSelection {
     pub fn split_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<LLSelection> {
         let matches = self.find_by(matcher);
 
-        if matches.is_empty() {
-            return vec![self.clone()];
-        }
+        let mut pieces = Vec::new();
+        // first token which is not covered by a match yet
+        let mut next_start_idx = self.start_idx;
 
-        if matches.len() == 1 {
-            return matches[0]
-                .0
-                .start_idx
-                .checked_sub(1)
-                .and_then(|end_idx| self.selection_from(self.start_idx, end_idx))
-                .into_iter()
-                .chain(self.selection_from(matches[0].0.end_idx + 1, self.end_idx))
-                .collect();
+        for (found, _) in matches {
+            if let Some(end_idx) = found.start_idx.checked_sub(1) {
+                pieces.extend(self.selection_from(next_start_idx, end_idx));
+            }
+            next_start_idx = next_start_idx.max(found.end_idx + 1);
         }
 
-        let start_opt = matches[0]
-            .0
-            .start_idx
-            .checked_sub(1)
-            .and_then(|end_idx| self.selection_from(self.start_idx, end_idx));
-
-        let end_opt = self.selection_from(matches.last().unwrap().0.end_idx + 1, self.end_idx);
-        start_opt
-            .into_iter()
-            .chain(matches.windows(2).into_iter().filter_map(|m| {
-                m[1].0
-                    .start_idx
-                    .checked_sub(1)
-                    .and_then(|end_idx| self.selection_from(m[0].0.end_idx + 1, end_idx))
-            }))
-            .chain(end_opt)
-            .collect()
+        pieces.extend(self.selection_from(next_start_idx, self.end_idx));
+        pieces
     }
 
     pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
-- 
2.43.0

