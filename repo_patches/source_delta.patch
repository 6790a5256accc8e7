From 7233057d208908b8ac3e6fe3e9cab5859f4d312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 01/16] fix: do not panic on words that start with a digit and
 contain non-ascii characters

---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From 47d795e3f9dcfdfa01f2ecebf5bc1e694055e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 02/16] fix: only tag documented punctuation as PUNC inside
 words that start with a digit

---
 src/create_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 57b924f..d2c4583 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -143,8 +143,9 @@ where
                         insert_collected_letters!();
                         insert_collected_digits!();
                         let text = String::from(ch);
+                        let tag = get_word_tag::get_unicode_word_tag(&text);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From b25ce3a88991f2fea590461f6e37812a82ba4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 03/16] fix: LLSelection::after is None exactly when the
 selection reaches the end of the line

---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From fb9ef1ca26687ddeadf1f86e65447f626e256e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 04/16] fix: trim_end keeps nothing of a match that reaches the
 start of the line

---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..ab07bff 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // the match goes up to the start of the line, nothing is left
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From fba760d5ad7665e62747ab83ec820067b7b97752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 05/16] fix: token_has_any does not panic on custom tokens
 without attributes

---
 src/ll_line/x.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..ac081af 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,8 +143,8 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
+            // custom tokens can have no attribute at all
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
             .filter_map(|value| {
                 if set.contains(value) {
-- 
2.43.0


From e97a075393bb998d8c3e0ecb54a6d9805df1e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 06/16] fix: token_has_any matches a single token backwards
 too, as it does forwards

---
 src/ll_line/x.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index ac081af..151b8cb 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -248,29 +248,18 @@ impl<'l> XDirection<'l> for XBackwards {
     ) -> Vec<(&'l T, ToIdx)> {
         //        [ ... ] - Current Selection
         // [ ... ] - Trying to match Attr
-        //   [...] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
             .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .filter_map(|value| {
+                if set.contains(value) {
+                    Some((value, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From 77bbe33d2b0727bf6752a8600dac465c2584f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 07/16] fix: split_by does not return matched tokens when
 matches overlap

---
 src/ll_line/ll_selection.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index ab07bff..fcb797b 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -89,17 +89,20 @@ impl LLSelection {
             .checked_sub(1)
             .and_then(|end_idx| self.selection_from(self.start_idx, end_idx));
 
-        let end_opt = self.selection_from(matches.last().unwrap().0.end_idx + 1, self.end_idx);
-        start_opt
-            .into_iter()
-            .chain(matches.windows(2).into_iter().filter_map(|m| {
-                m[1].0
+        // matches are ordered by start and can overlap, so the last one isn't always the one going the furthest
+        let mut furthest_end_idx = matches[0].0.end_idx;
+        let mut selections: Vec<LLSelection> = start_opt.into_iter().collect();
+        for (match_sel, _) in &matches[1..] {
+            selections.extend(
+                match_sel
                     .start_idx
                     .checked_sub(1)
-                    .and_then(|end_idx| self.selection_from(m[0].0.end_idx + 1, end_idx))
-            }))
-            .chain(end_opt)
-            .collect()
+                    .and_then(|end_idx| self.selection_from(furthest_end_idx + 1, end_idx)),
+            );
+            furthest_end_idx = furthest_end_idx.max(match_sel.end_idx);
+        }
+        selections.extend(self.selection_from(furthest_end_idx + 1, self.end_idx));
+        selections
     }
 
     pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
-- 
2.43.0


From 0091eae7b52c432f6c01ffbb2a985dca70b40051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 08/16] fix: AmountResolver does not panic on numbers which do
 not fit a Decimal

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..b248337 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // numbers too big for a `Decimal` are not amounts
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From acdbb3b7f91c570f80218b0ef9a13b1a93401d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 09/16] fix: AmountResolver::french uses the documented comma
 as decimal point

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index b248337..c62131a 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 19d2e48fbbbec77e007926d488f28b55914621ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 10/16] fix: AmountResolver accepts delimiters in the decimal
 part, as documented

---
 layered-amount/src/amounts.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index c62131a..d62b407 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -106,6 +106,17 @@ impl Resolver for AmountResolver {
                     number_string.push_str(text);
                     last_valid_selection = None;
                     selection = following_decimal_sel;
+
+                    // 1.00,00
+                    while let Some((following_delimeter_sel, (_, (_, text)))) = selection
+                        .match_first_forwards(&x::seq((
+                            x::token_has_any(self.delimiters.as_slice()),
+                            x::all((x::attr_eq(&TextTag::NATN), x::token_text())),
+                        )))
+                    {
+                        number_string.push_str(text);
+                        selection = following_delimeter_sel;
+                    }
                 }
             }
 
-- 
2.43.0


From d41439f4af334c346d1062649690c68484621d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 11/16] fix: case insensitive TextMatchAssignResolver keeps the
 values of keys differing only by case

---
 src/resolvers/text_match.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..78a66a5 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,21 +20,25 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
-        TextMatchAssignResolver {
-            case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
-        }
+        Self::from_case_insensitive_pairs(lookup.into_iter())
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
+        Self::from_case_insensitive_pairs(lookup.iter().map(|(key, val)| (key, vec![val.clone()])))
+    }
+    /// Several keys can be the same once in lowercase, all their values are kept.
+    fn from_case_insensitive_pairs<K: AsRef<str>>(
+        pairs: impl Iterator<Item = (K, Vec<T>)>,
+    ) -> Self {
+        let mut lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, values) in pairs {
+            lookup
+                .entry(key.as_ref().to_lowercase())
+                .or_default()
+                .extend(values);
+        }
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup,
         }
     }
 }
-- 
2.43.0


From 06cea8d0aa41e082609fbf85123faf0221a0f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 12/16] fix: clauses do not include whitespace when several
 whitespace tokens surround them

---
 layered-clauses/src/clauses.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/layered-clauses/src/clauses.rs b/layered-clauses/src/clauses.rs
index 9cd74fe..6ae8e74 100644
--- a/layered-clauses/src/clauses.rs
+++ b/layered-clauses/src/clauses.rs
@@ -14,6 +14,17 @@ pub struct ClauseResolver {
     // hmmm... configuration?
 }
 
+/// Removes all the whitespace tokens around the selection, returns `None` if there is nothing else.
+fn trim_whitespace(mut selection: LLSelection) -> Option<LLSelection> {
+    loop {
+        let trimmed_selection = selection.trim(&x::whitespace())?;
+        if trimmed_selection == selection {
+            return Some(trimmed_selection);
+        }
+        selection = trimmed_selection;
+    }
+}
+
 impl Resolver for ClauseResolver {
     type Attr = Clause;
 
@@ -28,7 +39,7 @@ impl Resolver for ClauseResolver {
         if clauses.len() == 1 {
             // If the first selection is the whole line that means there is no `ConditionStart` in it
             // We probably want to handle this case better in the future
-            if let Some(trimmed_clause_selection) = clauses[0].trim(&x::whitespace()) {
+            if let Some(trimmed_clause_selection) = trim_whitespace(clauses[0].clone()) {
                 if let Some((_, ClauseKeyword::ConditionStart)) =
                     clauses[0].match_first_backwards(&x::attr::<ClauseKeyword>())
                 {
@@ -43,7 +54,7 @@ impl Resolver for ClauseResolver {
             clauses
                 .into_iter()
                 .filter_map(|clause_selection| {
-                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
+                    let trimmed_clause_selection = trim_whitespace(clause_selection.clone())?;
 
                     if let Some((_, clause_keyword)) =
                         clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
-- 
2.43.0


From c8a8d2a8291f4dc87c84e63d4a55ff29ea87f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 13/16] fix: whitespace left alone by the splitting does not
 count as a clause

---
 layered-clauses/src/clauses.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layered-clauses/src/clauses.rs b/layered-clauses/src/clauses.rs
index 6ae8e74..25bb09b 100644
--- a/layered-clauses/src/clauses.rs
+++ b/layered-clauses/src/clauses.rs
@@ -31,10 +31,12 @@ impl Resolver for ClauseResolver {
     fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
         let mut condition_clause_found = false;
 
-        let clauses = selection.split_by(&x::any_of((
+        let mut clauses = selection.split_by(&x::any_of((
             x::attr::<ClauseKeyword>(),
             x::attr_eq(&TextTag::PUNC),
         )));
+        // whitespace alone is not a clause
+        clauses.retain(|clause_selection| trim_whitespace(clause_selection.clone()).is_some());
 
         if clauses.len() == 1 {
             // If the first selection is the whole line that means there is no `ConditionStart` in it
-- 
2.43.0


From b77e9284808c8c56506d8d21668d732bee86a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:45 +0000
Subject: [PATCH 14/16] fix: AmountResolver does not join adjacent numbers
 without a decimal separator between them

---
 layered-amount/src/amounts.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index d62b407..2aef178 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -102,6 +102,8 @@ impl Resolver for AmountResolver {
 
                 if let Some((following_decimal_sel, ((), text))) = selection
                     .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
+                    // a number right after the number, from another input, is another number
+                    .filter(|_| last_valid_selection.is_some())
                 {
                     number_string.push_str(text);
                     last_valid_selection = None;
-- 
2.43.0


From 140773b2930f85ba876e5c64ab07124661dc8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 15/16] fix: AmountResolver reads a number that is also a
 separator and follows an amount

A delimiter or decimal separator which no number follows is not part of the amount before it, but the
search went on after it. When that token is a number itself (a digit used as separator, or a number
which was supplied with the character), it was never read.
---
 layered-amount/src/amounts.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 2aef178..f720f09 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -122,16 +122,15 @@ impl Resolver for AmountResolver {
                 }
             }
 
+            // a trailing separator is not part of the amount, and can be a number itself
+            let amount_sel = last_valid_selection.unwrap_or(selection);
+
             // numbers too big for a `Decimal` are not amounts
             if let Ok(decimal) = number_string.parse::<Decimal>() {
-                attrs.push(
-                    last_valid_selection
-                        .unwrap_or_else(|| selection.clone())
-                        .finish_with_attr(Amount(decimal)),
-                );
+                attrs.push(amount_sel.finish_with_attr(Amount(decimal)));
             }
 
-            if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
+            if let [_, Some(right_sel)] = search_range_sel.split_with(&amount_sel) {
                 search_range_sel = right_sel;
             } else {
                 break;
-- 
2.43.0


From 470ef43c232e0386b693b5ab9de07c5b50084132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 16/16] fix: POSTagResolver tags a word once when it was also
 supplied with the word tag

An input given TextTag::WORD by the caller carries the tag twice, so the matcher found the word twice
and every part of speech was recorded twice.
---
 layered-part-of-speech/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/layered-part-of-speech/src/lib.rs b/layered-part-of-speech/src/lib.rs
index e814181..3fe0e2b 100644
--- a/layered-part-of-speech/src/lib.rs
+++ b/layered-part-of-speech/src/lib.rs
@@ -15,8 +15,14 @@ impl Resolver for POSTagResolver {
     type Attr = Tag;
 
     fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
-        selection
-            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
+        let mut words =
+            selection.find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())));
+        // an input can also be given the tag by the caller, it still is one word
+        words.dedup_by(|(word_selection, _), (previous_selection, _)| {
+            word_selection == previous_selection
+        });
+
+        words
             .into_iter()
             .flat_map(|(selection, (_, word))| {
                 ENGLISH_TAG_LOOKUP
-- 
2.43.0

