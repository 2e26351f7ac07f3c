From 48a3c71dc85e035fea4c94e3161707d19256c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 01/29] fix: Soundex and RefinedSoundex panic on letters
 outside A-Z

---
 src/refined_soundex.rs | 12 +++++++++---
 src/soundex.rs         |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..08e7db5 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -57,8 +57,11 @@ impl RefinedSoundex {
         Self { mapping }
     }
 
-    fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+    /// A letter outside the mapping (i.e., not one of `A` to `Z`) has no code.
+    fn get_mapping_code(&self, ch: char) -> Option<char> {
+        (ch as usize)
+            .checked_sub('A' as usize)
+            .and_then(|index| self.mapping.get(index).copied())
     }
 }
 
@@ -175,7 +178,10 @@ impl Encoder for RefinedSoundex {
         let mut previous: Option<char> = None;
 
         for ch in value.chars() {
-            let code_value = self.get_mapping_code(ch);
+            let code_value = match self.get_mapping_code(ch) {
+                Some(code_value) => code_value,
+                None => continue,
+            };
             if Some(code_value) != previous {
                 code.push(code_value);
             }
diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..826ab12 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -97,8 +97,12 @@ impl Soundex {
         }
     }
 
+    /// A letter outside the mapping (i.e., not one of `A` to `Z`) has no code, so it is silent.
     fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+        (ch as usize)
+            .checked_sub('A' as usize)
+            .and_then(|index| self.mapping.get(index).copied())
+            .unwrap_or(SILENT)
     }
 }
 
-- 
2.43.0


From 5c5922d621163982f3e501d6327ebaa31ebddd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 02/29] fix: Caverphone keeps letters outside a-z, then slices
 through them

Both Caverphone revisions remove every character but a-z. Keeping non ASCII
lower case letters put them in the code and panicked when the truncation fell
inside one.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From 17f100790764cc544bd9c19304aed9f7d7e86a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 03/29] fix: Nysiis strict mode truncates on bytes instead of
 characters

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From 2477abbef8667b362e79c91f4861361288af6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 04/29] fix: Phonex measures its code in bytes, not characters

The code starts with the first letter of the name, which might not be ASCII:
it was padded to fewer characters than the code length, or the length check
never matched and the code was not limited.
---
 src/phonex.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..b98ac94 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -159,19 +159,23 @@ impl Encoder for Phonex {
         // only using ASCII).
         let mut result = String::with_capacity(self.max_code_length);
 
+        // Number of `char` in `result`: the first one might not be ASCII.
+        let mut length = 0;
+
         let mut code = '0';
         let mut last = '0';
         let mut last_push = '0';
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if length == self.max_code_length {
                 break 'char_iter;
             }
 
             // We always add the first (sanitized, preprocessed) character.
             if i == 0 {
                 result.push(curr);
+                length += 1;
                 last_push = curr;
             }
 
@@ -198,6 +202,7 @@ impl Encoder for Phonex {
 
             if last != code && code != '0' && i != 0 {
                 result.push(code);
+                length += 1;
                 last_push = code;
             }
 
@@ -209,8 +214,9 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while length < self.max_code_length {
             result.push('0');
+            length += 1;
         }
 
         result
-- 
2.43.0


From 9f8e088add455e9e4b39a150756ee9bc70c2d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 05/29] fix: Phonex with a code length of 1 does not limit
 codes of names like ND

---
 src/phonex.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index b98ac94..72fda8e 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -200,7 +200,8 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            // The first iteration might also push a digit, so check the length again.
+            if last != code && code != '0' && i != 0 && length < self.max_code_length {
                 result.push(code);
                 length += 1;
                 last_push = code;
-- 
2.43.0


From 9101d1ed3089ae81e5e55d64df3803929b9cc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 06/29] fix: Metaphone mixes byte and character positions

It walks the word by character, but sliced it and measured it in bytes: a word
with a non ASCII letter was matched at the wrong place or panicked.
---
 src/metaphone.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..05e69a8 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,7 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        text.chars().skip(index).take(test.len()).eq(test.chars())
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -86,7 +86,7 @@ impl Encoder for Metaphone {
     fn encode(&self, value: &str) -> String {
         let inwd = value.to_uppercase();
 
-        if inwd.len() == 1 {
+        if value.chars().count() == 1 {
             return inwd;
         }
 
@@ -124,7 +124,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From fe62a39dcf94370fd4a7204f2399d48dc9c6d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 07/29] fix: Metaphone does not code CH as K in words of three
 letters

commons-codec codes an initial CH before a vowel as K from three letters on.
---
 src/metaphone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index 05e69a8..7b67fd5 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -165,7 +165,7 @@ impl Encoder for Metaphone {
                             {
                                 code.push('K');
                             } else if Metaphone::is_next_char(&local, index, 'H') {
-                                if index == 0 && wdsz > 3 && Metaphone::is_vowel(&local, 2) {
+                                if index == 0 && wdsz >= 3 && Metaphone::is_vowel(&local, 2) {
                                     code.push('K');
                                 } else {
                                     code.push('X');
-- 
2.43.0


From 95874500e0ad86da07f035add85fc23dc7cbad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 08/29] fix: DoubleMetaphone panics on non ASCII letters

Rules look around by position. Positions were byte offsets: slicing at them
panicked when they fell inside a non ASCII character, and contexts beyond one
were missed.
---
 src/double_metaphone.rs | 82 ++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..2535fc8 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -15,8 +15,6 @@
  * limitations under the License.
  */
 use std::fmt::{Display, Formatter};
-use std::iter::Peekable;
-use std::str::CharIndices;
 
 use serde::{Deserialize, Serialize};
 
@@ -221,7 +219,7 @@ impl DoubleMetaphone {
             || value.contains("WITZ")
     }
 
-    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {
+    fn contains(value: &[char], start: isize, length: usize, criteria: Vec<&str>) -> bool {
         let result = false;
 
         if start < 0 {
@@ -231,14 +229,16 @@ impl DoubleMetaphone {
         let start = start as usize;
 
         if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+            let target = &value[start..start + length];
+            return criteria
+                .iter()
+                .any(|c| c.chars().eq(target.iter().copied()));
         }
 
         result
     }
 
-    fn contains_array(value: &str, start: isize, length: usize, criteria: &[&str]) -> bool {
+    fn contains_array(value: &[char], start: isize, length: usize, criteria: &[&str]) -> bool {
         let result = false;
 
         if start < 0 {
@@ -247,16 +247,18 @@ impl DoubleMetaphone {
         let start = start as usize;
 
         if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+            let target = &value[start..start + length];
+            return criteria
+                .iter()
+                .any(|c| c.chars().eq(target.iter().copied()));
         }
 
         result
     }
 
-    fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+    fn char_at(value: &[char], index: isize) -> Option<char> {
+        if index >= 0 {
+            return value.get(index as usize).copied();
         }
 
         None
@@ -280,13 +282,19 @@ impl DoubleMetaphone {
             return result;
         }
 
-        let value = &value.to_uppercase();
+        let value = value.to_uppercase();
 
-        let slavo_germanic = Self::is_slavo_germanic(value);
+        let slavo_germanic = Self::is_slavo_germanic(&value);
+        let silent_start = SILENT_START.iter().any(|sl| value.starts_with(sl));
 
-        let mut iterator: Peekable<CharIndices<'_>> = value.char_indices().peekable();
+        // Rules look around by position, so work on characters: a byte offset might
+        // fall inside a non ASCII one.
+        let value: Vec<char> = value.chars().collect();
+        let value = value.as_slice();
+
+        let mut iterator = value.iter().copied().enumerate();
         let mut char_index: Option<(usize, char)> = iterator.next();
-        if SILENT_START.iter().any(|sl| value.starts_with(sl)) {
+        if silent_start {
             char_index = iterator.next();
         }
 
@@ -390,7 +398,7 @@ impl DoubleMetaphone {
         result
     }
 
-    fn handle_c(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_c(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::condition_c0(value, index) {
             result.append_char('K', None);
             1
@@ -440,7 +448,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_c0(value: &str, index: isize) -> bool {
+    fn condition_c0(value: &[char], index: isize) -> bool {
         if Self::contains(value, index, 4, vec!["CHIA"]) {
             return true;
         }
@@ -468,7 +476,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_ch(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_ch(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index > 0 && Self::contains(value, index, 4, vec!["CHAE"]) {
             // Michael
             result.append_char('K', Some('X'));
@@ -489,7 +497,7 @@ impl DoubleMetaphone {
         1
     }
 
-    fn condition_ch0(value: &str, index: isize) -> bool {
+    fn condition_ch0(value: &[char], index: isize) -> bool {
         if index != 0 {
             return false;
         }
@@ -503,7 +511,7 @@ impl DoubleMetaphone {
         !Self::contains(value, 0, 5, vec!["CHORE"])
     }
 
-    fn condition_ch1(value: &str, index: isize) -> bool {
+    fn condition_ch1(value: &[char], index: isize) -> bool {
         (Self::contains(value, 0, 4, vec!["VAN", "VON"])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
@@ -514,7 +522,7 @@ impl DoubleMetaphone {
                     || (index as usize) + 1 == value.len() - 1))
     }
 
-    fn handle_cc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_cc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index + 2, 1, vec!["I", "E", "H"])
             && !Self::contains(value, index + 2, 2, vec!["HU"])
         {
@@ -536,7 +544,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_d(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_d(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["DG"]) {
             if Self::contains(value, index + 2, 1, vec!["I", "E", "Y"]) {
                 result.append_char('J', None);
@@ -555,7 +563,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_g(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -621,7 +629,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_gh(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_gh(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         // Unwrap is safe in the first if because index > 0
         if index > 0
             && !(is_vowel(
@@ -658,7 +666,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_h(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_h(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         //-- only keep if first & before vowel or between 2 vowels --//
         if (index == 0
             || is_vowel(
@@ -679,7 +687,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_j(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -725,7 +733,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_l(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_l(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('L') {
             if Self::condition_l0(value, index) {
                 result.append_char_primary('L');
@@ -739,7 +747,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_l0(value: &str, index: isize) -> bool {
+    fn condition_l0(value: &[char], index: isize) -> bool {
         if value.len() >= 3
             && (index as usize) == value.len() - 3
             && index > 0
@@ -755,7 +763,7 @@ impl DoubleMetaphone {
             && Self::contains(value, index - 1, 4, vec!["ALLE"])
     }
 
-    fn condition_m0(value: &str, index: isize) -> bool {
+    fn condition_m0(value: &[char], index: isize) -> bool {
         if Self::char_at(value, index + 1) == Some('M') {
             return true;
         }
@@ -766,7 +774,7 @@ impl DoubleMetaphone {
                 || Self::contains(value, index + 2, 2, vec!["ER"]))
     }
 
-    fn handle_p(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_p(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('H') {
             result.append_char('F', None);
             1
@@ -781,7 +789,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_r(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -804,7 +812,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_s(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -867,7 +875,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_sc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_sc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 2) == Some('H') {
             //-- Schlesinger's rule --//
             if Self::contains(
@@ -902,7 +910,7 @@ impl DoubleMetaphone {
         2
     }
 
-    fn handle_t(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_t(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 4, vec!["TION"])
             || Self::contains(value, index, 3, vec!["TIA", "TCH"])
         {
@@ -931,7 +939,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_w(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_w(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["WR"]) {
             //-- can also be in middle of word --//
             result.append_char('R', None);
@@ -980,7 +988,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_x(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_x(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index == 0 {
             result.append_char('S', None);
             0
@@ -1001,7 +1009,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_z(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
-- 
2.43.0


From 972a552c15c1af5977d5ad55ad05a86f83eef55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 09/29] fix: DoubleMetaphone misses Germanic CH in 'Von Ch...'
 and before T or S

The four characters 'VAN '/'VON ' were compared with three, and CHT/CHS were
not checked on the first two positions.
---
 src/double_metaphone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 2535fc8..e25048e 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -512,11 +512,11 @@ impl DoubleMetaphone {
     }
 
     fn condition_ch1(value: &[char], index: isize) -> bool {
-        (Self::contains(value, 0, 4, vec!["VAN", "VON"])
+        (Self::contains(value, 0, 4, vec!["VAN ", "VON "])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-            || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
+            || Self::contains(value, index + 2, 1, vec!["T", "S"])
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
                     || (index as usize) + 1 == value.len() - 1))
-- 
2.43.0


From 836f53e795ecf866216707b7ced8bb72c7b2d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 10/29] fix: DoubleMetaphone codes the final R of short French
 -IER words

---
 src/double_metaphone.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index e25048e..b033967 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -794,8 +794,7 @@ impl DoubleMetaphone {
         index: isize,
         slavo_germanic: bool,
     ) -> usize {
-        if index > 3
-            && index == value.len() as isize - 1
+        if index == value.len() as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
             && !Self::contains(value, index - 4, 2, vec!["ME", "MA"])
-- 
2.43.0


From a0d9021a7418bc2186e8c9f15f03a1533dd5b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 11/29] fix: MatchRatingApproach counts and slices bytes
 instead of characters

Names with non ASCII letters panicked, were cut at the wrong place, or were
compared with the wrong lengths.
---
 src/match_rating_approach.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..4a445e8 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,13 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let len = value.chars().count();
+        if len > 6 {
+            value
+                .chars()
+                .take(3)
+                .chain(value.chars().skip(len - 3))
+                .collect()
         } else {
             value
         }
@@ -174,20 +179,16 @@ impl MatchRatingApproach {
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
-        } else {
-            6usize.abs_diff(r2.len())
-        }
+        6usize.abs_diff(r1.max(r2))
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().is_empty() || value.trim().chars().count() == 1 {
             return String::new();
         }
 
@@ -204,7 +205,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -215,11 +216,14 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        let length1 = name1.chars().count();
+        let length2 = name2.chars().count();
+
+        if length1.abs_diff(length2) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = length1 + length2;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 47fe7e11b203f23e52a8787d68c7f19dd0fd960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 12/29] fix: MatchRatingApproach comparison underflows on names
 without a letter

---
 src/match_rating_approach.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 4a445e8..4f94757 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -216,6 +216,11 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
+        // Nothing but trimmed characters: there is nothing to compare.
+        if name1.is_empty() || name2.is_empty() {
+            return false;
+        }
+
         let length1 = name1.chars().count();
         let length2 = name2.chars().count();
 
-- 
2.43.0


From ad853bb08fd9b4f774299bfbe160767d51f0e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 13/29] fix: MatchRatingApproach misses matches of already
 matched characters

commons-codec compares the whole names in both directions. Comparing what is
left of them missed a match when a character was already matched from the other
side, so similar names were reported as different.
---
 src/match_rating_approach.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 4f94757..48ac2cf 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -153,8 +153,12 @@ impl MatchRatingApproach {
     }
 
     fn left_to_right_then_right_to_left_processing(name1: String, name2: String) -> usize {
-        let mut n1: Vec<char> = name1.chars().collect();
-        let mut n2: Vec<char> = name2.chars().collect();
+        let name1: Vec<char> = name1.chars().collect();
+        let name2: Vec<char> = name2.chars().collect();
+
+        // Both directions compare the whole names, matching characters are blanked in these copies.
+        let mut n1 = name1.clone();
+        let mut n2 = name2.clone();
 
         let n1len = n1.len() - 1;
         let n2len = n2.len() - 1;
@@ -164,15 +168,15 @@ impl MatchRatingApproach {
                 break;
             }
 
-            let c1: &char = n1.get(i).unwrap();
-            let c2: &char = n2.get(i).unwrap();
+            let c1: &char = name1.get(i).unwrap();
+            let c2: &char = name2.get(i).unwrap();
             if c1 == c2 {
                 n1[i] = ' ';
                 n2[i] = ' ';
             }
 
-            let c1: &char = n1.get(n1.len() - (i + 1)).unwrap();
-            let c2: &char = n2.get(n2.len() - (i + 1)).unwrap();
+            let c1: &char = name1.get(n1len - i).unwrap();
+            let c2: &char = name2.get(n2len - i).unwrap();
             if c1 == c2 {
                 n1[n1len - i] = ' ';
                 n2[n2len - i] = ' ';
-- 
2.43.0


From 83f7ca8b421d4b35c43f01b35bc7e5bdfc7dbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 14/29] fix: DaitchMokotoffSoundex measures patterns in bytes

A pattern with a non ASCII character (the default rules have four) swallowed
the characters after it, and the next vowel was looked up too far.
---
 src/daitch_mokotoff.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..6d1838d 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -14,6 +14,7 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+use std::cmp::Reverse;
 use std::collections::BTreeMap;
 
 use nom::Parser;
@@ -82,8 +83,9 @@ impl Rule {
         part.split('|').map(|v| v.to_string()).collect()
     }
 
+    /// Length in [char], patterns are not limited to ASCII.
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
@@ -96,8 +98,7 @@ impl Rule {
         }
 
         let next_index = self.get_pattern_length();
-        let next_char_is_vowel =
-            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);
+        let next_char_is_vowel = is_vowel(context.chars().nth(next_index), false);
         if next_char_is_vowel {
             return &self.replacement_before_vowel;
         }
@@ -518,7 +519,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
         // Ordering by pattern length decreasing.
         rules
             .values_mut()
-            .for_each(|v| v.sort_by(|a, b| a.pattern.len().cmp(&b.pattern.len()).reverse()));
+            .for_each(|v| v.sort_by_key(|rule| Reverse(rule.get_pattern_length())));
 
         Ok(DaitchMokotoffSoundex {
             ascii_folding: self.ascii_folding,
-- 
2.43.0


From b1496af4bae82b65b0253bef0b190db38a2e751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 15/29] fix: DaitchMokotoffSoundex returns the same code
 several times

---
 src/daitch_mokotoff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 6d1838d..ad483f6 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -364,7 +364,11 @@ impl DaitchMokotoffSoundex {
                                     || (last_char == 'n' && ch == 'm');
                                 next_branch.process_next_replacement(next_replacement, force);
                                 // Perhaps use the crate "linked-hash-map" but its major version is 0, and I want to release a major version
-                                if !next_branches.contains(&next_branch) {
+                                // As in commons-codec, branches are the same when they have the same code.
+                                if !next_branches
+                                    .iter()
+                                    .any(|branch| branch.builder == next_branch.builder)
+                                {
                                     next_branches.push(next_branch);
                                 }
                                 if !branching {
-- 
2.43.0


From c02866f3659881383feee44f45aec3a4a68067c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 16/29] fix: DaitchMokotoffSoundexBuilder panics on a rule with
 an empty pattern

---
 src/daitch_mokotoff.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index ad483f6..4fc64a1 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -484,8 +484,9 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let ch = rule.pattern.chars().next().ok_or_else(|| {
+                    build_error(line_number, None, remains, "Empty pattern".to_string())
+                })?;
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From 2474083d8a2d21062ecd808184ec485875d46325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 17/29] fix: DaitchMokotoffSoundexBuilder reports errors one
 line too far after a multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 4fc64a1..e153b68 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -507,7 +507,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 69dd2ec8a5cf69c58de8401bb2ba73c8b3794f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 18/29] fix: CharSequence overflows on an inclusive range up to
 usize::MAX

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 0740afb..67a53e2 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -176,7 +176,7 @@ impl Index<RangeInclusive<usize>> for CharSequence<'_> {
     type Output = str;
 
     fn index(&self, index: RangeInclusive<usize>) -> &Self::Output {
-        &self[*index.start()..*index.end() + 1]
+        &self[*index.start()..index.end().saturating_add(1)]
     }
 }
 
-- 
2.43.0


From 4a90d2e9dfac45166059ec128defc4c2f70b89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 19/29] fix: BeiderMorse merges the wrong languages of equal
 phonemes

Two phonemes with the same text are possible in the languages of either of them,
not in those the phoneme had before the final rules.
---
 src/beider_morse/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..65ea27d 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -170,7 +170,7 @@ impl PhoneticEngine<'_> {
 
             for new_phoneme in sub_builder.phonemes {
                 if let Some(old_phoneme) = phonemes.get(&new_phoneme) {
-                    let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());
+                    let merge_phoneme = old_phoneme.merge_with_language(new_phoneme.languages());
                     // Since equality is on text, replace should work fine
                     phonemes.replace(merge_phoneme);
                 } else {
-- 
2.43.0


From def6e88a5727569198f6c2f9e1f6944040baf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 20/29] fix: BeiderMorse loses phonemes with the same text but
 other languages, and keeps the wrong ones when there are too many

---
 src/beider_morse/engine.rs | 14 +++++++++-----
 src/beider_morse/rule.rs   |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 65ea27d..eadb269 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -31,14 +31,16 @@ lazy_static::lazy_static! {
     ]);
 }
 
+/// Phonemes are in the order they were built: the first ones are kept when there are too many.
+/// Two of them might have the same text with different languages.
 #[derive(Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
 struct PhonemeBuilder {
-    phonemes: BTreeSet<Phoneme>,
+    phonemes: Vec<Phoneme>,
 }
 
 impl PhonemeBuilder {
     fn empty(languages: &LanguageSet) -> Self {
-        let phonemes = BTreeSet::from([Phoneme::new("", languages.clone())]);
+        let phonemes = vec![Phoneme::new("", languages.clone())];
         Self { phonemes }
     }
 
@@ -60,7 +62,7 @@ impl PhonemeBuilder {
     }
 
     fn apply(&mut self, phoneme_expr: &PhonemeList, max_phonemes: usize) {
-        let mut phonemes: BTreeSet<Phoneme> = BTreeSet::new();
+        let mut phonemes: Vec<Phoneme> = Vec::new();
 
         'outer: for left in self.phonemes.iter() {
             for right in phoneme_expr.phonemes().iter() {
@@ -68,7 +70,7 @@ impl PhonemeBuilder {
                 if !languages.is_empty() {
                     let phoneme = Phoneme::join(left, right, languages);
                     if phonemes.len() < max_phonemes {
-                        phonemes.insert(phoneme);
+                        phonemes.push(phoneme);
                     }
                     if phonemes.len() >= max_phonemes {
                         break 'outer;
@@ -179,7 +181,9 @@ impl PhoneticEngine<'_> {
             }
         }
 
-        PhonemeBuilder { phonemes }
+        PhonemeBuilder {
+            phonemes: phonemes.into_iter().collect(),
+        }
     }
 
     pub fn encode(&self, input: &str) -> String {
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..923e296 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -193,7 +193,8 @@ fn parse_phoneme_expr(phoneme_rule: &str) -> Result<PhonemeList, BMError> {
         }
         let mut phs: Vec<Phoneme> = Vec::new();
         let phoneme_rule = &phoneme_rule[1..phoneme_rule.len() - 1];
-        for phoneme in phoneme_rule.split('|') {
+        // The last phoneme, if it is empty, is added below
+        for phoneme in phoneme_rule.trim_end_matches('|').split('|') {
             phs.push(parse_phoneme(phoneme)?)
         }
         if phoneme_rule.starts_with('|') || phoneme_rule.ends_with('|') {
-- 
2.43.0


From a0a690965a695abc21170828ef8211a3148f6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 21/29] fix: BeiderMorse does not see a name prefix after a
 leading space or hyphen

---
 src/beider_morse/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index eadb269..875919c 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -213,6 +213,7 @@ impl PhoneticEngine<'_> {
         let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
 
         let input = input.to_lowercase().replace('-', " ");
+        let input = input.trim();
 
         if self.name_type == NameType::Generic {
             if let Some(remainder) = input.strip_prefix("d'") {
-- 
2.43.0


From 9b5d1f189506beb2de14d8e175177bdc8fcda5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 22/29] fix: Beider-Morse configuration errors name the wrong
 line, or no file

---
 src/beider_morse/lang.rs | 5 ++---
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..53175f7 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,10 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +137,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 923e296..8f6b50e 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -266,7 +266,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -279,6 +278,7 @@ fn parse_rule(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0


From 83c49ca129de720b18966e014535d786bd2c3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 23/29] fix: ConfigFiles panics on a Beider-Morse rule with an
 empty pattern

---
 src/beider_morse/rule.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 8f6b50e..f339761 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -229,6 +229,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let ch = pattern.chars().next().ok_or_else(|| {
+                build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Empty pattern".to_string(),
+                )
+            })?;
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -253,7 +261,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
-- 
2.43.0


From 3b91e4fa8f8f6fe26de02fcd81abb1738f88cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 24/29] fix: RefinedSoundex merges the codes around a letter
 without code

---
 src/refined_soundex.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 08e7db5..ab2da78 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -178,14 +178,11 @@ impl Encoder for RefinedSoundex {
         let mut previous: Option<char> = None;
 
         for ch in value.chars() {
-            let code_value = match self.get_mapping_code(ch) {
-                Some(code_value) => code_value,
-                None => continue,
-            };
-            if Some(code_value) != previous {
-                code.push(code_value);
+            let code_value = self.get_mapping_code(ch);
+            if code_value != previous {
+                code.extend(code_value);
             }
-            previous = Some(code_value);
+            previous = code_value;
         }
 
         code
-- 
2.43.0


From afd97b6eac4ef5061f27b8b01068382db6af8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 25/29] fix: ConfigFiles panics when a file of languages is
 missing

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 53175f7..8cee278 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -153,7 +153,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From ab2ce328a6321a0e07c6c311d9600428128d3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 26/29] fix: a language detection rule that is cut off swallows
 the next line

---
 src/rules_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..8cee056 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -99,8 +99,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From 20b6bd25d6aab26c7cda3dc61932abbca8ed73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 27/29] fix: a quoted part of a rule that is not closed runs
 over the next lines

---
 src/rules_parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 8cee056..d9b1d96 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
 use nom::character::complete::{alpha1, anychar, char, crlf, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -68,8 +68,12 @@ pub fn end_of_line<'a>(
 /// Recognize something between two double quote (`"..."`).
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and what precedes the next quote on the line.
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch| ch == '"' || ch == '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
-- 
2.43.0


From 0256e6f93f9b4f6718bcf330ab66b927992bed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 28/29] fix: count the characters of Daitch-Mokotoff codes, not
 their bytes

---
 src/daitch_mokotoff.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index e153b68..6854b1a 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -48,7 +48,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        for _ in self.builder.chars().count()..MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -59,11 +59,10 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
-            self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
-            }
+        if append {
+            // Length in [char], replacements are not limited to ASCII.
+            let remaining = MAX_LENGTH.saturating_sub(self.builder.chars().count());
+            self.builder.extend(replacement.chars().take(remaining));
         }
 
         self.last_replacement = Some(replacement);
-- 
2.43.0


From a74e3813332783c370dd0ec5ee5ec582d8b8c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 29/29] fix: DoubleMetaphone panics, or reserves all memory,
 with a very large code length

---
 src/double_metaphone.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index b033967..555888a 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -52,11 +52,12 @@ impl Display for DoubleMetaphoneResult {
 /// It contains both `primary` and `alternate` codes.
 impl DoubleMetaphoneResult {
     fn new(max_length: Option<usize>) -> Self {
-        // If no `max_length` is given, allocate resulting string with
-        // a capacity of 10. It should be sufficient without realloc.
+        // Allocate resulting string with a capacity of at most 10, whatever
+        // `max_length` is. It should be sufficient without realloc.
+        let capacity = max_length.map_or(10, |v| v.min(10));
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(capacity),
+            alternate: String::with_capacity(capacity),
             max_length,
         }
     }
-- 
2.43.0

