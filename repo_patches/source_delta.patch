From ec37f9dbe8de6838c2d9a31ad22fb9f1dd88b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 01/29] fix: DoubleMetaphone works on characters instead of
 bytes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Slicing the uppercased value by byte panicked on ordinary accented names
("Café") and made every position test wrong after a multi-byte character.
---
 src/double_metaphone.rs | 75 ++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..0822c8f 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -15,8 +15,6 @@
  * limitations under the License.
  */
 use std::fmt::{Display, Formatter};
-use std::iter::Peekable;
-use std::str::CharIndices;
 
 use serde::{Deserialize, Serialize};
 
@@ -221,7 +219,7 @@ impl DoubleMetaphone {
             || value.contains("WITZ")
     }
 
-    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {
+    fn contains(value: &[char], start: isize, length: usize, criteria: Vec<&str>) -> bool {
         let result = false;
 
         if start < 0 {
@@ -231,14 +229,16 @@ impl DoubleMetaphone {
         let start = start as usize;
 
         if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+            let target: &[char] = &value[start..start + length];
+            return criteria
+                .iter()
+                .any(|c| c.chars().eq(target.iter().copied()));
         }
 
         result
     }
 
-    fn contains_array(value: &str, start: isize, length: usize, criteria: &[&str]) -> bool {
+    fn contains_array(value: &[char], start: isize, length: usize, criteria: &[&str]) -> bool {
         let result = false;
 
         if start < 0 {
@@ -247,16 +247,18 @@ impl DoubleMetaphone {
         let start = start as usize;
 
         if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+            let target: &[char] = &value[start..start + length];
+            return criteria
+                .iter()
+                .any(|c| c.chars().eq(target.iter().copied()));
         }
 
         result
     }
 
-    fn char_at(value: &str, index: isize) -> Option<char> {
+    fn char_at(value: &[char], index: isize) -> Option<char> {
         if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+            return Some(value[index as usize]);
         }
 
         None
@@ -284,9 +286,14 @@ impl DoubleMetaphone {
 
         let slavo_germanic = Self::is_slavo_germanic(value);
 
-        let mut iterator: Peekable<CharIndices<'_>> = value.char_indices().peekable();
+        let silent_start = SILENT_START.iter().any(|sl| value.starts_with(sl));
+
+        // The rules look around the current position in term of characters, not bytes.
+        let value: &[char] = &value.chars().collect::<Vec<char>>();
+
+        let mut iterator = value.iter().copied().enumerate();
         let mut char_index: Option<(usize, char)> = iterator.next();
-        if SILENT_START.iter().any(|sl| value.starts_with(sl)) {
+        if silent_start {
             char_index = iterator.next();
         }
 
@@ -390,7 +397,7 @@ impl DoubleMetaphone {
         result
     }
 
-    fn handle_c(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_c(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::condition_c0(value, index) {
             result.append_char('K', None);
             1
@@ -440,7 +447,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_c0(value: &str, index: isize) -> bool {
+    fn condition_c0(value: &[char], index: isize) -> bool {
         if Self::contains(value, index, 4, vec!["CHIA"]) {
             return true;
         }
@@ -468,7 +475,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_ch(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_ch(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index > 0 && Self::contains(value, index, 4, vec!["CHAE"]) {
             // Michael
             result.append_char('K', Some('X'));
@@ -489,7 +496,7 @@ impl DoubleMetaphone {
         1
     }
 
-    fn condition_ch0(value: &str, index: isize) -> bool {
+    fn condition_ch0(value: &[char], index: isize) -> bool {
         if index != 0 {
             return false;
         }
@@ -503,7 +510,7 @@ impl DoubleMetaphone {
         !Self::contains(value, 0, 5, vec!["CHORE"])
     }
 
-    fn condition_ch1(value: &str, index: isize) -> bool {
+    fn condition_ch1(value: &[char], index: isize) -> bool {
         (Self::contains(value, 0, 4, vec!["VAN", "VON"])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
@@ -514,7 +521,7 @@ impl DoubleMetaphone {
                     || (index as usize) + 1 == value.len() - 1))
     }
 
-    fn handle_cc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_cc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index + 2, 1, vec!["I", "E", "H"])
             && !Self::contains(value, index + 2, 2, vec!["HU"])
         {
@@ -536,7 +543,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_d(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_d(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["DG"]) {
             if Self::contains(value, index + 2, 1, vec!["I", "E", "Y"]) {
                 result.append_char('J', None);
@@ -555,7 +562,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_g(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -621,7 +628,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_gh(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_gh(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         // Unwrap is safe in the first if because index > 0
         if index > 0
             && !(is_vowel(
@@ -658,7 +665,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_h(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_h(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         //-- only keep if first & before vowel or between 2 vowels --//
         if (index == 0
             || is_vowel(
@@ -679,7 +686,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_j(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -725,7 +732,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_l(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_l(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('L') {
             if Self::condition_l0(value, index) {
                 result.append_char_primary('L');
@@ -739,7 +746,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_l0(value: &str, index: isize) -> bool {
+    fn condition_l0(value: &[char], index: isize) -> bool {
         if value.len() >= 3
             && (index as usize) == value.len() - 3
             && index > 0
@@ -755,7 +762,7 @@ impl DoubleMetaphone {
             && Self::contains(value, index - 1, 4, vec!["ALLE"])
     }
 
-    fn condition_m0(value: &str, index: isize) -> bool {
+    fn condition_m0(value: &[char], index: isize) -> bool {
         if Self::char_at(value, index + 1) == Some('M') {
             return true;
         }
@@ -766,7 +773,7 @@ impl DoubleMetaphone {
                 || Self::contains(value, index + 2, 2, vec!["ER"]))
     }
 
-    fn handle_p(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_p(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('H') {
             result.append_char('F', None);
             1
@@ -781,7 +788,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_r(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -804,7 +811,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_s(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -867,7 +874,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_sc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_sc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 2) == Some('H') {
             //-- Schlesinger's rule --//
             if Self::contains(
@@ -902,7 +909,7 @@ impl DoubleMetaphone {
         2
     }
 
-    fn handle_t(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_t(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 4, vec!["TION"])
             || Self::contains(value, index, 3, vec!["TIA", "TCH"])
         {
@@ -931,7 +938,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_w(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_w(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["WR"]) {
             //-- can also be in middle of word --//
             result.append_char('R', None);
@@ -980,7 +987,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_x(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_x(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index == 0 {
             result.append_char('S', None);
             0
@@ -1001,7 +1008,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_z(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
-- 
2.43.0


From 32ff000ed89619aa169d13e805c414354b198e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 02/29] fix: DoubleMetaphone silently lost three rules of the
 algorithm

"VAN "/"VON " were compared with a window of 4 characters but written with 3,
"CHT"/"CHS" at the start of a word were not recognised, and the silent final R
of "-IER" was only recognised in words of five letters or more.
---
 src/double_metaphone.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 0822c8f..f436fdb 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -511,11 +511,11 @@ impl DoubleMetaphone {
     }
 
     fn condition_ch1(value: &[char], index: isize) -> bool {
-        (Self::contains(value, 0, 4, vec!["VAN", "VON"])
+        (Self::contains(value, 0, 4, vec!["VAN ", "VON "])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-            || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
+            || Self::contains(value, index + 2, 1, vec!["T", "S"])
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
                     || (index as usize) + 1 == value.len() - 1))
@@ -793,7 +793,7 @@ impl DoubleMetaphone {
         index: isize,
         slavo_germanic: bool,
     ) -> usize {
-        if index > 3
+        if index > 1
             && index == value.len() as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
-- 
2.43.0


From 4669ebaf0aa1653b6c362256d3431607afbb07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 03/29] fix: Metaphone codes a three letter word starting with
 CH + vowel as K

---
 src/metaphone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..e0e1312 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -165,7 +165,7 @@ impl Encoder for Metaphone {
                             {
                                 code.push('K');
                             } else if Metaphone::is_next_char(&local, index, 'H') {
-                                if index == 0 && wdsz > 3 && Metaphone::is_vowel(&local, 2) {
+                                if index == 0 && wdsz >= 3 && Metaphone::is_vowel(&local, 2) {
                                     code.push('K');
                                 } else {
                                     code.push('X');
-- 
2.43.0


From 696e51bfb87bb82044f927de63dea61148a5a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/29] fix: Metaphone compares characters by character index
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

An index counted in characters was used to slice bytes: "é" before S, T, C or G
panicked or matched at the wrong place, and the last character was not recognised.
---
 src/metaphone.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index e0e1312..489edb8 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,8 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        let mut chars = text.chars().skip(index);
+        test.chars().all(|ch| chars.next() == Some(ch))
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -124,7 +125,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From b6d5d167d526cd04bb47da3373df68ddc4b2b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 05/29] fix: Metaphone never returns more than max_code_length
 characters, even when it is 0

---
 src/metaphone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index 489edb8..d75ddc2 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -87,7 +87,7 @@ impl Encoder for Metaphone {
     fn encode(&self, value: &str) -> String {
         let inwd = value.to_uppercase();
 
-        if inwd.len() == 1 {
+        if inwd.len() == 1 && self.max_code_length != Some(0) {
             return inwd;
         }
 
-- 
2.43.0


From ad3d7f5e70df1752c95c95c0a7914aad2a306fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 06/29] fix: Soundex and RefinedSoundex ignore letters that
 have no mapping

Any letter outside A-Z was used as an out of bounds index in the mapping.
---
 src/refined_soundex.rs | 4 +++-
 src/soundex.rs         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..0de2852 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -161,7 +161,9 @@ impl Default for RefinedSoundex {
 
 impl Encoder for RefinedSoundex {
     fn encode(&self, value: &str) -> String {
-        let value = Self::soundex_clean(value);
+        // Only 'A' to 'Z' have a code in the mapping, ignore other letters.
+        let mut value = Self::soundex_clean(value);
+        value.retain(|ch| ch.is_ascii_uppercase());
 
         let mut code = match value.chars().next() {
             Some(ch) => {
diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..2bf5067 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -221,7 +221,9 @@ impl TryFrom<String> for Soundex {
 
 impl Encoder for Soundex {
     fn encode(&self, value: &str) -> String {
-        let value = Self::soundex_clean(value);
+        // Only 'A' to 'Z' have a code in the mapping, ignore other letters.
+        let mut value = Self::soundex_clean(value);
+        value.retain(|ch| ch.is_ascii_uppercase());
         let mut iterator = value.chars();
 
         let mut code: [char; 4] = ['0', '0', '0', '0'];
-- 
2.43.0


From c12298b0e2ad1863777bb7982a784c4d9e2d4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 07/29] fix: Caverphone removes everything that is not a letter
 from a to z

Other lowercase letters stayed in the code, and panicked when the code was cut
in the middle of one of them.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From 7e066a4cbf59c2abac4bc09984626b3400ca70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 08/29] fix: strict Nysiis truncates the code on a character
 boundary

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From bc1f11798fd0c99d1c7b77d1e50142871fc55c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 09/29] fix: Phonex codes are exactly max_code_length
 characters long

The length was counted in bytes, so a non ASCII first letter shortened the code,
and a leading pair such as "ND" added two characters without checking the limit.
---
 src/phonex.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..d988068 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -158,6 +158,8 @@ impl Encoder for Phonex {
         // Use directly the return type, with the right allocated capacity (if we're
         // only using ASCII).
         let mut result = String::with_capacity(self.max_code_length);
+        // Number of characters in the result.
+        let mut len = 0;
 
         let mut code = '0';
         let mut last = '0';
@@ -165,13 +167,14 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if len == self.max_code_length {
                 break 'char_iter;
             }
 
             // We always add the first (sanitized, preprocessed) character.
             if i == 0 {
                 result.push(curr);
+                len += 1;
                 last_push = curr;
             }
 
@@ -196,8 +199,9 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            if last != code && code != '0' && i != 0 && len < self.max_code_length {
                 result.push(code);
+                len += 1;
                 last_push = code;
             }
 
@@ -209,8 +213,9 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while len < self.max_code_length {
             result.push('0');
+            len += 1;
         }
 
         result
-- 
2.43.0


From 69c517a829c0b688135364198d10368b64d3c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 10/29] fix: MatchRatingApproach counts characters and accepts
 empty codes

Lengths were counted in bytes, get_first3_last3 sliced inside multi-byte characters,
and comparing a value made only of ignored characters ("--") underflowed.
---
 src/match_rating_approach.rs | 37 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..ae741eb 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,10 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let len = value.chars().count();
+        if len > 6 {
+            let first3 = value.chars().take(3);
+            first3.chain(value.chars().skip(len - 3)).collect()
         } else {
             value
         }
@@ -151,13 +153,9 @@ impl MatchRatingApproach {
         let mut n1: Vec<char> = name1.chars().collect();
         let mut n2: Vec<char> = name2.chars().collect();
 
-        let n1len = n1.len() - 1;
-        let n2len = n2.len() - 1;
-
-        for i in 0..n1.len() {
-            if i > n2len {
-                break;
-            }
+        for i in 0..n1.len().min(n2.len()) {
+            let n1len = n1.len() - 1;
+            let n2len = n2.len() - 1;
 
             let c1: &char = n1.get(i).unwrap();
             let c2: &char = n2.get(i).unwrap();
@@ -174,20 +172,16 @@ impl MatchRatingApproach {
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
-        } else {
-            6usize.abs_diff(r2.len())
-        }
+        6usize.abs_diff(r1.max(r2))
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().chars().count() <= 1 {
             return String::new();
         }
 
@@ -204,7 +198,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -215,11 +209,14 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        let name1_length = name1.chars().count();
+        let name2_length = name2.chars().count();
+
+        if name1_length.abs_diff(name2_length) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = name1_length + name2_length;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 0fe4acc21d675c769ca92bcd1d9d9194b2013aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 11/29] fix: DaitchMokotoff counts characters instead of bytes
 in rules
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The shipped rules for ą, ę and ț swallowed the following letter because the length
of the pattern was in bytes.
---
 src/daitch_mokotoff.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..c890460 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -14,6 +14,7 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+use std::cmp::Reverse;
 use std::collections::BTreeMap;
 
 use nom::Parser;
@@ -47,9 +48,8 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
-            self.builder.push('0');
-        }
+        let len = self.builder.chars().count();
+        self.builder.extend((len..MAX_LENGTH).map(|_| '0'));
     }
 
     fn process_next_replacement(&mut self, replacement: &'a str, append_force: bool) {
@@ -58,11 +58,9 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
-            self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
-            }
+        if append {
+            let remaining = MAX_LENGTH.saturating_sub(self.builder.chars().count());
+            self.builder.extend(replacement.chars().take(remaining));
         }
 
         self.last_replacement = Some(replacement);
@@ -83,7 +81,7 @@ impl Rule {
     }
 
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
@@ -518,7 +516,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
         // Ordering by pattern length decreasing.
         rules
             .values_mut()
-            .for_each(|v| v.sort_by(|a, b| a.pattern.len().cmp(&b.pattern.len()).reverse()));
+            .for_each(|v| v.sort_by_key(|rule| Reverse(rule.get_pattern_length())));
 
         Ok(DaitchMokotoffSoundex {
             ascii_folding: self.ascii_folding,
-- 
2.43.0


From 5e640a8a19538dcb53141a1728552a659895d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 12/29] fix: DaitchMokotoffSoundexBuilder returns an error on
 an empty pattern instead of panicking

---
 src/daitch_mokotoff.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index c890460..8bdebfb 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -477,8 +477,14 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let Some(ch) = rule.pattern.chars().next() else {
+                    return Err(build_error(
+                        line_number,
+                        None,
+                        remains,
+                        "Pattern can't be empty".to_string(),
+                    ));
+                };
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From ffb7df57741238dac26469de34520f5d5c0961c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 13/29] fix: DaitchMokotoff error line is right after a
 multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 8bdebfb..4a375de 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -505,7 +505,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 23cfe5965eaf2f10d7ba02db11e0620d24b194fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 14/29] fix: DaitchMokotoff with branching returns each code
 once

---
 src/daitch_mokotoff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 4a375de..2e37251 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -389,7 +389,10 @@ impl DaitchMokotoffSoundex {
         let mut result: Vec<String> = Vec::with_capacity(current_branches.len());
         for branch in current_branches.iter_mut() {
             branch.finish();
-            result.push(branch.builder.clone());
+            // Branches might only differ by their last replacement.
+            if !result.contains(&branch.builder) {
+                result.push(branch.builder.clone());
+            }
         }
 
         result
-- 
2.43.0


From 404a9fc8940a6fc1d5756269c8ef36d2dd26a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 15/29] fix: Beider-Morse keeps phonemes that differ only by
 their languages

The set of phonemes compared only the text, so a phoneme was lost when another one
with the same text but for other languages was already there, and the phonemes kept
when max_phonemes is reached were not the first ones.
---
 src/beider_morse/engine.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..7f29dd9 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -33,12 +33,13 @@ lazy_static::lazy_static! {
 
 #[derive(Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
 struct PhonemeBuilder {
-    phonemes: BTreeSet<Phoneme>,
+    // Two phonemes can have the same text with different languages, so this can't be a set.
+    phonemes: Vec<Phoneme>,
 }
 
 impl PhonemeBuilder {
     fn empty(languages: &LanguageSet) -> Self {
-        let phonemes = BTreeSet::from([Phoneme::new("", languages.clone())]);
+        let phonemes = vec![Phoneme::new("", languages.clone())];
         Self { phonemes }
     }
 
@@ -60,7 +61,7 @@ impl PhonemeBuilder {
     }
 
     fn apply(&mut self, phoneme_expr: &PhonemeList, max_phonemes: usize) {
-        let mut phonemes: BTreeSet<Phoneme> = BTreeSet::new();
+        let mut phonemes: Vec<Phoneme> = Vec::new();
 
         'outer: for left in self.phonemes.iter() {
             for right in phoneme_expr.phonemes().iter() {
@@ -68,7 +69,7 @@ impl PhonemeBuilder {
                 if !languages.is_empty() {
                     let phoneme = Phoneme::join(left, right, languages);
                     if phonemes.len() < max_phonemes {
-                        phonemes.insert(phoneme);
+                        phonemes.push(phoneme);
                     }
                     if phonemes.len() >= max_phonemes {
                         break 'outer;
@@ -179,7 +180,9 @@ impl PhoneticEngine<'_> {
             }
         }
 
-        PhonemeBuilder { phonemes }
+        PhonemeBuilder {
+            phonemes: phonemes.into_iter().collect(),
+        }
     }
 
     pub fn encode(&self, input: &str) -> String {
-- 
2.43.0


From 43f550f53a802638f0cd6a40e95724812d44f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 16/29] fix: Beider-Morse merges the languages of the phoneme,
 not those of its origin

Final rules restrict languages, merging with the unrestricted set made the phoneme
valid for languages it doesn't belong to.
---
 src/beider_morse/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 7f29dd9..d71e9dc 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -171,7 +171,7 @@ impl PhoneticEngine<'_> {
 
             for new_phoneme in sub_builder.phonemes {
                 if let Some(old_phoneme) = phonemes.get(&new_phoneme) {
-                    let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());
+                    let merge_phoneme = old_phoneme.merge_with_language(new_phoneme.languages());
                     // Since equality is on text, replace should work fine
                     phonemes.replace(merge_phoneme);
                 } else {
-- 
2.43.0


From 668f20856b57e4a2d071f628b6af8a69b3015266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 17/29] fix: Beider-Morse doesn't duplicate the empty
 alternative of a phoneme expression

---
 src/beider_morse/rule.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..dc59e11 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -196,12 +196,6 @@ fn parse_phoneme_expr(phoneme_rule: &str) -> Result<PhonemeList, BMError> {
         for phoneme in phoneme_rule.split('|') {
             phs.push(parse_phoneme(phoneme)?)
         }
-        if phoneme_rule.starts_with('|') || phoneme_rule.ends_with('|') {
-            phs.push(Phoneme {
-                phoneme_text: "".to_string(),
-                languages: LanguageSet::Any,
-            })
-        }
         Ok(PhonemeList { phonemes: phs })
     } else {
         let phoneme = parse_phoneme(phoneme_rule)?;
-- 
2.43.0


From d4a3cb1a98eb58b0b01e9db5a6d0b00e8749d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 18/29] fix: Beider-Morse ignores spaces around the name before
 looking for a prefix

'van ' was encoded as '()-(...)' since the remainder was empty.
---
 src/beider_morse/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index d71e9dc..d9a0cd8 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -212,6 +212,7 @@ impl PhoneticEngine<'_> {
         let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
 
         let input = input.to_lowercase().replace('-', " ");
+        let input = input.trim();
 
         if self.name_type == NameType::Generic {
             if let Some(remainder) = input.strip_prefix("d'") {
-- 
2.43.0


From 7065fc8c4370ce685da890b586e879df53770205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 19/29] fix: Beider-Morse uses the 'any' rules when there are
 no rules for the given language

encode_with_languages panicked on a single language that has no rules, which
is every language when embedded rules are used.
---
 src/beider_morse/engine.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index d9a0cd8..0c5cb0f 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -191,15 +191,18 @@ impl PhoneticEngine<'_> {
     }
 
     pub fn encode_with_language_set(&self, input: &str, languages: &LanguageSet) -> String {
-        let l = if languages.is_singleton() {
-            match languages.any() {
-                Some(l) => l,
-                None => unreachable!(
-                    "It's a singleton, so there is one language and 'any()' must be 'Some(...)'"
-                ),
+        // Languages can be anything the caller wants, so there might not be any rules for it.
+        let l = match languages.any() {
+            Some(l)
+                if languages.is_singleton()
+                    && self
+                        .rules
+                        .rules(self.name_type, PrivateRuleType::Rules, l)
+                        .is_some() =>
+            {
+                l
             }
-        } else {
-            "any"
+            _ => "any",
         };
         let rules = self
             .rules
-- 
2.43.0


From cc12f42e217d00ed1180edcddab8418d5866b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 20/29] fix: Beider-Morse returns an error on an empty pattern
 instead of panicking

---
 src/beider_morse/rule.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index dc59e11..0fc32a7 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -222,6 +222,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let ch = pattern.chars().next().ok_or_else(|| {
+                build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Pattern can't be empty".to_string(),
+                )
+            })?;
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -246,7 +254,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
-- 
2.43.0


From 9b90d6817a2ec86ecb55ac0249041e7e345ff074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 21/29] fix: Beider-Morse returns an error when a languages
 file is missing instead of panicking

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..e8f07b8 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -154,7 +154,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From 12ae4dd9b9e800c2f8b2154e335d91308ce5abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 22/29] fix: Beider-Morse errors report the failing line, not
 the line after it

---
 src/beider_morse/lang.rs | 6 +++---
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index e8f07b8..3795305 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,11 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
+
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +138,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 0fc32a7..8854528 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -266,7 +266,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -279,6 +278,7 @@ fn parse_rule(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0


From 2c8e7334cdd0249d9245db222b3c33e4fc86c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 23/29] fix: Beider-Morse reports the file name of a wrong
 languages file

---
 src/beider_morse/languages.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/languages.rs b/src/beider_morse/languages.rs
index 76aaf9d..57edc54 100644
--- a/src/beider_morse/languages.rs
+++ b/src/beider_morse/languages.rs
@@ -152,7 +152,13 @@ impl TryFrom<&PathBuf> for Languages {
             let path = path?;
             if let Ok(name_type) = NameType::try_from(path.file_name()) {
                 let content = std::fs::read_to_string(path.path())?;
-                let languages = parse_liste(content)?;
+                let languages = parse_liste(content).map_err(|error| match error {
+                    PhoneticError::ParseRuleError(mut error) => {
+                        error.filename = path.path().to_str().map(|v| v.to_string());
+                        error.into()
+                    }
+                    error => error,
+                })?;
                 map.insert(name_type, languages);
             }
         }
-- 
2.43.0


From df9a9fc24a0ca9dee4c2d48776cd9688c6fa2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 24/29] fix: Beider-Morse returns an error when a rule file
 includes itself

It overflowed the stack, which aborts the process.
---
 src/beider_morse/rule.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 8854528..26671b6 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -209,6 +209,19 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_rule_included_by(resolver, filename, &[])
+}
+
+/// `parents` are the files that lead to this one through `#include`.
+fn parse_rule_included_by(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &[&str],
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.contains(&filename) {
+        return Err(BMError::BadRule(format!("{filename} includes itself")).into());
+    }
+    let parents = [parents, &[filename]].concat();
     let content = resolver.resolve(filename)?;
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
@@ -266,18 +279,19 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
-                if let PhoneticError::BMError(error) = error.clone() {
-                    build_error(
-                        line_number,
-                        Some(filename.to_string()),
-                        remains,
-                        error.to_string(),
-                    )
-                } else {
-                    error
-                }
-            })?;
+            let rules =
+                parse_rule_included_by(resolver, include_filename, &parents).map_err(|error| {
+                    if let PhoneticError::BMError(error) = error.clone() {
+                        build_error(
+                            line_number,
+                            Some(filename.to_string()),
+                            remains,
+                            error.to_string(),
+                        )
+                    } else {
+                        error
+                    }
+                })?;
             remains = rm;
             result.extend(rules);
             continue;
-- 
2.43.0


From e73d1529dd070505e0ecbd2420e422f0e121365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 25/29] fix: a part of a rule doesn't span several lines

A malformed line could swallow the next one, and no error was reported.
---
 src/rules_parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..0288a44 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while, take_while1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -68,8 +68,12 @@ pub fn end_of_line<'a>(
 /// Recognize something between two double quote (`"..."`).
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and everything until the next quote, which is on the same line.
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_while(|c| c != '"' && c != '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
@@ -91,7 +95,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\n"), char('='), none_of("\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
@@ -99,8 +106,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From a9e8f314590076106ce4216805a658c2975aac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 26/29] fix: CharSequence clamps an inclusive range that ends
 at usize::MAX

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 0740afb..67a53e2 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -176,7 +176,7 @@ impl Index<RangeInclusive<usize>> for CharSequence<'_> {
     type Output = str;
 
     fn index(&self, index: RangeInclusive<usize>) -> &Self::Output {
-        &self[*index.start()..*index.end() + 1]
+        &self[*index.start()..index.end().saturating_add(1)]
     }
 }
 
-- 
2.43.0


From c50d802ebab4fb533f0bc55e96fc6925bf7b534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 27/29] fix: DoubleMetaphone accepts any max_code_length, it
 doesn't allocate it beforehand

---
 src/double_metaphone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index f436fdb..11d7cbb 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -55,8 +55,8 @@ impl DoubleMetaphoneResult {
         // If no `max_length` is given, allocate resulting string with
         // a capacity of 10. It should be sufficient without realloc.
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(max_length.map_or(10, |length| length.min(10))),
+            alternate: String::with_capacity(max_length.map_or(10, |length| length.min(10))),
             max_length,
         }
     }
-- 
2.43.0


From 8318c725f804265bac5f2d5b8bf052d170828f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:39 +0000
Subject: [PATCH 28/29] fix: names with a lot of prefixes overflowed the stack

Each prefix of a generic name was a level of recursion, so a long text such
as "d'd'd'..." aborted the process. The parts are now encoded one after the
other.
---
 src/beider_morse/engine.rs | 88 +++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 0c5cb0f..e409e95 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -121,6 +121,12 @@ impl RulesApplication<'_> {
     }
 }
 
+/// A part of the code of a name that has a prefix.
+enum Part {
+    Separator(&'static str),
+    Name(String),
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct PhoneticEngine<'a> {
     pub(crate) rules: &'a Rules,
@@ -185,6 +191,52 @@ impl PhoneticEngine<'_> {
         }
     }
 
+    /// If `input` (already lower cased and trimmed) starts with a prefix, return the
+    /// name without its prefix, and the one that is combined with it.
+    fn split_prefix(&self, input: &str) -> Option<(String, String)> {
+        if self.name_type != NameType::Generic {
+            return None;
+        }
+        if let Some(remainder) = input.strip_prefix("d'") {
+            return Some((remainder.to_string(), format!("d{remainder}")));
+        }
+        for prefix in NAME_PREFIXES.get(&self.name_type).unwrap() {
+            let remainder = input
+                .strip_prefix(prefix)
+                .and_then(|remainder| remainder.strip_prefix(' '));
+            if let Some(remainder) = remainder {
+                return Some((remainder.to_string(), format!("{prefix}{remainder}")));
+            }
+        }
+        None
+    }
+
+    /// Encode a name without its prefix and combined with it. They may start with
+    /// a prefix too, without limit, so there is no recursion here.
+    fn encode_names(&self, names: (String, String)) -> String {
+        let mut result = String::new();
+        // Last one first
+        let mut parts = Vec::new();
+        let push = |parts: &mut Vec<Part>, (remainder, combined): (String, String)| {
+            parts.push(Part::Separator(")"));
+            parts.push(Part::Name(combined));
+            parts.push(Part::Separator(")-("));
+            parts.push(Part::Name(remainder));
+            parts.push(Part::Separator("("));
+        };
+        push(&mut parts, names);
+        while let Some(part) = parts.pop() {
+            match part {
+                Part::Separator(separator) => result.push_str(separator),
+                Part::Name(name) => match self.split_prefix(name.trim()) {
+                    Some(names) => push(&mut parts, names),
+                    None => result.push_str(&self.encode(&name)),
+                },
+            }
+        }
+        result
+    }
+
     pub fn encode(&self, input: &str) -> String {
         let languages = self.lang.guess_languages(input);
         self.encode_with_language_set(input, &languages)
@@ -217,40 +269,8 @@ impl PhoneticEngine<'_> {
         let input = input.to_lowercase().replace('-', " ");
         let input = input.trim();
 
-        if self.name_type == NameType::Generic {
-            if let Some(remainder) = input.strip_prefix("d'") {
-                let mut combined = String::with_capacity(remainder.len() + 1);
-                combined.push('d');
-                combined.push_str(remainder);
-                let combined = self.encode(&combined);
-                let remainder = self.encode(remainder);
-                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
-                result.push('(');
-                result.push_str(&remainder);
-                result.push_str(")-(");
-                result.push_str(&combined);
-                result.push(')');
-                return result;
-            }
-            for prefix in NAME_PREFIXES.get(&self.name_type).unwrap() {
-                let mut p = String::with_capacity(prefix.len() + 1);
-                p.push_str(prefix);
-                p.push(' ');
-                if let Some(remainder) = input.strip_prefix(p.as_str()) {
-                    let mut combined = String::with_capacity(prefix.len() + remainder.len());
-                    combined.push_str(prefix);
-                    combined.push_str(remainder);
-                    let combined = self.encode(&combined);
-                    let remainder = self.encode(remainder);
-                    let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
-                    result.push('(');
-                    result.push_str(&remainder);
-                    result.push_str(")-(");
-                    result.push_str(&combined);
-                    result.push(')');
-                    return result;
-                }
-            }
+        if let Some(names) = self.split_prefix(input) {
+            return self.encode_names(names);
         }
 
         let words: Vec<&str> = input.split_whitespace().collect();
-- 
2.43.0


From dcf1b42703d55a1becda5e5b8faed68f35c3016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:10 +0000
Subject: [PATCH 29/29] fix: several spaces after name prefixes made the code
 grow exponentially

"da" and its remainder were joined with the other spaces between them, so
the joined name had the prefix again: a text such as "da  da  da  ..." (or
"da--da--...") took time and memory that double with each prefix.
---
 src/beider_morse/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index e409e95..50b1375 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -203,7 +203,8 @@ impl PhoneticEngine<'_> {
         for prefix in NAME_PREFIXES.get(&self.name_type).unwrap() {
             let remainder = input
                 .strip_prefix(prefix)
-                .and_then(|remainder| remainder.strip_prefix(' '));
+                .and_then(|remainder| remainder.strip_prefix(' '))
+                .map(str::trim_start);
             if let Some(remainder) = remainder {
                 return Some((remainder.to_string(), format!("{prefix}{remainder}")));
             }
-- 
2.43.0

