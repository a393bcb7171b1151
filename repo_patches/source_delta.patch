From 63aa28eb2f6278ba2806bdfed3d1016fd2070a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 1/6] fix: English stemmer: require a non-empty stem before
 sses/ies/eed, as elasticlunr.js does

---
 src/lang/en.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..edafbd6 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -271,17 +271,20 @@ impl PorterStemmer {
     ///
     ///     meetings  ->  meet
     /// ~~~~
+    ///
+    /// As in elasticlunr.js, whose rules are anchored with `^(.+?)`, the
+    /// "sses", "ies" and "eed" rules need at least one character before the suffix.
     fn step1ab(&mut self) {
         if self.b[self.k - 1] == b's' {
-            if self.ends("sses") {
+            if self.ends("sses") && self.j > 0 {
                 self.k -= 2;
-            } else if self.ends("ies") {
+            } else if self.ends("ies") && self.j > 0 {
                 self.set_to("i");
             } else if self.b[self.k - 2] != b's' {
                 self.k -= 1;
             }
         }
-        if self.ends("eed") {
+        if self.ends("eed") && self.j > 0 {
             if self.measure() > 0 {
                 self.k -= 1
             }
-- 
2.43.0


From ab2bef0ed32e451ec954f5127048dd32e7768586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 2/6] fix: English stemmer: do not collapse a doubled y, as
 elasticlunr.js does not

---
 src/lang/en.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index edafbd6..a9dbf85 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -299,7 +299,7 @@ impl PorterStemmer {
             } else if self.double_consonant(self.k - 1) {
                 self.k -= 1;
                 match self.b[self.k - 1] {
-                    b'l' | b's' | b'z' => self.k += 1,
+                    b'l' | b's' | b'y' | b'z' => self.k += 1,
                     _ => (),
                 }
             } else if self.measure() == 1 && self.cvc(self.k - 1) {
-- 
2.43.0


From a608734f75d7add12709b4582f1cd216773d4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 3/6] fix: English stemmer: treat a multi-byte character as one
 consonant, as elasticlunr.js does

---
 src/lang/en.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index a9dbf85..425f7ae 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -190,6 +190,27 @@ impl PorterStemmer {
         false
     }
 
+    /// The index of the first byte of the character that b[i] is part of.
+    #[inline]
+    fn char_start(&self, i: usize) -> usize {
+        (0..=i)
+            .rev()
+            .find(|&i| self.b[i] & 0xC0 != 0x80)
+            .unwrap_or(0)
+    }
+
+    /// Whether [0, k) ends with the same non-ASCII BMP character twice. Returns the
+    /// length of that character in bytes, or 0.
+    fn doubled_non_ascii(&self) -> usize {
+        let start = self.char_start(self.k - 1);
+        let len = self.k - start;
+        if (2..=3).contains(&len) && self.b[..start].ends_with(&self.b[start..self.k]) {
+            len
+        } else {
+            0
+        }
+    }
+
     /// stem.double_consonant(i) is TRUE <=> i,(i-1) contain a double consonant.
     ///
     /// `b` holds arbitrary UTF-8, so restrict this to ASCII: two equal non-ASCII
@@ -209,7 +230,15 @@ impl PorterStemmer {
     ///    cav(e), lov(e), hop(e), crim(e), but
     ///    snow, box, tray.
     /// ~~~
-    fn cvc(&self, i: usize) -> bool {
+    ///
+    /// A final multi-byte character is one consonant, as it is for
+    /// elasticlunr.js, unless it is outside the BMP: there, JavaScript sees two
+    /// UTF-16 code units and so two consonants.
+    fn cvc(&self, end: usize) -> bool {
+        let i = self.char_start(end);
+        if end - i > 2 {
+            return false;
+        }
         if i < 2 || !self.is_consonant(i) || self.is_consonant(i - 1) || !self.is_consonant(i - 2) {
             false
         } else {
@@ -302,6 +331,8 @@ impl PorterStemmer {
                     b'l' | b's' | b'y' | b'z' => self.k += 1,
                     _ => (),
                 }
+            } else if self.doubled_non_ascii() > 0 {
+                self.k -= self.doubled_non_ascii();
             } else if self.measure() == 1 && self.cvc(self.k - 1) {
                 self.set_to("e");
             }
-- 
2.43.0


From 6f7aaa2e06d81ac8519c50bae5d19b4608258cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 4/6] fix: split words at U+FEFF, as elasticlunr.js does

---
 src/lang/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 6bd9632..9ce3ded 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -22,7 +22,8 @@ pub trait Language {
 
 /// Splits a text string into a vector of individual tokens.
 pub fn tokenize_whitespace(text: &str) -> Vec<String> {
-    text.split(|c: char| c.is_whitespace() || c == '-')
+    // U+FEFF is whitespace for elasticlunr.js (`\s`), but not for `char`.
+    text.split(|c: char| c.is_whitespace() || c == '-' || c == '\u{FEFF}')
         .filter(|s| !s.is_empty())
         .map(|s| s.trim().to_lowercase())
         .collect()
-- 
2.43.0


From 93066365e188838f07c1103fcd6e26a64f75fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 5/6] fix: Arabic stemmer: remove every diacritic, not only the
 first

---
 src/lang/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/ar.rs b/src/lang/ar.rs
index 2fa0074..34702ad 100644
--- a/src/lang/ar.rs
+++ b/src/lang/ar.rs
@@ -58,7 +58,7 @@ impl PipelineFn for Stemmer {
 
     fn filter(&self, token: String) -> Option<String> {
         // remove diacritics and elongating character
-        let result = self.diacritics.replace(&token, "");
+        let result = self.diacritics.replace_all(&token, "");
         // replace all variations of alef (آأإٱى) to a plain alef (ا)
         let result = self.alefs.replace(&result, "\u{0627}");
         if result.is_empty() {
-- 
2.43.0


From 961f2245ae5a9dd1191ed2690c8b99fba587f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 6/6] fix: DocumentStore::remove_doc: forget the field lengths
 of the document too

---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0

