From 81ed25d336b0cec90c81dbff9772128d5421c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 1/4] fix: modulo_10_checksum overflowed u8 for long
 interleaved 2-of-5 data

---
 src/sym/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..bf05685 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,13 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    let mut odds = 0usize;
+    let mut evens = 0usize;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += *d as usize,
+            _ => evens += *d as usize,
         }
     }
 
@@ -43,6 +43,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From d2475d3fa2bd0d8df5021319a7c4b1c4a78ed70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 2/4] fix: Code128 checksum overflowed i32 for very long data

---
 src/sym/code128.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..5b5b18c 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -345,13 +345,13 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .enumerate()
+            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 7327cc035b157987377169fe3eac9a8d2ededdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 3/4] fix: Code128 moved FNC1 in front of an unpaired set C
 digit instead of rejecting it

---
 src/sym/code128.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 5b5b18c..05584ca 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,7 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 4453b3e3ccf1b2f55a6b1c888fe14005e8f976f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:51 +0000
Subject: [PATCH 4/4] fix: data length was truncated to 32 bits before
 validation

---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0

