From 38fae32fe9ba9eed746987b35e7630331cbc13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 1/5] fix: decode surrogate pairs above U+1FFFF

The plane of the pair was or-ed instead of added to 0x10000, so every
odd plane's bit was lost: "\ud840\udc00" decoded to U+10000.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..15d29ad 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400 | (low - LOW_SURROGATE_MIN))
 }
 struct StringParser;
 
-- 
2.43.0


From 637aa959de2b8269de7535bef8094fe2bdd5701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 2/5] fix: write the digits of \u escapes in order

The nibbles were written from the lowest to the highest, and digits
above nine were offset from 'a' without subtracting ten, so U+0001 was
escaped as \u1000 and U+001F as \up100.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 15d29ad..c154db1 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From c191f5782e706912006de8809cb221585b287121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 3/5] fix: count U+0080 to U+00FF as two bytes when escaping

The length of a JsonString converted from a str or String counted these
characters as one byte, so decoded_len(), len() and the comparisons that
rely on them were wrong.
---
 src/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index c154db1..60c50a8 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,9 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        // `u8::try_from` covers all of Latin-1, which takes
+                        // two bytes per character from U+0080 on.
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From 39983ea0bcf028b9005dd1feab2f2ad19756bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 4/5] fix: compare decoded lengths of JSON and raw strings

The quick check compared the encoded lengths, which differ between
equal strings that are escaped differently ("\\u0061\\n" and a raw
"a\n").
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 60c50a8..0c9574a 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if other.decoded_len() == self.decoded_len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if self.decoded_len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From 6f152f6fe75dcc2bef395ca2cedad01eddb892c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 5/5] fix: bound the size hint of escaping iterators correctly

The upper bound was the number of source characters, although each may
be escaped to up to six.
---
 src/string.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 0c9574a..f75206a 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -889,7 +889,16 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        match &self.state {
+            EscapeState::AlreadyEscaped => (lower, upper),
+            // Every character can still become a six character escape sequence,
+            // and up to five characters of the current one may be pending.
+            _ => (
+                lower,
+                upper.and_then(|upper| upper.checked_mul(6)?.checked_add(5)),
+            ),
+        }
     }
 }
 
-- 
2.43.0

