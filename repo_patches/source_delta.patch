From 7f4eeb5c5aa9d3f7389ca1602b96f18576380fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:00 +0000
Subject: [PATCH 1/3] fix: don't repeat a pattern forever when it matches the
 empty string

`parser!(("a"?)*)` looped until it ran out of memory: each round of the
repetition matched the empty string, so the next round started in the same
place. Stop after a round that consumes nothing, as regular expressions do.
---
 src/parsers/repeat.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..9a93b8b 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,22 @@ where
         }
     }
 
+    /// True if the last pattern and separator we matched were both empty. In
+    /// that case another round would start out exactly where the last one did,
+    /// make no progress again, and so on forever.
+    fn is_stuck(&self) -> bool {
+        let n = self.sep_iters.len();
+        if n == 0 || !self.is_pattern_next() {
+            return false;
+        }
+        let round_start = if n == 1 {
+            self.start
+        } else {
+            self.sep_iters[n - 2].match_end()
+        };
+        self.end() == round_start
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -112,6 +128,11 @@ where
             assert_eq!(self.pattern_iters.len(), (self.num_matches() + 1) / 2);
             assert_eq!(self.sep_iters.len(), self.num_matches() / 2);
 
+            // As in regular expressions, an empty match ends the repetition.
+            if self.is_stuck() {
+                return Err(Reported);
+            }
+
             if self.is_pattern_next() {
                 let start = self.end();
                 let iter = self.params.pattern.parse_iter(context, start)?;
-- 
2.43.0


From 72d5efafa5d6e719f19e91015b656f1626fc72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:00 +0000
Subject: [PATCH 2/3] fix: section() must not match a region that starts with a
 blank line

A section is zero or more *nonblank* lines, followed by a blank line or the
end of input. When the very first line was blank, the section ran on to the
next blank line instead of being empty, so `sections(lines(u64))` rejected
"1\n\n\n2\n" and `section(string(any_char*))` could match "\n2\n".
---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..7760381 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // The very first line is blank, so this section has no lines.
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From f23d2e96c2d017bb65619cf6ede617d97c08e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:00 +0000
Subject: [PATCH 3/3] fix: say "expected binary digit" when digit_bin does not
 match

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0

