From d6a2e0af2e578de365fba636e60f54d7559467dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 01/29] fix: skip multi-byte whitespace by its full UTF-8
 length

---
 src/tokenizer/slice.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..9e86a84 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -23,24 +23,25 @@ impl<'code> Clone for SliceTokenizer<'code> {
 }
 
 fn eat_whitespace(code: &str, pos: &mut Position) {
+    let bytes = code.as_bytes();
     let mut index = pos.offset;
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
+    while index < bytes.len() {
+        match bytes[index] {
             b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
                 index += 1;
             }
             b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
+                index += WS_ZWNBSP.len();
             }
             b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+                index += WS_NBSP.len();
             }
             _ => break,
         }
+        pos.column += 1;
     }
 
-    pos.column += index - pos.offset;
     pos.offset = index;
 }
 
-- 
2.43.0


From b6c6b33d5826d41cec227656009af973083757ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 02/29] fix: count lines from 1 and treat CRLF as one line
 terminator

---
 src/tokenizer/slice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9e86a84..ecc79a0 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -103,7 +103,10 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position {
+                line: 1,
+                ..Default::default()
+            },
         }
     }
 }
@@ -318,6 +321,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From dae625efdacfc4e46b470ed0af9142f4639ae969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 03/29] fix: reject an unterminated string literal

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ecc79a0..132035d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -798,6 +798,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        unimplemented!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From b58e8436e2d6059a51dc105640fbd2a8d18baad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 04/29] fix: decode and validate every digit of 0x, 0o and 0b
 literals

---
 src/tokenizer/slice.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 132035d..7e0cf8d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -442,12 +442,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -458,11 +458,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
@@ -470,13 +470,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -494,13 +498,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -518,6 +526,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
-- 
2.43.0


From c55a3688b7ba3b1f0d6b4777af1af8312ac1fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 05/29] fix: read the exponent that follows a zero literal

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 7e0cf8d..1acecaa 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -556,7 +556,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[index + 1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From e976d780d757f9823ca9f412d24c3223747d288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 06/29] fix: reject an exponent without digits and saturate a
 huge one

---
 src/tokenizer/slice.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 1acecaa..f728100 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -352,7 +352,9 @@ fn tok_fractional<'code, 'tok>(code: &'code str, token: &'tok mut tokens::Token<
     let (exp, num) = parse_exponent(&bytes[offset..]);
 
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        if val != 0f64 {
+            val = val * 10f64.powi(exp);
+        }
         offset += num;
     }
 
@@ -429,7 +431,9 @@ fn tok_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) -> u
 
     let (exp, num) = parse_exponent(&bytes[offset..]);
     if num != 0 {
-        val = val * 10f64.powi(exp);
+        if val != 0f64 {
+            val = val * 10f64.powi(exp);
+        }
         offset += num;
     }
 
@@ -548,7 +552,9 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
 
             let (exp, num) = parse_exponent(&bytes[offset..]);
             if num != 0 {
-                val = val * 10f64.powi(exp);
+                if val != 0f64 {
+                    val = val * 10f64.powi(exp);
+                }
                 offset += num;
             }
 
@@ -871,19 +877,19 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
 }
 
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
-    let b = if bytes.len() >= 2 { bytes[0] } else { 0 };
+    let b = if bytes.len() >= 1 { bytes[0] } else { 0 };
     let (offset, sign) = match b {
         b'e' | b'E' => {
-            match bytes[1] {
-                b'+' => (2, 1),
-                b'-' => (2, -1),
+            match bytes.get(1) {
+                Some(b'+') => (2, 1),
+                Some(b'-') => (2, -1),
                 _ => (1, 1),
             }
         }
         _ => return (0, 0),
     };
 
-    let mut value = 0;
+    let mut value = 0i32;
 
     let mut i = offset;
     while i < bytes.len() {
@@ -891,8 +897,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = value.saturating_mul(10).saturating_add(val);
                 }
             }
             _ => break,
@@ -900,6 +905,9 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
 
         i += 1;
     }
+    if i == offset {
+        unimplemented!("invalid number error")
+    }
 
     (sign * value, i)
 }
-- 
2.43.0


From eebd80dd7f4f3f8c3ddb9905a52f36e924511882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 07/29] fix: only skip the LF that directly follows an escaped
 CR in a string

---
 src/tokenizer/slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f728100..f095904 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -719,6 +719,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
 
     let s: usize = index + 1;
     for (i, &b) in bytes.iter().enumerate().skip(1) {
+        let after_escaped_cr = ignore_nl;
+        ignore_nl = false;
+
         // TODO: Build state transition tables for parsing escapes
 
         if in_escape == 1 {
@@ -801,7 +804,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if after_escaped_cr => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From e5be891c9e9775a6ccb4f85ca022d61181406bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 08/29] fix: accept non-special escaped characters in strings

---
 src/tokenizer/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f095904..8fb601a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -757,7 +757,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    // A NonEscapeCharacter stands for itself.
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 2a92af90967c2dc63be4d69e5b11aa5ebb4e779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 09/29] fix: validate the digits of hex and unicode escapes in
 strings

---
 src/tokenizer/slice.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 8fb601a..82d656d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -715,6 +715,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
     let mut in_hex_escape = false;
     let mut in_unicode_escape = false;
     let mut in_long_unicode_escape = false;
+    let mut unicode_value = 0;
     let mut ignore_nl = false;
 
     let s: usize = index + 1;
@@ -752,6 +753,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
                 b'u' => {
                     in_unicode_escape = true;
+                    unicode_value = 0;
                 }
                 b'1'...b'9' => {
                     panic!("numbers not allowed");
@@ -763,6 +765,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
             }
         }
+        if in_hex_escape && in_escape > 1 && !(b as char).is_digit(16) {
+            panic!("invalid hex escape");
+        }
         if in_hex_escape && in_escape == 3 {
             in_escape = 0;
             in_hex_escape = false;
@@ -770,6 +775,18 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         if in_unicode_escape {
             if in_escape == 2 && b == b'{' {
                 in_long_unicode_escape = true;
+            } else if in_long_unicode_escape && b == b'}' {
+                if in_escape == 3 {
+                    panic!("invalid unicode escape");
+                }
+            } else if in_escape > 1 {
+                match (b as char).to_digit(16) {
+                    Some(digit) => unicode_value = unicode_value * 16 + digit,
+                    None => panic!("invalid unicode escape"),
+                }
+                if unicode_value > 0x10FFFF {
+                    panic!("invalid unicode escape");
+                }
             }
 
             if !in_long_unicode_escape && in_escape == 5 {
-- 
2.43.0


From 72b4c9c90cee44d0297e6379fb678a1d08521ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 10/29] fix: honour backslash escapes in template literals

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 82d656d..a797727 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -392,9 +392,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -674,9 +682,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From 709f0be2e615596e11cf6bafa5955eabf8a0325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 11/29] fix: end a regular expression literal at a line
 terminator

---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a797727..f186094 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -630,9 +630,14 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    unimplemented!("unterminated regex");
+                }
+                b'\xE2' if code[i..].starts_with(NS_LS) || code[i..].starts_with(NS_PS) => {
+                    unimplemented!("unterminated regex");
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From aac1e99f9f84cb540c38d76bd3c6c6927cdb049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 12/29] fix: tokenize --> as -- followed by >

---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f186094..6770e2c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -238,11 +238,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From a4da46c63b88acc6421c0efe4238b00b09a9f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 13/29] fix: reject an unexpected character instead of
 producing an empty token

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 6770e2c..34e71d1 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -377,6 +377,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        unimplemented!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From 1a0e34c087406748c0bc2c1c9f2d136e1f0dbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:15 +0000
Subject: [PATCH 14/29] hook: re-export token types under cfg(jsparse_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..897e65a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,9 @@ pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
 pub mod parser;
+
+// Re-exports for the verification harnesses; compiled only with --cfg jsparse_verif.
+#[cfg(jsparse_verif)]
+pub mod verif_hooks {
+    pub use tokenizer::{tokens, Hint, Position, TokenRange};
+}
-- 
2.43.0


From 5ac21ac78c4f2b7b1520a94fa001251f76c590e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 15/29] fix: apply the expression hint to exactly the token
 that starts an operand

expect_expression() leaked onto the following token when a token was already
buffered (1/2, a[b]/c/d), several operand positions never asked for an
expression ([/re/], new, `${/re/}`, a[/re/]), and the lookahead treated
this/null/true/false as operators.
---
 src/parser/expressions.rs |  7 ++++++-
 src/parser/mod.rs         | 20 ++++++++++++++++----
 src/parser/module.rs      |  1 +
 src/parser/statements.rs  |  8 ++++++--
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..5057414 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -144,8 +144,8 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
 
             self.expect_expression();
@@ -385,6 +385,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -425,6 +426,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -631,6 +633,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
+            self.expect_expression();
             if let TokenResult::Some(_) = self.parse_array_item()? {
             }
 
@@ -685,6 +688,7 @@ where
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -702,6 +706,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..aa1cb41 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // A token that has already been read keeps the hint it was read with, and
+        // the hint must not leak onto the token after it.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
@@ -194,6 +198,8 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         self.semicolon_inner(true)
     }
     fn semicolon_inner(&mut self, was_do_while: bool) -> TokenResult<()> {
+        self.expect_expression();
+
         let exists = {
             let (line, token) = self.token_and_line();
 
@@ -214,8 +220,6 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         // println!("Performing ASI");
         if exists {
             self.pop();
-        } else {
-            self.expect_expression();
         }
         TokenResult::Some(())
     }
@@ -304,7 +308,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                !is_binding_identifier(&flags, name) && !is_operand_keyword(name)
             } else {
                 return None;
             };
@@ -535,6 +539,14 @@ where
     }
 }
 
+// Keywords that are complete operands, so what follows is an operator.
+fn is_operand_keyword(s: &str) -> bool {
+    match s {
+        "this" | "null" | "true" | "false" | "super" => true,
+        _ => false,
+    }
+}
+
 fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     // TODO: In strict mode specifically, 'arguments' and 'eval' aren't allowed as binding names,
     // just labels and references.
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..1bdf126 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -61,6 +61,7 @@ where
         try_value!(self.keyword("export"));
 
         if let TokenResult::Some(_) = self.keyword("default") {
+            self.expect_expression();
             let mut parser = self.with(Flag::Default);
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..b7e7457 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -310,6 +310,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -602,6 +603,7 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -613,6 +615,7 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -624,8 +627,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -671,8 +674,8 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -696,6 +699,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From 251cf4736d6ba8bb44b1cc74e949e0f9a65aea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 16/29] fix: allow the in operator inside brackets,
 initializers and for clauses

let/const initializers, the test and update of a for statement, parenthesized,
array, object and template operands and parameter defaults are [+In] contexts,
and the right-hand side of for-in is an Expression.
---
 src/parser/declarations.rs | 10 +++++-----
 src/parser/expressions.rs  | 37 +++++++++++++++++++------------------
 src/parser/functions.rs    |  4 ++--
 src/parser/statements.rs   |  6 +++---
 4 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..65ba79f 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -44,10 +44,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -57,10 +57,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5057414..37a80b6 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -668,7 +668,7 @@ where
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
             return Ok(TokenResult::Some(()));
         }
 
@@ -677,7 +677,7 @@ where
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
         } else {
             // TODO: This needs to handle singlename prop access
             // eat_value!(self.parse_method_tail(head)?);
@@ -689,8 +689,8 @@ where
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
-        } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+        } else if let TokenResult::Some(_) = self.with(Flag::In).parse_assignment_expression()? {
         }
         Ok(TokenResult::Some(()))
     }
@@ -707,7 +707,7 @@ where
             let mut parser = self.with(Flag::Template);
             loop {
                 parser.expect_expression();
-                eat_value!(parser.parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
 
@@ -720,32 +720,33 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        self.expect_expression();
+        parser.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                parser.expect_expression();
+                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                     } else {
-                        eat_value!(self.binding_identifier());
+                        eat_value!(parser.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(parser.parse_assignment_expression()?)
                 }
             }
         } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                 } else {
-                    eat_value!(self.binding_identifier());
+                    eat_value!(parser.binding_identifier());
                 }
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..2efcbc2 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -110,9 +110,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b7e7457..e0f1a13 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -505,12 +505,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
@@ -523,7 +523,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From aeabea7b743447f75be859d70a723f3e7a7b9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 17/29] fix: treat yield and await as reserved words, and as
 operators only in their functions

The await guard was inverted, yield was accepted as an operator anywhere,
yield* needed no operand and yield took a comma expression.
---
 src/parser/expressions.rs | 17 ++++++++++++-----
 src/parser/mod.rs         |  5 +----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 37a80b6..4d790ce 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -142,14 +142,20 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
         if self.no_line_terminator() {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
@@ -530,7 +536,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index aa1cb41..37eea9e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -552,11 +552,8 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     // just labels and references.
 
     match s {
-        // Conditional keywords
-        "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
-
         // Keywords
+        "await" |
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
         "do" | "else" | "export" | "extends" | "finally" | "for" | "function" | "if" | "import" | "in" |
         "instanceof" | "new" | "return" | "super" | "switch" | "this" | "throw" | "try" | "typeof" |
-- 
2.43.0


From 12c0bb63d3cb1fc0965ae1d02e4881a65bb51405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 18/29] fix: give arrow functions and accessors their own yield
 and await context

Arrow bodies inherited yield and await from the enclosing function, async
(a) => await b was rejected, accessors inherited them too, a setter parameter
could not have a default, and a line terminator before => was accepted.
---
 src/parser/classes.rs     | 22 +++++++++++++---------
 src/parser/expressions.rs | 35 +++++++++++++++++++++++++++--------
 src/parser/statements.rs  |  2 +-
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..f1fc33a 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -134,21 +134,25 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
-                }
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+
+                eat_value!(parser.parse_binding_element()?);
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4d790ce..86b7cd4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,12 +52,24 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.reify_arrow((), true)?);
 
                 return Ok(TokenResult::Some(()));
             }
         }
 
+        let maybe_async_call = if let Some(&LookaheadResult {
+            line: false,
+            token: tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen),
+        }) = self.ident_lookahead() {
+            true
+        } else {
+            false
+        } && match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        };
+
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
         let left = try_value!(self.parse_conditional_expression()?);
@@ -98,13 +110,17 @@ where
             _ => return Ok(TokenResult::Some(())),
         };
 
+        if let Reify::Arrow = t {
+            if !self.no_line_terminator() {
+                bail!("Unexpected line terminator between arrow arguments and arrow");
+            }
+        }
+
         self.pop();
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                self.reify_arrow(left, maybe_async_call)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -123,12 +139,15 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
-        self.expect_expression();
+    fn reify_arrow(&mut self, _left: (), async: bool) -> OptResult<()> {
+        let mut parser = self.without(Flag::Yield);
+        let mut parser = if async { parser.with(Flag::Await) } else { parser.without(Flag::Await) };
+
+        parser.expect_expression();
 
         Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
+            parser.parse_block_statement()?,
+            parser.parse_assignment_expression()?,
         ))
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e0f1a13..d2f85e0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -266,7 +266,7 @@ where
 
         Ok(TokenResult::Some(()))
     }
-    fn parse_binding_element(&mut self) -> OptResult<()> {
+    pub fn parse_binding_element(&mut self) -> OptResult<()> {
         if let TokenResult::None = self.parse_binding_pattern()? {
             try_value!(self.binding_identifier());
         }
-- 
2.43.0


From ba697d75507c43766366e3f98d6e0d314685dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 19/29] fix: recognize async functions, and end a statement
 before a function on a new line

Async function declarations and expressions were never dispatched, and any
identifier followed by the function keyword was rejected even across a line
terminator.
---
 src/parser/declarations.rs |  4 +++-
 src/parser/expressions.rs  | 15 ++-------------
 src/parser/functions.rs    | 29 ++++++++++++++++++-----------
 3 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 65ba79f..0aefa2f 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -17,11 +17,13 @@ where
             Const,
         }
 
+        let is_async_function = self.is_async_function();
+
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
+                    "async" if is_async_function => DeclType::Function,
                     "function" => DeclType::Function,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 86b7cd4..9326209 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -532,16 +532,17 @@ where
         }
 
         let flags = self.flags;
+        let is_async_function = self.is_async_function();
 
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
+                    "async" if is_async_function => PrimaryType::Function,
                     "this" => PrimaryType::This,
                     "true" => PrimaryType::True,
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
                     "function" => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
@@ -605,18 +606,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 2efcbc2..06eddf8 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -7,15 +7,29 @@ impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
-    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
+    // Checks for "async function" without a line terminator in between.
+    pub fn is_async_function(&mut self) -> bool {
+        let is_async = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
+        };
+
+        if !is_async {
+            return false;
+        }
+
+        if let Some(&LookaheadResult {
             line: false,
             token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
         }) = self.ident_lookahead() {
             name == "function"
         } else {
             false
-        };
+        }
+    }
+
+    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
@@ -57,14 +71,7 @@ where
     }
 
     pub fn parse_function_expression(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            name == "function"
-        } else {
-            false
-        };
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
-- 
2.43.0


From a290862ccc20eae1264b29066c585541aa754da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 20/29] fix: complete export declarations

export var/let/const demanded a second semicolon, export function/class were
rejected, export default took a comma expression, and the optional name of a
default export leaked into the function and class declarations nested in it.
---
 src/parser/module.rs     | 11 ++++++++---
 src/parser/statements.rs |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 1bdf126..0efd517 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -69,7 +69,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
@@ -79,9 +79,14 @@ where
 
             } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
 
+            } else if let TokenResult::Some(_) = self.parse_function_declaration()? {
+
+            } else if let TokenResult::Some(_) = self.parse_class_declaration()? {
+
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
+                eat_value!(self.semicolon());
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
@@ -98,9 +103,9 @@ where
                 } else {
                     // TODO: Validate BindingIdentifier for local specifiers
                 }
-            }
 
-            eat_value!(self.semicolon());
+                eat_value!(self.semicolon());
+            }
         }
 
         Ok(TokenResult::Some(()))
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index d2f85e0..4294f3c 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -126,6 +126,7 @@ where
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.without(Flag::Default);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From 21e79efa8ffee47a1d5c2b5d2770a10e5ecb5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 21/29] fix: parse the name, heritage and body of class
 expressions

---
 src/parser/classes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index f1fc33a..ce38638 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,12 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+
+        opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 9d95195268d98c43ff31d9f76fa8370a45bd9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 22/29] fix: parse new.target

---
 src/parser/expressions.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9326209..4a154ac 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -411,11 +411,12 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::None = self.parse_meta_property_expression()? {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_meta_property_expression()?,
                 self.parse_super_expression()?,
             ) {
                 return Ok(TokenResult::None);
@@ -500,8 +501,8 @@ where
     }
 
     fn parse_meta_property_expression(&mut self) -> OptResult<()> {
-        try_value!(self.keyword("new"));
-        eat_value!(self.punc(tokens::PunctuatorToken::Period));
+        // The "new" has already been consumed.
+        try_value!(self.punc(tokens::PunctuatorToken::Period));
         eat_value!(self.keyword("target"));
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 0688352cf7cf70e006ec93cd2131840712f20e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 23/29] fix: require the operand and semicolon of throw, and a
 handler after try

---
 src/parser/statements.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 4294f3c..dc36c60 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -676,9 +676,12 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
@@ -688,7 +691,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
-        if let TokenResult::Some(_) = self.keyword("catch") {
+        let has_catch = if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -698,11 +701,16 @@ where
             eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
             eat_value!(self.parse_block_statement()?);
-        }
+            true
+        } else {
+            false
+        };
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
+        } else if !has_catch {
+            bail!("Expected catch or finally after try block");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 291105b3634a6857bacfce54e1c15ee0f0c270d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 24/29] fix: do not take a reserved word for a label

default: inside a case clause was parsed as a label, hiding duplicate default
clauses.
---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index dc36c60..9d521e5 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -662,7 +662,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From 6766a090dbe8e78e150d03b1e6601d16806dfe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 25/29] fix: for heads with several let bindings or without a
 left-hand side

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9d521e5..893ebbe 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -455,7 +455,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
@@ -472,9 +472,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left_hand /* tmp */)
             }
         };
 
-- 
2.43.0


From df446f7e2d22ac13fc7bca9041a07a0d2eb23a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 26/29] fix: check the shape of object literal properties and
 method heads

Object literals accepted modifiers without a method ({get a}, {*a: 1}),
names that are not shorthand references ({1}, {if}), static, and empty
properties ({,}); get *a() was accepted and a method named async got an
async body.
---
 src/parser/classes.rs     | 40 ++++++++++++++++++++++++++++++++-------
 src/parser/expressions.rs | 23 ++++++++++++++--------
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index ce38638..428e871 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -81,7 +81,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -91,23 +91,35 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
-        let is_ident = false;
+        // Whether the head is nothing but an identifier that can be used as a reference.
+        let flags = self.flags;
+        let has_prefix = async || star.is_some() || match kind {
+            MethodKind::None => false,
+            _ => true,
+        };
+        let mut is_ident = !has_prefix && match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => is_binding_identifier(&flags, name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
+                is_ident = true;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
+                is_ident = true;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -115,9 +127,11 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_ident = true;
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_ident = true;
                     },
                     (&Some(_), _, _) => {
                         stat = None;
@@ -200,3 +214,15 @@ pub struct MethodHead {
     generator: bool,
     async: bool,
 }
+impl MethodHead {
+    // A name without any modifier, so what follows may be a value.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+    pub fn is_ident(&self) -> bool {
+        self.is_ident
+    }
+}
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4a154ac..ce3c58f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -667,7 +667,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
@@ -688,16 +689,22 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
+        let is_ident = head.is_ident();
+
+        let is_value = head.is_plain() && if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+            true
+        } else {
+            false
+        };
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+        if is_value {
             self.expect_expression();
             eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-        } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
-            opt_value!(self.parse_method_tail(head)?);
+        } else if let TokenResult::None = self.parse_method_tail(head)? {
+            if !is_ident {
+                bail!("Expected a property value or method");
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 550955720cb4fdc85a921a46142893f216ca5c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 27/29] fix: require a binding for property names in patterns
 and an expression in computed names

---
 src/parser/statements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 893ebbe..431d55a 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -196,10 +196,18 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_ident = match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => is_binding_identifier(&flags, name),
+            _ => false,
+        };
+
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
+        } else if !is_ident {
+            bail!("Expected a binding for the property");
         } else {
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
@@ -229,7 +237,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From efea6d8b074e0b68090fd4f06d3a89c283ef4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 28/29] fix: accept several spread arguments in a call

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ce3c58f..8956450 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -480,6 +480,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From a6c49a6a58d377d15ae3fed56ce850ecb15165a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 29/29] fix: accept all arrow parameter lists and shorthand
 initializers, and only there

(a,) => b and ({a = 1}) => b were rejected, while (), (...a) and
(a, ...b, c) without an arrow were accepted.
---
 src/parser/expressions.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8956450..dcbf340 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -706,6 +706,9 @@ where
             if !is_ident {
                 bail!("Expected a property value or method");
             }
+
+            // TODO: Only allowed when this turns out to be a pattern.
+            opt_value!(self.with(Flag::In).parse_initializer()?);
         }
 
         Ok(TokenResult::Some(()))
@@ -749,29 +752,35 @@ where
 
         parser.expect_expression();
 
+        // "()", a trailing comma and a rest element can only be the parameters of an arrow function.
+        let mut needs_arrow = true;
+
         if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            needs_arrow = false;
+
             while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
                 parser.expect_expression();
-                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
-                    } else {
-                        eat_value!(parser.binding_identifier());
-                    }
-                } else {
-                    eat_value!(parser.parse_assignment_expression()?)
+                if let TokenResult::Some(_) = parser.parse_binding_rest_element()? {
+                    needs_arrow = true;
+                    break;
+                } else if let TokenResult::None = parser.parse_assignment_expression()? {
+                    needs_arrow = true;
+                    break;
                 }
             }
         } else {
-            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
-                } else {
-                    eat_value!(parser.binding_identifier());
-                }
-            }
+            opt_value!(parser.parse_binding_rest_element()?);
         }
 
         eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
+        if needs_arrow {
+            match *parser.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => {}
+                _ => bail!("Expected an arrow after the parameters"),
+            }
+        }
+
         Ok(TokenResult::Some(()))
     }
 }
-- 
2.43.0

