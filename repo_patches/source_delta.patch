From 5b4665af68188094911441d51ad38af6b0889dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/55] fix: compare and hash numbers by value without panic

---
 src/yaml.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..77718c0 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -49,6 +49,29 @@ pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
     }
 }
 
+/// The value of an integer, or its text if it is out of the supported range.
+fn int_value(s: &str) -> Result<i128, &str> {
+    let n = if let Some(s) = s.strip_prefix("0x") {
+        i128::from_str_radix(s, 16)
+    } else if let Some(s) = s.strip_prefix("0o") {
+        i128::from_str_radix(s, 8)
+    } else {
+        s.parse()
+    };
+    n.map_err(|_| s)
+}
+
+/// The bits of a float number that are the same for the equal numbers,
+/// or its text if it is not a number format.
+fn float_value(s: &str) -> Result<u64, &str> {
+    match to_f64(s) {
+        Ok(n) if n.is_nan() => Ok(f64::NAN.to_bits()),
+        Ok(n) if n == 0. => Ok(0),
+        Ok(n) => Ok(n.to_bits()),
+        Err(_) => Err(s),
+    }
+}
+
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
@@ -139,11 +162,11 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                int_value(s).hash(state)
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                float_value(s).hash(state)
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +193,8 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => int_value(s1) == int_value(s2),
+            (Self::Float(s1), Self::Float(s2)) => float_value(s1) == float_value(s2),
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From bec0d7e466b39227b64bac905fd7582b951f65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 02/55] fix: digits of hexadecimal and octal numbers, fraction
 of scientific notation

---
 src/parser/base/grammar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..bc1365c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -47,8 +47,8 @@ impl Parser<'_> {
         self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
     }
 
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+    fn ascii_digit(radix: u32) -> impl Fn(&u8) -> bool + 'static {
+        move |c| char::from(*c).is_digit(radix)
     }
 
     /// Match float.
@@ -67,6 +67,8 @@ impl Parser<'_> {
     /// Match float with scientific notation.
     pub fn sci_float(&mut self) -> PResult<String> {
         self.num_prefix()?;
+        self.take_while(Self::is_in(b"."), TakeOpt::Range(0, 1))?;
+        self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         self.sym_set(b"eE")?;
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
-- 
2.43.0


From 34958f37f6f18d73c6ee53ed5ece9aae0da58d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 03/55] fix: accept a document that has no newline at the end

---
 src/parser/base/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bc1365c..fdb53f2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -9,6 +9,9 @@ use core::cmp::Ordering;
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -142,7 +145,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From a3b65dafbfd159ff8dffd842f78f8d491884c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 04/55] fix: spaces at the end of line or document

---
 src/parser/base/grammar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index fdb53f2..83c2e98 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -393,7 +393,14 @@ impl Parser<'_> {
             if cmt {
                 p.comment().unwrap_or_default();
             }
-            p.nl()?;
+            p.ws(TakeOpt::More(0))?;
+            if p.food().is_empty() && p.pos > p.eaten {
+                return Ok(1);
+            }
+            if let Err(e) = p.nl() {
+                p.backward();
+                return Err(e);
+            }
             let mut t = 1;
             loop {
                 // Check point
-- 
2.43.0


From 55ec6b4601b064fc49b48086c0f25ee796c6f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 05/55] fix: unterminated quoted string, escaped backslash and
 escaped newline

---
 src/parser/base/grammar.rs | 46 ++++++++++++++++++++++----------------
 src/parser/error.rs        | 15 +++++++++++++
 src/parser/mod.rs          |  5 +++--
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 83c2e98..ef52c4b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,5 @@
 use super::*;
 use alloc::format;
-use core::cmp::Ordering;
 
 /// The low level grammar implementation for YAML.
 ///
@@ -96,31 +95,35 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(&[b'\n', b'\r', b'\\', sym]), TakeOpt::More(0))?;
                 v.push_str(&p.text());
                 p.forward();
-                if p.sym_seq(ignore).is_ok() {
+                if p.food().is_empty() {
+                    return p.err("quoted string");
+                } else if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
-                } else if let Ok(mut t) = p.gap(false) {
-                    if v.ends_with('\\') {
-                        t -= 1;
-                    }
-                    match t.cmp(&1) {
-                        Ordering::Less => {}
-                        Ordering::Equal => {
-                            v.truncate(v.trim_end().len());
-                            // Manual wrapping
-                            if !v.ends_with("\\n") {
-                                v.push(' ');
-                            }
-                        }
-                        Ordering::Greater => {
-                            for _ in 0..t - 1 {
-                                v.push('\n');
-                            }
+                } else if let Ok(t) = p.gap(false) {
+                    if sym == b'"' && Self::is_escaping(&v) {
+                        // Escaped newline
+                        v.pop();
+                    } else {
+                        v.truncate(v.trim_end_matches([' ', '\t']).len());
+                        // Manual wrapping
+                        let manual = sym == b'"'
+                            && v.strip_suffix('n').is_some_and(Self::is_escaping);
+                        if t == 1 && !manual {
+                            v.push(' ');
                         }
                     }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
                     v.push('\\');
+                    p.forward();
+                    if sym == b'"' && p.sym(b'\\').is_ok() {
+                        // Escaped backslash
+                        v.push('\\');
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
                 }
@@ -129,6 +132,11 @@ impl Parser<'_> {
         })
     }
 
+    /// The last character is a backslash that is not escaped.
+    fn is_escaping(s: &str) -> bool {
+        s.bytes().rev().take_while(|c| *c == b'\\').count() % 2 == 1
+    }
+
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
         let mut patt = b"[]{}: \n\r".to_vec();
diff --git a/src/parser/error.rs b/src/parser/error.rs
index d428ad9..af66198 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -34,6 +34,21 @@ impl PError {
     }
 }
 
+/// Turn the mismatched result into `None`.
+pub(crate) trait Optional<T> {
+    fn optional(self) -> PResult<Option<T>>;
+}
+
+impl<T> Optional<T> for PResult<T> {
+    fn optional(self) -> PResult<Option<T>> {
+        match self {
+            Ok(t) => Ok(Some(t)),
+            Err(PError::Mismatch) => Ok(None),
+            Err(e) => Err(e),
+        }
+    }
+}
+
 impl Display for PError {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         match self {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..7330f0d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -55,6 +55,7 @@ use alloc::{
     vec::Vec,
 };
 use core::ops::{Deref, DerefMut};
+use error::Optional as _;
 
 mod base;
 mod error;
@@ -280,9 +281,9 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
+        } else if let Some(s) = self.string_quoted(b'\'', b"''").optional()? {
             R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if let Some(s) = self.string_quoted(b'"', b"\\\"").optional()? {
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From 1314702b12b3224335675c122772975117524552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 06/55] fix: undefined tag prefix, malformed tags and anchors

---
 src/parser/base/grammar.rs |  7 +++++--
 src/parser/mod.rs          | 43 +++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index ef52c4b..66919b2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -308,9 +308,12 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag prefix"),
+                    }
                 } else {
-                    String::new()
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7330f0d..fb4cb85 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -20,6 +20,13 @@
 //!
 //! ## Structure
 //!
+//! ### Scalar
+//!
+//! + quoted string: The quoted string is not closed.
+//! + anchor: The name of the anchor is invalid.
+//! + tag: The tag is invalid.
+//! + tag prefix: The tag prefix is not defined by the tag directive.
+//!
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
@@ -230,26 +237,16 @@ impl<R: Repr> Loader<'_, R> {
     where
         F: FnOnce(&mut Self) -> PResult<R::Rc>,
     {
-        let mut anchor = self.anchor().unwrap_or_default();
-        if !anchor.is_empty() {
-            self.bound()?;
-        }
-        self.forward();
-        let tag = self.tag().unwrap_or_default();
-        if !tag.is_empty() {
-            self.bound()?;
-        }
-        self.forward();
-        let anchor2 = self.anchor().unwrap_or_default();
+        let mut anchor = self.scalar_prop(b'&', "anchor", |p| p.anchor())?;
+        let tag = self.scalar_prop(b'!', "tag", |p| p.tag())?;
+        let anchor2 = self.scalar_prop(b'&', "anchor", |p| p.anchor())?;
         if !anchor2.is_empty() {
             if anchor.is_empty() {
-                self.bound()?;
                 anchor = anchor2;
             } else {
                 return self.err("duplicated anchor definition");
             }
         }
-        self.forward();
         let pos = self.indicator();
         let yaml = f(self)?;
         self.forward();
@@ -265,6 +262,21 @@ impl<R: Repr> Loader<'_, R> {
         }
     }
 
+    /// Match the property of a scalar if it has the indicator.
+    fn scalar_prop<F>(&mut self, sym: u8, name: &'static str, f: F) -> PResult<String>
+    where
+        F: FnOnce(&mut Self) -> PResult<String>,
+    {
+        if self.food().first() != Some(&sym) {
+            return Ok(String::new());
+        }
+        let prop = f(self)
+            .and_then(|s| self.bound().map(|_| s))
+            .or_else(|e| e.or(|| self.err(name)))?;
+        self.forward();
+        Ok(prop)
+    }
+
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
         let yaml = if let Ok(s) = self.float() {
@@ -273,7 +285,10 @@ impl<R: Repr> Loader<'_, R> {
             R::new_rc(Yaml::Float(s))
         } else if let Ok(s) = self.int() {
             R::new_rc(Yaml::Int(s))
-        } else if let Ok(s) = self.anchor_use() {
+        } else if self.food().first() == Some(&b'*') {
+            let s = self
+                .anchor_use()
+                .or_else(|e| e.or(|| self.err("anchor")))?;
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
-- 
2.43.0


From 7cb7839f3cb8346de845e9547ca606ecc8a6dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 07/55] fix: terminators, comments and line breaks of flow
 collections

---
 src/parser/base/grammar.rs | 12 ++++++++++++
 src/parser/mod.rs          | 27 +++++++++++++++------------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 66919b2..22d841a 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -429,6 +429,18 @@ impl Parser<'_> {
         })
     }
 
+    /// Match any optional invisible characters and comments in flow expressions.
+    pub fn flow_gap(&mut self) {
+        loop {
+            self.inv(TakeOpt::More(0)).unwrap_or_default();
+            let is_sep = self.pos > self.eaten;
+            self.forward();
+            if !is_sep || self.comment().is_err() {
+                break;
+            }
+        }
+    }
+
     /// Match comment.
     pub fn comment(&mut self) -> PResult<()> {
         self.ws(TakeOpt::More(0))?;
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index fb4cb85..6c0a61e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -30,12 +30,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The `[]` bracket is not closed.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The `{}` bracket is not closed.
 //!
 //! ### Array
 //!
@@ -323,8 +325,8 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'[')?;
         let mut v = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
             self.forward();
+            self.flow_gap();
             if self.sym(b']').is_ok() {
                 break;
             }
@@ -333,10 +335,11 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
-            self.inv(TakeOpt::More(0))?;
+            self.flow_gap();
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -349,20 +352,18 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'{')?;
         let mut m = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
             self.forward();
+            self.flow_gap();
             if self.sym(b'}').is_ok() {
                 break;
             }
             self.forward();
             let k = if self.complex_mapping().is_ok() {
-                self.forward();
+                self.flow_gap();
                 let k = self
-                    .scalar(level + 1, false, true)
+                    .scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
-                }
+                self.flow_gap();
                 k
             } else {
                 self.scalar_flow(level + 1, true)
@@ -377,9 +378,11 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.flow_gap();
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From 57e544401623d85ea09d444b22585467fb7652e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 08/55] fix: only the whole plain string can be a number

---
 src/parser/mod.rs | 48 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6c0a61e..e4edf0d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -281,13 +281,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.sci_float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.int() {
-            R::new_rc(Yaml::Int(s))
-        } else if self.food().first() == Some(&b'*') {
+        let yaml = if self.food().first() == Some(&b'*') {
             let s = self
                 .anchor_use()
                 .or_else(|e| e.or(|| self.err("anchor")))?;
@@ -310,7 +304,7 @@ impl<R: Repr> Loader<'_, R> {
                 ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".to_string()),
                 ".inf" | ".Inf" | ".INF" => Yaml::Float("inf".to_string()),
                 "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".to_string()),
-                _ => Yaml::Str(s),
+                _ => Self::plain_number(&s).unwrap_or(Yaml::Str(s)),
             })
         } else {
             self.seq_flow(level)
@@ -320,6 +314,37 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Match number.
+    fn number(p: &mut Parser) -> PResult<Yaml<R>> {
+        if let Ok(s) = p.float() {
+            Ok(Yaml::Float(s))
+        } else if let Ok(s) = p.sci_float() {
+            Ok(Yaml::Float(s))
+        } else {
+            p.int().map(Yaml::Int)
+        }
+    }
+
+    /// Match the whole plain string as a number.
+    fn plain_number(s: &str) -> Option<Yaml<R>> {
+        let mut p = Parser::new(s.as_bytes());
+        let yaml = Self::number(&mut p).ok()?;
+        p.food().is_empty().then_some(yaml)
+    }
+
+    /// Match the number key of flow map, the splitter `:` can be adjacent.
+    fn number_key(&mut self) -> PResult<R::Rc> {
+        self.context(|p| {
+            let yaml = Self::number(p)?;
+            if p.food().first() == Some(&b':') {
+                Ok(R::new_rc(yaml))
+            } else {
+                p.backward();
+                Err(PError::Mismatch)
+            }
+        })
+    }
+
     /// Match flow sequence.
     pub fn seq_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'[')?;
@@ -366,8 +391,11 @@ impl<R: Repr> Loader<'_, R> {
                 self.flow_gap();
                 k
             } else {
-                self.scalar_flow(level + 1, true)
-                    .or_else(|e| e.or(|| self.err("flow map key")))?
+                self.scalar_node(|p| {
+                    p.number_key()
+                        .or_else(|e| e.or(|| p.scalar_term(level + 1, true)))
+                })
+                .or_else(|e| e.or(|| self.err("flow map key")))?
             };
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
-- 
2.43.0


From bd22304f92ff1a1018b2f7b2d7bd9302148facfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 09/55] fix: spaces behind quoted strings, aliases and flow
 collections

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e4edf0d..9abf657 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -285,6 +285,7 @@ impl<R: Repr> Loader<'_, R> {
             let s = self
                 .anchor_use()
                 .or_else(|e| e.or(|| self.err("anchor")))?;
+            self.ws(TakeOpt::More(0))?;
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
@@ -293,8 +294,10 @@ impl<R: Repr> Loader<'_, R> {
                 return self.err("anchor referenced before definition");
             }
         } else if let Some(s) = self.string_quoted(b'\'', b"''").optional()? {
+            self.ws(TakeOpt::More(0))?;
             R::new_rc(Yaml::Str(s))
         } else if let Some(s) = self.string_quoted(b'"', b"\\\"").optional()? {
+            self.ws(TakeOpt::More(0))?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
@@ -309,6 +312,7 @@ impl<R: Repr> Loader<'_, R> {
         } else {
             self.seq_flow(level)
                 .or_else(|e| e.or(|| self.map_flow(level)))
+                .and_then(|rc| self.ws(TakeOpt::More(0)).map(|_| rc))
                 .or_else(|e| e.or(|| Ok(R::new_rc(Yaml::Null))))?
         };
         Ok(yaml)
-- 
2.43.0


From 9064b1a8aa64999b269ca519128cba010c6947c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 10/55] fix: keep the tag and anchor of the scalar below the
 key

---
 src/node.rs       |  2 +-
 src/parser/mod.rs | 48 ++++++++++++++++++++++++++++++++---------------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index aecf200..b58d7e4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -115,7 +115,7 @@ pub type NodeArc = Node<ArcRepr>;
 /// your custom type.
 pub struct Node<R: Repr> {
     pos: u64,
-    tag: String,
+    pub(crate) tag: String,
     yaml: R::Rc,
     _marker: PhantomData<R>,
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9abf657..311e097 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -217,27 +217,33 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
-        self.scalar_node(|p| {
-            if let Ok(s) = p.string_literal(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+        self.scalar_node(|p, pos| {
+            let yaml = if let Ok(s) = p.string_literal(level) {
+                R::new_rc(Yaml::Str(s))
             } else if let Ok(s) = p.string_folded(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+                R::new_rc(Yaml::Str(s))
+            } else if let Some(yaml) = p.seq(level, map).optional()? {
+                yaml
+            } else if let Some(node) = p.map_node(level, map, flow, pos).optional()? {
+                return Ok(node);
             } else {
-                p.seq(level, map)
-                    .or_else(|e| e.or(|| p.map(level, map, flow)))
-                    .or_else(|e| e.or(|| p.scalar_term(level, flow)))
-            }
+                p.scalar_term(level, flow)?
+            };
+            Ok(Node::new_repr(yaml, pos, ""))
         })
     }
 
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
-        self.scalar_node(|p| p.scalar_term(level, flow))
+        self.scalar_node(|p, pos| {
+            p.scalar_term(level, flow)
+                .map(|yaml| Node::new_repr(yaml, pos, ""))
+        })
     }
 
     fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
     where
-        F: FnOnce(&mut Self) -> PResult<R::Rc>,
+        F: FnOnce(&mut Self, u64) -> PResult<Node<R>>,
     {
         let mut anchor = self.scalar_prop(b'&', "anchor", |p| p.anchor())?;
         let tag = self.scalar_prop(b'!', "tag", |p| p.tag())?;
@@ -250,9 +256,14 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         let pos = self.indicator();
-        let yaml = f(self)?;
+        let mut node = f(self, pos)?;
         self.forward();
-        let node = Node::new_repr(yaml, pos, &tag);
+        if !tag.is_empty() {
+            if !node.tag.is_empty() {
+                return self.err("tag");
+            }
+            node.tag = tag;
+        }
         if !anchor.is_empty()
             && self.anchors[self.doc_ind]
                 .insert(anchor, node.clone())
@@ -395,9 +406,10 @@ impl<R: Repr> Loader<'_, R> {
                 self.flow_gap();
                 k
             } else {
-                self.scalar_node(|p| {
+                self.scalar_node(|p, pos| {
                     p.number_key()
                         .or_else(|e| e.or(|| p.scalar_term(level + 1, true)))
+                        .map(|yaml| Node::new_repr(yaml, pos, ""))
                 })
                 .or_else(|e| e.or(|| self.err("flow map key")))?
             };
@@ -463,6 +475,12 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match map.
     pub fn map(&mut self, level: usize, map: bool, flow: bool) -> PResult<R::Rc> {
+        let pos = self.indicator();
+        self.map_node(level, map, flow, pos).map(|n| n.clone_yaml())
+    }
+
+    /// Match map, or the node of the first key if it is not a map.
+    fn map_node(&mut self, level: usize, map: bool, flow: bool, pos: u64) -> PResult<Node<R>> {
         let mut m = vec![];
         loop {
             self.forward();
@@ -490,7 +508,7 @@ impl<R: Repr> Loader<'_, R> {
                 };
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
-                    return Ok(k.clone_yaml());
+                    return Ok(k);
                 }
                 k
             } else {
@@ -527,7 +545,7 @@ impl<R: Repr> Loader<'_, R> {
         }
         // Keep last wrapping
         self.backward();
-        Ok(R::new_rc(m.into_iter().collect()))
+        Ok(Node::new(m.into_iter().collect::<Yaml<R>>(), pos, ""))
     }
 }
 
-- 
2.43.0


From 5e6533a01edc9b1017d5b2b3ff8fd56e68ade841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 11/55] fix: complex key without value

---
 src/parser/mod.rs | 66 +++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 311e097..34040d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -479,6 +479,23 @@ impl<R: Repr> Loader<'_, R> {
         self.map_node(level, map, flow, pos).map(|n| n.clone_yaml())
     }
 
+    /// Match the complex key of map, returns true if its splitter is matched.
+    fn complex_key(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, bool)> {
+        self.forward();
+        let k = self
+            .scalar(level + 1, true, flow)
+            .or_else(|e| e.or(|| self.err("map key")))?;
+        self.forward();
+        let pos = self.pos;
+        let has_value = (self.gap(true).is_err() || self.ind(level).is_ok())
+            && self.sym(b':').is_ok()
+            && self.bound().is_ok();
+        if !has_value {
+            self.pos = pos;
+        }
+        Ok((k, has_value))
+    }
+
     /// Match map, or the node of the first key if it is not a map.
     fn map_node(&mut self, level: usize, map: bool, flow: bool, pos: u64) -> PResult<Node<R>> {
         let mut m = vec![];
@@ -494,23 +511,22 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind(level)?;
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
-                    self.forward();
-                    let k = self
-                        .scalar(level + 1, true, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                if self.complex_mapping().is_ok() {
+                    let (k, has_value) = self.complex_key(level, flow)?;
+                    if !has_value {
+                        let pos = self.indicator();
+                        m.push((k, Node::new(Yaml::Null, pos, "")));
+                        continue;
                     }
                     k
                 } else {
-                    self.scalar_flow(level + 1, flow)?
-                };
-                if self.sym(b':').is_err() || self.bound().is_err() {
-                    // Return key
-                    return Ok(k);
+                    let k = self.scalar_flow(level + 1, flow)?;
+                    if self.sym(b':').is_err() || self.bound().is_err() {
+                        // Return key
+                        return Ok(k);
+                    }
+                    k
                 }
-                k
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("map terminator");
@@ -519,23 +535,23 @@ impl<R: Repr> Loader<'_, R> {
                     break;
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
-                    self.forward();
+                if self.complex_mapping().is_ok() {
+                    let (k, has_value) = self.complex_key(level, flow)?;
+                    if !has_value {
+                        let pos = self.indicator();
+                        m.push((k, Node::new(Yaml::Null, pos, "")));
+                        continue;
+                    }
+                    k
+                } else {
                     let k = self
-                        .scalar(level + 1, true, flow)
+                        .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.sym(b':').is_err() || self.bound().is_err() {
+                        return self.err("map splitter");
                     }
                     k
-                } else {
-                    self.scalar_flow(level + 1, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?
-                };
-                if self.sym(b':').is_err() || self.bound().is_err() {
-                    return self.err("map splitter");
                 }
-                k
             };
             self.forward();
             let v = self
-- 
2.43.0


From c7b5f2d1cfc9ada892007413aa2d229df1a909f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 12/55] fix: start and continued lines of plain string

---
 src/parser/base/grammar.rs | 63 +++++++++++++++++++++++++-------------
 src/parser/mod.rs          | 20 +++++++++---
 2 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 22d841a..a95df7b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -145,7 +145,9 @@ impl Parser<'_> {
         }
         self.context(|p| {
             let mut v = String::new();
-            let mut is_leading = false;
+            if p.is_plain_indicator() {
+                return Err(PError::Mismatch);
+            }
             loop {
                 p.forward();
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
@@ -160,30 +162,26 @@ impl Parser<'_> {
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok() {
-                    // Remove leading space
-                    if is_leading && p.text() == " " {
-                        v.truncate(v.trim_end().len());
-                    }
-                    v.push_str(&p.text());
-                } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
+                if p.sym_set(b": ").is_ok()
+                    || (!inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok())
+                {
                     v.push_str(&p.text());
-                    is_leading = false;
-                } else if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(true) {
-                        if t == 1 {
-                            v.push(' ');
-                        }
-                        for _ in 0..t - 1 {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                } else if v.is_empty() {
+                    break;
+                } else if let Ok(t) = p.gap(true) {
+                    if p.ind_more(level).is_err() || p.food().is_empty() {
+                        p.backward();
                         break;
                     }
-                    is_leading = true;
+                    v.truncate(v.trim_end().len());
+                    if t == 1 {
+                        v.push(' ');
+                    }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                } else {
+                    break;
                 }
             }
             v.truncate(v.trim_end().len());
@@ -195,6 +193,15 @@ impl Parser<'_> {
         })
     }
 
+    /// The following characters cannot start a plain string.
+    fn is_plain_indicator(&self) -> bool {
+        match self.food() {
+            [b'-' | b'?', rest @ ..] => rest.first().is_none_or(u8::is_ascii_whitespace),
+            [c, ..] => c.is_ascii_whitespace() || b"#&*!|>'\"".contains(c),
+            [] => true,
+        }
+    }
+
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.sym(b'|')?;
@@ -382,6 +389,18 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_whitespace, opt)
     }
 
+    /// Match the indent that is deeper than the parent level.
+    pub fn ind_more(&mut self, level: usize) -> PResult<()> {
+        let is_doc_mark = |p: &Self| p.food().starts_with(b"---") || p.food().starts_with(b"...");
+        if level > 0 {
+            self.ind(level - 1)?;
+            self.sym(b' ')?;
+        } else if is_doc_mark(self) {
+            return Err(PError::Mismatch);
+        }
+        self.ws(TakeOpt::More(0))
+    }
+
     /// Match and define new indent size.
     pub fn ind_define(&mut self, level: usize) -> PResult<()> {
         if level > 0 {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 34040d8..f311557 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -372,7 +372,7 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.forward();
             let n = self
-                .scalar(level + 1, false, true)
+                .scalar(level, false, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
             self.flow_gap();
@@ -401,14 +401,14 @@ impl<R: Repr> Loader<'_, R> {
             let k = if self.complex_mapping().is_ok() {
                 self.flow_gap();
                 let k = self
-                    .scalar_flow(level + 1, true)
+                    .scalar_flow(level, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
                 self.flow_gap();
                 k
             } else {
                 self.scalar_node(|p, pos| {
                     p.number_key()
-                        .or_else(|e| e.or(|| p.scalar_term(level + 1, true)))
+                        .or_else(|e| e.or(|| p.scalar_term(level, true)))
                         .map(|yaml| Node::new_repr(yaml, pos, ""))
                 })
                 .or_else(|e| e.or(|| self.err("flow map key")))?
@@ -419,7 +419,7 @@ impl<R: Repr> Loader<'_, R> {
             self.context(|p| p.bound().unwrap_or_default());
             self.forward();
             let v = self
-                .scalar(level + 1, false, true)
+                .scalar(level, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
             self.flow_gap();
@@ -520,11 +520,16 @@ impl<R: Repr> Loader<'_, R> {
                     }
                     k
                 } else {
-                    let k = self.scalar_flow(level + 1, flow)?;
+                    let food = self.food();
+                    let k = self.scalar_flow(level, flow)?;
+                    let key = &food[..food.len() - self.food().len()];
                     if self.sym(b':').is_err() || self.bound().is_err() {
                         // Return key
                         return Ok(k);
                     }
+                    if key.iter().any(|c| matches!(c, b'\n' | b'\r')) {
+                        return self.err("map key");
+                    }
                     k
                 }
             } else {
@@ -544,9 +549,14 @@ impl<R: Repr> Loader<'_, R> {
                     }
                     k
                 } else {
+                    let food = self.food();
                     let k = self
                         .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
+                    let key = &food[..food.len() - self.food().len()];
+                    if key.iter().any(|c| matches!(c, b'\n' | b'\r')) {
+                        return self.err("map key");
+                    }
                     if self.sym(b':').is_err() || self.bound().is_err() {
                         return self.err("map splitter");
                     }
-- 
2.43.0


From 5bb3348761157baf9c5f5058e9cea07cdc8d907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 13/55] fix: indentation, blank lines and end of block scalars

---
 src/parser/base/grammar.rs | 68 ++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a95df7b..a63bdce 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -206,7 +206,7 @@ impl Parser<'_> {
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.sym(b'|')?;
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
+        self.wrapped_header()?;
         let s = self.string_wrapped(level, b'\n', true)?;
         Ok(chomp(s))
     }
@@ -215,7 +215,7 @@ impl Parser<'_> {
     pub fn string_folded(&mut self, level: usize) -> PResult<String> {
         self.sym(b'>')?;
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
+        self.wrapped_header()?;
         let s = self.string_wrapped(level, b' ', false)?;
         Ok(chomp(s))
     }
@@ -224,39 +224,84 @@ impl Parser<'_> {
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
             if p.sym(b'-').is_ok() {
-                |s: String| s.trim_end().to_string()
+                |s: String| s.trim_end_matches('\n').to_string()
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| s.trim_end().to_string() + "\n"
+                |s: String| match s.trim_end_matches('\n') {
+                    "" => String::new(),
+                    s => s.to_string() + "\n",
+                }
             }
         })
     }
 
+    /// Match the rest of the wrapped string header.
+    fn wrapped_header(&mut self) -> PResult<()> {
+        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
+            self.forward();
+            self.comment().unwrap_or_default();
+        }
+        Ok(())
+    }
+
+    /// Get the indent size of the first line in the wrapped string.
+    fn wrapped_indent(&self, level: usize) -> usize {
+        let parent = (0..level).map(|i| self.indent.get(i).unwrap_or(&2)).sum();
+        let ind = self
+            .food()
+            .split(|c| *c == b'\n')
+            .skip(1)
+            .find(|s| !s.iter().all(u8::is_ascii_whitespace))
+            .map_or(0, |s| s.iter().take_while(|c| **c == b' ').count());
+        if level > 0 && ind <= parent {
+            parent + 2
+        } else {
+            ind
+        }
+    }
+
     /// Match wrapped string.
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            let ind = p.wrapped_indent(level);
+            let match_ind = |p: &mut Self| {
+                if level == 0 {
+                    p.ind_more(level)?;
+                    p.backward();
+                }
+                for _ in 0..ind {
+                    p.sym(b' ')?;
+                }
+                Ok::<(), PError>(())
+            };
+            let mut is_first = true;
             loop {
+                if p.food().is_empty() {
+                    return Ok(if is_first { v } else { v + "\n" });
+                }
                 p.nl()?;
                 p.forward();
-                if p.ind(level).is_err() {
+                if !leading || match_ind(p).is_err() {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
                             v.push('\n');
                         }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                    }
+                    p.forward();
+                    if match_ind(p).is_err() {
                         break;
                     }
                 }
+                if p.food().is_empty() {
+                    break;
+                }
                 p.forward();
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
                 let s = p.text();
                 if leading {
-                    if !v.is_empty() {
+                    if !is_first {
                         v.push(char::from(sep));
                     }
                     v.push_str(&s);
@@ -267,10 +312,11 @@ impl Parser<'_> {
                     }
                     v.push_str(s);
                 }
+                is_first = false;
             }
             // Keep the last wrap
             p.back(1);
-            Ok(v + "\n")
+            Ok(if is_first { v } else { v + "\n" })
         })
     }
 
-- 
2.43.0


From 42c5fdfa89e9d5406d16c3dfb0de4c03f0537e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 14/55] fix: indentation of nested structures and compact
 sequence items

---
 src/parser/base/grammar.rs | 36 ++++++++++++++++++++++++++++++++----
 src/parser/mod.rs          | 26 +++++++++-----------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a63bdce..3027281 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -453,11 +453,39 @@ impl Parser<'_> {
             self.ind(level - 1)?;
         }
         let ind = self.count(|p| p.take_while(|c| c.is_ascii_whitespace(), TakeOpt::More(0)))?;
-        if level == self.indent.len() {
-            self.indent.push(ind);
-        } else {
-            self.indent[level] = ind;
+        self.ind_set(level, ind);
+        Ok(())
+    }
+
+    /// Set the indent size and clear the deeper settings.
+    pub(crate) fn ind_set(&mut self, level: usize, ind: usize) {
+        self.indent.resize(level, 2);
+        self.indent.push(ind);
+    }
+
+    /// Match the indent of the first item if it is on a new line.
+    ///
+    /// The new line is required for the value of `map`, and the indent can be
+    /// same as the parent if `same` is true.
+    pub(crate) fn ind_first(&mut self, level: usize, map: bool, same: bool) -> PResult<()> {
+        if let Err(e) = self.gap(true) {
+            return if map { Err(e) } else { Ok(()) };
         }
+        self.ind_define(level)?;
+        if level > 0 && !same && self.indent[level] == 0 {
+            self.backward();
+            return Err(PError::Mismatch);
+        }
+        Ok(())
+    }
+
+    /// Match the indicator of sequence item (`-`) and define the indent size of
+    /// the compact structure behind it.
+    pub(crate) fn seq_item(&mut self, level: usize) -> PResult<()> {
+        let pos = self.pos;
+        self.sym(b'-')?;
+        self.bound()?;
+        self.ind_set(level + 1, self.pos - pos);
         Ok(())
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f311557..e4f948c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -189,6 +189,11 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
+        self.ind_set(0, 0);
+        if self.pos == 0 {
+            self.ind_define(0)?;
+            self.backward();
+        }
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
         self.anchors.push(Anchors::new());
@@ -441,15 +446,8 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             if v.is_empty() {
                 // First item
-                if map {
-                    self.gap(true)?;
-                    self.ind_define(level)?;
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
-                }
-                self.sym(b'-')?;
-                self.bound()?;
+                self.ind_first(level, map, map)?;
+                self.seq_item(level)?;
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("sequence terminator");
@@ -457,7 +455,7 @@ impl<R: Repr> Loader<'_, R> {
                 if self.doc_end() || self.ind(level).is_err() {
                     break;
                 }
-                if self.sym(b'-').is_err() || self.bound().is_err() {
+                if self.seq_item(level).is_err() {
                     break;
                 }
                 self.forward();
@@ -503,13 +501,7 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             let k = if m.is_empty() {
                 // First item
-                if map {
-                    self.gap(true)?;
-                    self.ind_define(level)?;
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
-                }
+                self.ind_first(level, map, false)?;
                 self.forward();
                 if self.complex_mapping().is_ok() {
                     let (k, has_value) = self.complex_key(level, flow)?;
-- 
2.43.0


From 409cad3aa05a083538cd3b483ebfb0bca6bdab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 15/55] fix: stack overflow of deeply nested structures

---
 src/parser/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e4f948c..b015fdc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -20,6 +20,8 @@
 //!
 //! ## Structure
 //!
+//! + nesting depth: The structure is nested too deeply.
+//!
 //! ### Scalar
 //!
 //! + quoted string: The quoted string is not closed.
@@ -82,6 +84,9 @@ pub type Anchors<R> = BTreeMap<String, Node<R>>;
 /// The default prefix of the YAML sub tag.
 pub const DEFAULT_PREFIX: &str = tag_prefix!();
 
+/// The limit of nesting depth, prevents the stack overflow.
+const MAX_DEPTH: usize = 200;
+
 /// A parser with YAML grammar, support UTF-8 characters.
 ///
 /// This loader will output YAML nodes with representation notation
@@ -115,6 +120,7 @@ pub struct Loader<'a, R: Repr> {
     cyclic_mode: bool,
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
+    depth: usize,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -125,6 +131,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             cyclic_mode: false,
             anchors: Vec::new(),
             doc_ind: 0,
+            depth: 0,
         }
     }
 }
@@ -247,6 +254,19 @@ impl<R: Repr> Loader<'_, R> {
     }
 
     fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
+    where
+        F: FnOnce(&mut Self, u64) -> PResult<Node<R>>,
+    {
+        if self.depth >= MAX_DEPTH {
+            return self.err("nesting depth");
+        }
+        self.depth += 1;
+        let node = self.scalar_prop_node(f);
+        self.depth -= 1;
+        node
+    }
+
+    fn scalar_prop_node<F>(&mut self, f: F) -> PResult<Node<R>>
     where
         F: FnOnce(&mut Self, u64) -> PResult<Node<R>>,
     {
-- 
2.43.0


From 3539ff082a3021323bb8cfa81ab527109e397acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 16/55] fix: indicate the position behind the document

---
 src/indicator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..504564a 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -20,7 +20,10 @@ use alloc::{format, string::String};
 ///
 /// This may be what you need if you went to indicate an error on the invalid
 /// data.
-pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
+///
+/// The position behind the document is indicated as its end.
+pub fn indicated_msg(doc: &[u8], pos: u64) -> String {
+    let mut pos = pos.min(doc.len() as u64);
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
-- 
2.43.0


From c7bb1b929be86b45c02cbe834531c971e072fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 17/55] fix: consumed part is skipped by the parser

---
 src/parser/base/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..93a2d36 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -20,6 +20,7 @@ pub enum TakeOpt {
 ///
 /// Its methods are actually the sub-parser of the syntax.
 pub struct Parser<'a> {
+    full_doc: &'a [u8],
     doc: &'a [u8],
     indent: Vec<usize>,
     consumed: u64,
@@ -37,6 +38,7 @@ impl Default for Parser<'_> {
         tag.insert("!".to_string(), String::new());
         tag.insert("!!".to_string(), tag_prefix!().to_string());
         Self {
+            full_doc: b"",
             doc: b"",
             indent: vec![0],
             consumed: 0,
@@ -57,7 +59,7 @@ impl<'a> Parser<'a> {
 
     /// Attach document on the parser.
     pub fn with_doc(self, doc: &'a [u8]) -> Self {
-        Self { doc, ..self }
+        Self { full_doc: doc, doc, ..self }
     }
 
     /// Show the right hand side string after the current cursor.
@@ -99,13 +101,14 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            msg: indicated_msg(self.full_doc, self.indicator()),
         })
     }
 
     /// Consume and move the pointer.
     pub fn consume(&mut self) {
         self.forward();
+        self.doc = self.food();
         self.consumed += self.eaten as u64;
         self.eaten = 0;
         self.backward();
-- 
2.43.0


From bb901e789281d7a0b41e55b3a7956f7b63c33bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 18/55] fix: dump the document that can be parsed as the same
 nodes

---
 src/dumper.rs     | 286 ++++++++++++++++++++++++++++++++--------------
 src/node.rs       |  25 ++--
 src/parser/mod.rs |  23 ++--
 3 files changed, 232 insertions(+), 102 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..1c4f5a2 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -1,11 +1,15 @@
 //! Dumper components.
-use crate::{parser::Anchors, repr::Repr, *};
+use crate::{
+    parser::{Anchors, Loader},
+    repr::Repr,
+    *,
+};
 use alloc::{
     format,
     string::{String, ToString},
     vec::Vec,
 };
-use core::fmt::Write;
+use core::{fmt::Write, ptr};
 
 /// Newline symbol in common platforms.
 ///
@@ -15,13 +19,17 @@ use core::fmt::Write;
 /// Please be aware that your storage can be used the symbol of Windows.
 pub const NL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
-#[derive(Eq, PartialEq)]
+#[derive(Copy, Clone, Eq, PartialEq)]
 enum Root {
     Scalar,
     Map,
     Array,
+    Key,
 }
 
+/// The anchors that are not dumped yet.
+type Labels<'a, R> = Vec<(&'a Node<R>, &'a str)>;
+
 /// Dumper for nodes.
 pub struct Dumper<'a, R: Repr> {
     node: &'a Node<R>,
@@ -36,113 +44,225 @@ impl<'a, R: Repr> Dumper<'a, R> {
         Self { node, root: Root::Scalar, level: 0, anchors }
     }
 
-    fn part(&self, node: &'a Node<R>, root: Root, level: usize) -> String {
-        Self { node, root, level, anchors: self.anchors }.dump()
+    fn part(&self, node: &'a Node<R>, root: Root, level: usize, labels: &mut Labels<R>) -> String {
+        Self { node, root, level, anchors: self.anchors }.dump_node(labels)
     }
 
     /// Dump into string.
     pub fn dump(&self) -> String {
-        let mut doc = String::new();
-        if let Some(a) = self
-            .anchors
+        self.dump_node(&mut self.labels())
+    }
+
+    /// Find the nodes of the anchors, an anchor is only defined once.
+    fn labels(&self) -> Labels<'a, R> {
+        self.anchors
             .iter()
-            .find_map(|(k, v)| if v == self.node { Some(k) } else { None })
-        {
-            write!(doc, "&{a} ").unwrap();
+            .filter_map(|(name, anchor)| {
+                find_node(self.node, &|n| ptr::eq(n.yaml(), anchor.yaml()))
+                    .or_else(|| find_node(self.node, &|n| n == anchor))
+                    .map(|node| (node, name.as_str()))
+            })
+            .collect()
+    }
+
+    /// Dump the anchor and tag.
+    fn prop(&self, labels: &mut Labels<R>) -> String {
+        let mut prop = Vec::new();
+        if let Some(i) = labels.iter().position(|(n, _)| ptr::eq(*n, self.node)) {
+            prop.push(format!("&{}", labels.remove(i).1));
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
-                write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
-                write!(doc, "!{tag} ").unwrap();
-            } else {
-                write!(doc, "!<{tag}> ").unwrap();
-            }
+        if tag != self.node.default_tag() {
+            prop.push(match tag.strip_prefix(parser::tag_prefix!()) {
+                Some(tag) if is_identifier(tag) => format!("!!{tag}"),
+                None if is_identifier(tag) => format!("!{tag}"),
+                _ => format!("!<{tag}>"),
+            });
         }
+        prop.join(" ")
+    }
+
+    fn dump_node(&self, labels: &mut Labels<R>) -> String {
+        let mut doc = self.prop(labels);
         let ind = "  ".repeat(self.level);
-        match &self.node.yaml() {
-            Yaml::Null => doc += "null",
-            Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
-            Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
-                    // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
-                } else {
-                    // Single line string
-                    doc += s;
-                }
-            }
-            Yaml::Seq(v) => {
-                let mut buf = NL.to_string();
+        match self.node.yaml() {
+            Yaml::Seq(v) if !v.is_empty() => {
+                let inline = self.root == Root::Scalar && doc.is_empty();
                 for (i, node) in v.iter().enumerate() {
-                    if i != 0 || self.level != 0 {
-                        buf += &ind;
+                    if i != 0 || !inline {
+                        write!(doc, "{NL}{ind}").unwrap();
                     }
-                    let s = self.part(node, Root::Array, self.level + 1);
-                    write!(buf, "- {s}{NL}").unwrap();
+                    doc += "-";
+                    push_part(
+                        &mut doc,
+                        &self.part(node, Root::Array, self.level + 1, labels),
+                    );
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
             }
-            Yaml::Map(m) => {
-                let mut buf = match self.root {
-                    Root::Map => NL.to_string(),
-                    _ => String::new(),
-                };
+            Yaml::Map(m) if !m.is_empty() => {
+                let inline = self.root != Root::Map && doc.is_empty();
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || self.root == Root::Map {
-                        buf += &ind;
+                    if i != 0 || !inline {
+                        write!(doc, "{NL}{ind}").unwrap();
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                    let root = if is_block(k) { Root::Map } else { Root::Key };
+                    let s = self.part(k, root, self.level + 1, labels);
+                    if is_block(k) || s.starts_with(['&', '!']) {
+                        doc += "?";
+                        push_part(&mut doc, &s);
+                        write!(doc, "{NL}{ind}").unwrap();
                     } else {
-                        buf += &s;
-                    };
-                    buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
-                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
-                            self.part(v, Root::Map, self.level)
+                        doc += &s;
+                        if let Yaml::Alias(_) = k.yaml() {
+                            doc += " ";
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                    }
+                    doc += ":";
+                    let level = match v.yaml() {
+                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => self.level,
+                        _ => self.level + 1,
                     };
-                    buf += NL;
+                    push_part(&mut doc, &self.part(v, Root::Map, level, labels));
+                }
+            }
+            yaml => {
+                if !doc.is_empty() {
+                    doc += " ";
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
+                doc += &self.scalar(yaml);
             }
-            Yaml::Alias(a) => write!(doc, "*{a}").unwrap(),
+        }
+        doc
+    }
+
+    fn scalar(&self, yaml: &Yaml<R>) -> String {
+        let plain = |s: &str| Loader::<R>::plain(s.to_string());
+        match yaml {
+            Yaml::Null => "null".to_string(),
+            Yaml::Bool(b) => b.to_string(),
+            Yaml::Int(n) => match plain(n) {
+                Yaml::Int(_) => n.clone(),
+                _ => to_i64(n).map_or_else(|_| n.clone(), |n| n.to_string()),
+            },
+            Yaml::Float(n) => match (plain(n), to_f64(n)) {
+                (Yaml::Float(_), _) | (_, Err(_)) => n.clone(),
+                (_, Ok(n)) if n.is_nan() => ".nan".to_string(),
+                (_, Ok(f64::INFINITY)) => ".inf".to_string(),
+                (_, Ok(f64::NEG_INFINITY)) => "-.inf".to_string(),
+                (_, Ok(n)) => format!("{n:?}"),
+            },
+            Yaml::Str(s) if is_plain::<R>(s) => s.clone(),
+            Yaml::Str(s) if self.root != Root::Key && is_literal(s) => self.literal(s),
+            Yaml::Str(s) => quoted(s),
+            Yaml::Seq(_) => "[]".to_string(),
+            Yaml::Map(_) => "{}".to_string(),
+            Yaml::Alias(a) => format!("*{a}"),
+        }
+    }
+
+    /// Dump the multiline string.
+    fn literal(&self, s: &str) -> String {
+        let ind = "  ".repeat(self.level.max(1));
+        let (chomp, s) = match s.strip_suffix('\n') {
+            Some(s) if s.ends_with('\n') => ("+", s),
+            Some(s) => ("", s),
+            None => ("-", s),
         };
+        let mut doc = format!("|{chomp}");
+        for line in s.split('\n') {
+            doc += NL;
+            if !line.is_empty() {
+                doc += &ind;
+                doc += line;
+            }
+        }
         doc
     }
 }
 
+/// Find the first node in the document order.
+fn find_node<'a, R: Repr>(
+    node: &'a Node<R>,
+    f: &dyn Fn(&Node<R>) -> bool,
+) -> Option<&'a Node<R>> {
+    if f(node) {
+        return Some(node);
+    }
+    match node.yaml() {
+        Yaml::Seq(v) => v.iter().find_map(|n| find_node(n, f)),
+        Yaml::Map(m) => m
+            .iter()
+            .find_map(|(k, v)| find_node(k, f).or_else(|| find_node(v, f))),
+        _ => None,
+    }
+}
+
+/// Push the part behind the indicator.
+fn push_part(doc: &mut String, part: &str) {
+    if !part.starts_with(NL) {
+        doc.push(' ');
+    }
+    doc.push_str(part);
+}
+
+/// Check the node is in a block style.
+fn is_block<R: Repr>(node: &Node<R>) -> bool {
+    match node.yaml() {
+        Yaml::Seq(v) => !v.is_empty(),
+        Yaml::Map(m) => !m.is_empty(),
+        _ => false,
+    }
+}
+
+fn is_identifier(s: &str) -> bool {
+    let mut p = parser::Parser::new(s.as_bytes());
+    p.identifier().is_ok() && p.food().is_empty()
+}
+
+/// Check the string will not be changed in plain style.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    let mut p = parser::Parser::new(s.as_bytes());
+    !s.starts_with(['%', '@', '`', ',']) // Reserved
+        && !s.starts_with("---")
+        && !s.starts_with("...")
+        && !s.contains(char::is_control)
+        && p.string_plain(0, false).is_ok_and(|plain| plain == s)
+        && p.food().is_empty()
+        && matches!(Loader::<R>::plain(s.to_string()), Yaml::Str(_))
+}
+
+/// Check the string will not be changed in literal style.
+fn is_literal(s: &str) -> bool {
+    s.contains('\n')
+        && !s.contains(|c: char| c.is_control() && !matches!(c, '\n' | '\t'))
+        && !s.trim_start_matches('\n').starts_with(char::is_whitespace)
+        && s.split('\n').any(|line| !line.is_empty())
+        && !s.split('\n').any(|line| !line.is_empty() && line.trim().is_empty())
+}
+
+/// Dump the string in double quoted style.
+fn quoted(s: &str) -> String {
+    let mut doc = String::from('"');
+    for c in s.chars() {
+        match c {
+            '"' => doc += "\\\"",
+            '\\' => doc += "\\\\",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            '\x08' => doc += "\\b",
+            '\x0C' => doc += "\\f",
+            c => doc.push(c),
+        }
+    }
+    doc + "\""
+}
+
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// otherwise it use literal string. The strings that will be changed in these
+/// styles are quoted.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
@@ -178,7 +298,7 @@ pub fn dump<R: Repr>(nodes: &[Node<R>], anchors: &[Anchors<R>]) -> String {
             let doc = Dumper::new(node, anchors).dump() + NL;
             match i {
                 0 => doc,
-                _ => format!("---{NL}{}", doc.trim_start()),
+                _ => format!("---{NL}{doc}"),
             }
         })
         .collect()
diff --git a/src/node.rs b/src/node.rs
index b58d7e4..4177491 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -157,20 +157,25 @@ impl<R: Repr> Node<R> {
     /// Anchor has no tag.
     pub fn tag(&self) -> &str {
         match self.tag.as_str() {
-            "" => match self.yaml() {
-                Yaml::Null => concat!(parser::tag_prefix!(), "null"),
-                Yaml::Bool(_) => concat!(parser::tag_prefix!(), "bool"),
-                Yaml::Int(_) => concat!(parser::tag_prefix!(), "int"),
-                Yaml::Float(_) => concat!(parser::tag_prefix!(), "float"),
-                Yaml::Str(_) => concat!(parser::tag_prefix!(), "str"),
-                Yaml::Seq(_) => concat!(parser::tag_prefix!(), "seq"),
-                Yaml::Map(_) => concat!(parser::tag_prefix!(), "map"),
-                Yaml::Alias(_) => "",
-            },
+            "" => self.default_tag(),
             s => s,
         }
     }
 
+    /// Default tag from core schema.
+    pub(crate) fn default_tag(&self) -> &'static str {
+        match self.yaml() {
+            Yaml::Null => concat!(parser::tag_prefix!(), "null"),
+            Yaml::Bool(_) => concat!(parser::tag_prefix!(), "bool"),
+            Yaml::Int(_) => concat!(parser::tag_prefix!(), "int"),
+            Yaml::Float(_) => concat!(parser::tag_prefix!(), "float"),
+            Yaml::Str(_) => concat!(parser::tag_prefix!(), "str"),
+            Yaml::Seq(_) => concat!(parser::tag_prefix!(), "seq"),
+            Yaml::Map(_) => concat!(parser::tag_prefix!(), "map"),
+            Yaml::Alias(_) => "",
+        }
+    }
+
     /// YAML data.
     pub fn yaml(&self) -> &Yaml<R> {
         &self.yaml
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b015fdc..c8f6c09 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -336,15 +336,7 @@ impl<R: Repr> Loader<'_, R> {
             self.ws(TakeOpt::More(0))?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
-            R::new_rc(match s.as_str() {
-                "~" | "null" | "Null" | "NULL" => Yaml::Null,
-                "true" | "True" | "TRUE" => Yaml::Bool(true),
-                "false" | "False" | "FALSE" => Yaml::Bool(false),
-                ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".to_string()),
-                ".inf" | ".Inf" | ".INF" => Yaml::Float("inf".to_string()),
-                "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".to_string()),
-                _ => Self::plain_number(&s).unwrap_or(Yaml::Str(s)),
-            })
+            R::new_rc(Self::plain(s))
         } else {
             self.seq_flow(level)
                 .or_else(|e| e.or(|| self.map_flow(level)))
@@ -354,6 +346,19 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Resolve the plain string.
+    pub(crate) fn plain(s: String) -> Yaml<R> {
+        match s.as_str() {
+            "~" | "null" | "Null" | "NULL" => Yaml::Null,
+            "true" | "True" | "TRUE" => Yaml::Bool(true),
+            "false" | "False" | "FALSE" => Yaml::Bool(false),
+            ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".to_string()),
+            ".inf" | ".Inf" | ".INF" => Yaml::Float("inf".to_string()),
+            "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".to_string()),
+            _ => Self::plain_number(&s).unwrap_or(Yaml::Str(s)),
+        }
+    }
+
     /// Match number.
     fn number(p: &mut Parser) -> PResult<Yaml<R>> {
         if let Ok(s) = p.float() {
-- 
2.43.0


From 0df45f8b4d484830719c324f0256312b91d66aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 19/55] fix: document marks at the line beginning, tag and
 anchor of the root on a new line

---
 src/parser/base/grammar.rs | 24 +++++++++++++++++++++---
 src/parser/mod.rs          | 28 +++++++++++++---------------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3027281..5a41df9 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -145,7 +145,7 @@ impl Parser<'_> {
         }
         self.context(|p| {
             let mut v = String::new();
-            if p.is_plain_indicator() {
+            if p.is_plain_indicator() || p.is_doc_mark(b"---") || p.is_doc_mark(b"...") {
                 return Err(PError::Mismatch);
             }
             loop {
@@ -437,11 +437,10 @@ impl Parser<'_> {
 
     /// Match the indent that is deeper than the parent level.
     pub fn ind_more(&mut self, level: usize) -> PResult<()> {
-        let is_doc_mark = |p: &Self| p.food().starts_with(b"---") || p.food().starts_with(b"...");
         if level > 0 {
             self.ind(level - 1)?;
             self.sym(b' ')?;
-        } else if is_doc_mark(self) {
+        } else if self.is_doc_mark(b"---") || self.is_doc_mark(b"...") {
             return Err(PError::Mismatch);
         }
         self.ws(TakeOpt::More(0))
@@ -489,6 +488,25 @@ impl Parser<'_> {
         Ok(())
     }
 
+    /// Check the document mark (`---` / `...`) at the beginning of line.
+    pub(crate) fn is_doc_mark(&self, mark: &[u8]) -> bool {
+        let is_line = match self.doc[..self.pos] {
+            [.., c] => c == b'\n' || c == b'\r',
+            [] => true,
+        };
+        let next = self.food().strip_prefix(mark).map(<[u8]>::first);
+        is_line && next.is_some_and(|c| c.is_none_or(u8::is_ascii_whitespace))
+    }
+
+    /// Match the document mark (`---` / `...`).
+    pub(crate) fn doc_mark(&mut self, mark: &[u8]) -> PResult<()> {
+        if self.is_doc_mark(mark) {
+            self.sym_seq(mark)
+        } else {
+            Err(PError::Mismatch)
+        }
+    }
+
     /// Match any optional invisible characters between two lines.
     ///
     /// Set `cmt` to `true` to ignore comments at the line end.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c8f6c09..d16e6a0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -179,14 +179,14 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"---").unwrap_or_default();
+        self.doc_mark(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
             if self.food().is_empty() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if self.doc_mark(b"---").is_err() {
                 return self.err("document splitter");
             }
             v.push(self.doc()?);
@@ -203,10 +203,18 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
+        // The tag and anchor of the root can be on a new line
+        self.gap(true).unwrap_or_default();
+        if !self.food().starts_with(b"!") && !self.food().starts_with(b"&") {
+            self.backward();
+        }
+        self.forward();
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
-        self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        if self.gap(true).is_err() && !self.doc_end() {
+            return self.err("document splitter");
+        }
+        self.doc_mark(b"...").unwrap_or_default();
         self.forward();
         self.doc_ind += 1;
         Ok(ret)
@@ -214,17 +222,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match doc end.
     pub fn doc_end(&mut self) -> bool {
-        if self.food().is_empty() {
-            true
-        } else {
-            self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
-                if b {
-                    p.backward();
-                }
-                b
-            })
-        }
+        self.food().is_empty() || self.is_doc_mark(b"---") || self.is_doc_mark(b"...")
     }
 
     /// Match scalar.
-- 
2.43.0


From a7fb1e5e719074934bd0ce02c1ce7ebb3abe5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 20/55] fix: range of integers and multibyte characters in
 serde

---
 src/serde/de.rs       | 92 ++++++++++++++++++++++++++++++++-----------
 src/serde/ser_node.rs | 21 ++++++++--
 src/yaml.rs           |  2 +-
 3 files changed, 87 insertions(+), 28 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..d52280f 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -2,7 +2,7 @@ use super::SerdeError;
 use crate::{
     parse,
     repr::{RcRepr, Repr},
-    to_f64, to_i64, Map, Node, Seq, Yaml,
+    int_value, to_f64, to_i64, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
 use core::marker::PhantomData;
@@ -11,7 +11,7 @@ use serde::{
         DeserializeOwned, DeserializeSeed, EnumAccess, Error, Expected, MapAccess, SeqAccess,
         Unexpected, VariantAccess, Visitor,
     },
-    serde_if_integer128, Deserialize, Deserializer,
+    Deserialize, Deserializer,
 };
 
 macro_rules! impl_visitor {
@@ -28,6 +28,17 @@ macro_rules! impl_visitor {
 }
 
 macro_rules! impl_deserializer {
+    (int $($method:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => visit_int(&self, n, visitor),
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
     ($(fn $method:ident($ty:ident) => $visit:ident($n:ident => $value:expr))+) => {
         $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
         where
@@ -90,6 +101,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +292,11 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => visit_int(&self, n, visitor),
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,24 +306,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
-    serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
-        }
+    impl_deserializer! {
+        int deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
+        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -343,8 +349,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(n) => match n.parse() {
+                Ok(n) => visitor.visit_f32(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
+            Yaml::Int(n) => match int_value(n) {
+                Ok(n) => visitor.visit_f32(n as f32),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +366,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
+            Yaml::Int(n) => match int_value(n) {
+                Ok(n) => visitor.visit_f64(n as f64),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -366,7 +384,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
+                if s.chars().count() == 1 {
                     visitor.visit_char(s.chars().next().unwrap())
                 } else {
                     Err(unexpected(&self, visitor))
@@ -513,13 +531,39 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+/// Visit the integer with the smallest type, the range is checked by visitor.
+fn visit_int<'a, R, V>(node: &Node<R>, n: &str, visitor: V) -> Result<V::Value, SerdeError>
+where
+    R: Repr,
+    V: Visitor<'a>,
+{
+    if let Ok(n) = to_i64(n) {
+        visitor.visit_i64(n)
+    } else if let Some(n) = int_value(n).ok().and_then(|n| n.try_into().ok()) {
+        visitor.visit_u64(n)
+    } else if let Ok(n) = int_value(n) {
+        visitor.visit_i128(n)
+    } else if let Ok(n) = n.parse() {
+        visitor.visit_u128(n)
+    } else {
+        Err(unexpected(node, visitor))
+    }
+    .map_err(|e| e.pos(node.pos()))
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => match to_i64(n) {
+            Ok(n) => Unexpected::Signed(n),
+            Err(_) => Unexpected::Other("integer"),
+        },
+        Yaml::Float(n) => match to_f64(n) {
+            Ok(n) => Unexpected::Float(n),
+            Err(_) => Unexpected::Other("float"),
+        },
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..780375f 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,4 @@
-use crate::{repr::Repr, to_f64, to_i64, Node, Yaml};
+use crate::{int_value, repr::Repr, to_f64, to_i64, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -13,8 +13,23 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Ok(n) = to_i64(n) {
+                    serializer.serialize_i64(n)
+                } else if let Some(n) = int_value(n).ok().and_then(|n| n.try_into().ok()) {
+                    serializer.serialize_u64(n)
+                } else if let Ok(n) = int_value(n) {
+                    serializer.serialize_i128(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_u128(n)
+                } else {
+                    Err(S::Error::custom(format!("integer {n}")))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
diff --git a/src/yaml.rs b/src/yaml.rs
index 77718c0..4bc8bee 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -50,7 +50,7 @@ pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
 }
 
 /// The value of an integer, or its text if it is out of the supported range.
-fn int_value(s: &str) -> Result<i128, &str> {
+pub(crate) fn int_value(s: &str) -> Result<i128, &str> {
     let n = if let Some(s) = s.strip_prefix("0x") {
         i128::from_str_radix(s, 16)
     } else if let Some(s) = s.strip_prefix("0o") {
-- 
2.43.0


From 865b11d797704f0609e81755c07ed5f7c7e61709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 21/55] fix: blank lines with spaces

---
 src/parser/base/grammar.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5a41df9..4d234b8 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -527,9 +527,8 @@ impl Parser<'_> {
             loop {
                 // Check point
                 p.forward();
-                p.ws(TakeOpt::More(0))?;
-                if cmt {
-                    p.comment().unwrap_or_default();
+                if !cmt || p.comment().is_err() {
+                    p.ws(TakeOpt::More(0))?;
                 }
                 if p.nl().is_err() {
                     p.backward();
-- 
2.43.0


From eab67a82813c0738f7d3c84b8d743d1d3f886bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 22/55] fix: comment at the end of document

---
 src/parser/base/grammar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 4d234b8..8cc2ae2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -531,7 +531,9 @@ impl Parser<'_> {
                     p.ws(TakeOpt::More(0))?;
                 }
                 if p.nl().is_err() {
-                    p.backward();
+                    if !cmt || !p.food().is_empty() {
+                        p.backward();
+                    }
                     return Ok(t);
                 }
                 t += 1;
-- 
2.43.0


From 5c4b7f9967fd5129f79c1e968e5950df7762e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 23/55] fix: indent of the root behind comments

---
 src/parser/base/grammar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8cc2ae2..8ef7003 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -503,6 +503,7 @@ impl Parser<'_> {
         if self.is_doc_mark(mark) {
             self.sym_seq(mark)
         } else {
+            self.backward();
             Err(PError::Mismatch)
         }
     }
-- 
2.43.0


From 44174a490829f7c230b8243a435f5405983ba47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 24/55] fix: directives behind comments and blank lines

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d16e6a0..d4e9062 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -172,13 +172,13 @@ impl<R: Repr> Loader<'_, R> {
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
         loop {
+            self.gap(true).unwrap_or_default();
             match self.context(Parser::directive) {
                 Ok(()) => (),
                 Err(PError::Mismatch) => break,
                 Err(e) => return Err(e),
             }
         }
-        self.gap(true).unwrap_or_default();
         self.doc_mark(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
-- 
2.43.0


From c0f4cac583f1d4d9c73b7eb7e541a13e6ec29ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 25/55] fix: wrapped string of the root on a new line

---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e9062..72e0f81 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -203,9 +203,9 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
-        // The tag and anchor of the root can be on a new line
+        // The tag, anchor and wrapped string of the root can be on a new line
         self.gap(true).unwrap_or_default();
-        if !self.food().starts_with(b"!") && !self.food().starts_with(b"&") {
+        if !self.food().first().is_some_and(|c| b"!&|>".contains(c)) {
             self.backward();
         }
         self.forward();
-- 
2.43.0


From fa03bf5df56e52d2086b74c866318f03dca6c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 26/55] fix: quote the strings that start with a block
 indicator in dumper

---
 src/dumper.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 1c4f5a2..9be6837 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -219,10 +219,17 @@ fn is_identifier(s: &str) -> bool {
     p.identifier().is_ok() && p.food().is_empty()
 }
 
+/// Check the string starts with the indicator of a block structure.
+fn is_entry(s: &str) -> bool {
+    let mut p = parser::Parser::new(s.as_bytes());
+    p.sym_set(b"-?").and_then(|_| p.bound()).is_ok()
+}
+
 /// Check the string will not be changed in plain style.
 fn is_plain<R: Repr>(s: &str) -> bool {
     let mut p = parser::Parser::new(s.as_bytes());
     !s.starts_with(['%', '@', '`', ',']) // Reserved
+        && !is_entry(s)
         && !s.starts_with("---")
         && !s.starts_with("...")
         && !s.contains(char::is_control)
-- 
2.43.0


From 59e9315cf4c16992e010787b1d62c805a0f8312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 27/55] fix: comments behind quoted strings and collections in
 flow collections

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8ef7003..ff09bec 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -546,8 +546,9 @@ impl Parser<'_> {
     pub fn flow_gap(&mut self) {
         loop {
             self.inv(TakeOpt::More(0)).unwrap_or_default();
-            let is_sep = self.pos > self.eaten;
             self.forward();
+            let eaten = &self.doc[..self.pos];
+            let is_sep = eaten.last().is_none_or(u8::is_ascii_whitespace);
             if !is_sep || self.comment().is_err() {
                 break;
             }
-- 
2.43.0


From ba4b020c82488a52d2a56f415d6d511bcc6a8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 28/55] fix: text behind the header of wrapped strings

---
 src/parser/base/grammar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index ff09bec..2d467da 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -239,8 +239,7 @@ impl Parser<'_> {
     /// Match the rest of the wrapped string header.
     fn wrapped_header(&mut self) -> PResult<()> {
         if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.forward();
-            self.comment().unwrap_or_default();
+            self.context(|p| p.comment().unwrap_or_default());
         }
         Ok(())
     }
-- 
2.43.0


From b09648f7c265af0a790443eb39a003090abbd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 29/55] fix: move back if a wrapped string, tag or anchor is
 mismatched

---
 src/parser/base/grammar.rs | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 2d467da..a4e65a5 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -82,6 +82,19 @@ impl Parser<'_> {
         Ok(s)
     }
 
+    /// Match the symbol and the pattern behind it, move back if mismatched.
+    fn sym_then<F, R>(&mut self, sym: u8, f: F) -> PResult<R>
+    where
+        F: FnOnce(&mut Self) -> PResult<R>,
+    {
+        self.sym(sym)?;
+        let r = self.context(f);
+        if let Err(PError::Mismatch) = r {
+            self.backward();
+        }
+        r
+    }
+
     /// Match quoted string.
     pub fn string_quoted(&mut self, sym: u8, ignore: &[u8]) -> PResult<String> {
         self.context(|p| {
@@ -204,20 +217,22 @@ impl Parser<'_> {
 
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
-        self.sym(b'|')?;
-        let chomp = self.chomp();
-        self.wrapped_header()?;
-        let s = self.string_wrapped(level, b'\n', true)?;
-        Ok(chomp(s))
+        self.sym_then(b'|', |p| {
+            let chomp = p.chomp();
+            p.wrapped_header()?;
+            let s = p.string_wrapped(level, b'\n', true)?;
+            Ok(chomp(s))
+        })
     }
 
     /// Match folded string.
     pub fn string_folded(&mut self, level: usize) -> PResult<String> {
-        self.sym(b'>')?;
-        let chomp = self.chomp();
-        self.wrapped_header()?;
-        let s = self.string_wrapped(level, b' ', false)?;
-        Ok(chomp(s))
+        self.sym_then(b'>', |p| {
+            let chomp = p.chomp();
+            p.wrapped_header()?;
+            let s = p.string_wrapped(level, b' ', false)?;
+            Ok(chomp(s))
+        })
     }
 
     /// Match string chomping option.
@@ -353,8 +368,7 @@ impl Parser<'_> {
 
     /// Match tags.
     pub fn tag(&mut self) -> PResult<String> {
-        self.sym(b'!')?;
-        self.context(|p| {
+        self.sym_then(b'!', |p| {
             p.identifier().unwrap_or_default();
             let tag = p.text();
             let prefix = if !tag.is_empty() {
@@ -393,8 +407,7 @@ impl Parser<'_> {
 
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
-        self.sym(b'&')?;
-        self.context(|p| {
+        self.sym_then(b'&', |p| {
             p.identifier()?;
             Ok(p.text())
         })
@@ -402,8 +415,7 @@ impl Parser<'_> {
 
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
-        self.sym(b'*')?;
-        self.context(|p| {
+        self.sym_then(b'*', |p| {
             p.identifier()?;
             Ok(p.text())
         })
-- 
2.43.0


From 14084266017250b65866da8c65fd56322f1087ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 30/55] fix: reject malformed directives

---
 src/parser/base/directive.rs | 5 +++++
 src/parser/mod.rs            | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..4d38e75 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -5,6 +5,11 @@ impl Parser<'_> {
     /// Match directives.
     pub fn directive(&mut self) -> PResult<()> {
         self.sym(b'%')?;
+        self.directive_rest()
+            .or_else(|e| e.or(|| self.err("directive")))
+    }
+
+    fn directive_rest(&mut self) -> PResult<()> {
         self.context(|p| {
             if p.sym_seq(b"YAML").is_ok() {
                 p.directive_yaml()
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72e0f81..563ba50 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -12,8 +12,7 @@
 //!
 //! ## Document
 //!
-//! **WRONG**: Invalid tag directive will be ignored.
-//!
+//! + directive: The directive is invalid.
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
-- 
2.43.0


From e9f5b10bf295fd33174985fcd42c55aba08491b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 31/55] fix: range of take_while that ends at zero

---
 src/parser/base/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 93a2d36..472a757 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -157,6 +157,11 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
+            if let TakeOpt::Range(_, c) = opt {
+                if counter == c {
+                    break;
+                }
+            }
             if !f(c) {
                 break;
             }
@@ -165,11 +170,6 @@ impl Parser<'_> {
             if let TakeOpt::One = opt {
                 break;
             }
-            if let TakeOpt::Range(_, c) = opt {
-                if counter == c {
-                    break;
-                }
-            }
         }
         if pos == self.pos {
             if let TakeOpt::More(c) | TakeOpt::Range(c, _) = opt {
-- 
2.43.0


From 6eeaaf118d919e9a47f1fea34795119994879852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 32/55] fix: tabs behind indicators and before comments

---
 src/parser/base/grammar.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a4e65a5..7ea626f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -11,7 +11,7 @@ impl Parser<'_> {
         if self.food().is_empty() {
             return Ok(());
         }
-        self.sym_set(b":{}[] ,\n\r")?;
+        self.sym_set(b":{}[] \t,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
     }
@@ -152,7 +152,7 @@ impl Parser<'_> {
 
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
-        let mut patt = b"[]{}: \n\r".to_vec();
+        let mut patt = b"[]{}: \t\n\r".to_vec();
         if inner {
             patt.push(b',');
         }
@@ -167,15 +167,15 @@ impl Parser<'_> {
                 v.push_str(&p.text());
                 p.forward();
                 if p.food().is_empty()
-                    || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
-                    || p.sym_seq(b" #").is_ok()
+                    || (p.sym(b':').is_ok()
+                        && (p.food().is_empty() || p.sym_set(b" \t\n\r").is_ok()))
+                    || (p.sym_set(b" \t").is_ok() && p.sym(b'#').is_ok())
                 {
                     p.backward();
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok()
+                if p.sym_set(b": \t").is_ok()
                     || (!inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok())
                 {
                     v.push_str(&p.text());
-- 
2.43.0


From 1842be24c24a0788627b5c344ed4620bbb5f625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 33/55] fix: hexadecimal and named escapes of quoted strings

---
 src/parser/base/grammar.rs | 54 ++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7ea626f..387eb77 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -337,26 +337,58 @@ impl Parser<'_> {
     /// Match an escaped string, return unescaped string.
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
-        let mut b = false;
-        for c in doc.chars() {
-            if c == '\\' && !b {
-                b = true;
+        let mut doc = doc.chars();
+        while let Some(c) = doc.next() {
+            if c != '\\' {
+                s.push(c);
                 continue;
             }
+            let Some(c) = doc.next() else { break };
             s.push(match c {
-                '\\' if b => '\\',
-                'n' if b => '\n',
-                'r' if b => '\r',
-                't' if b => '\t',
-                'b' if b => '\x08',
-                'f' if b => '\x0C',
+                '0' => '\0',
+                'a' => '\x07',
+                'n' => '\n',
+                'r' => '\r',
+                't' => '\t',
+                'b' => '\x08',
+                'v' => '\x0B',
+                'f' => '\x0C',
+                'e' => '\x1B',
+                'N' => '\u{85}',
+                '_' => '\u{A0}',
+                'L' => '\u{2028}',
+                'P' => '\u{2029}',
+                'x' => Self::escape_code(&mut doc, 2).unwrap_or(c),
+                'u' => Self::escape_code(&mut doc, 4).unwrap_or(c),
+                'U' => Self::escape_code(&mut doc, 8).unwrap_or(c),
                 c => c,
             });
-            b = false;
         }
         s
     }
 
+    /// Match the hexadecimal code of an escaped character.
+    fn escape_code(doc: &mut core::str::Chars, n: usize) -> Option<char> {
+        let code = |s: &str| {
+            let s = s.get(..n).filter(|s| s.bytes().all(|c| c.is_ascii_hexdigit()))?;
+            u32::from_str_radix(s, 16).ok()
+        };
+        let food = doc.as_str();
+        let hi = code(food)?;
+        let mut rest = &food[n..];
+        let mut c = char::from_u32(hi);
+        if let (0xD800..=0xDBFF, Some(food)) = (hi, rest.strip_prefix("\\u")) {
+            // Surrogate pair of JSON
+            let lo = code(food).filter(|lo| (0xDC00..=0xDFFF).contains(lo))?;
+            c = char::from_u32(0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00));
+            rest = &food[n..];
+        }
+        if c.is_some() {
+            *doc = rest.chars();
+        }
+        c
+    }
+
     /// Match valid YAML identifier.
     pub fn identifier(&mut self) -> PResult<()> {
         self.take_while(u8::is_ascii_alphanumeric, TakeOpt::One)?;
-- 
2.43.0


From ffccf6ad6edbc5c352e162f5b80c2926c9b0e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 34/55] fix: block collections and wrapped strings in flow
 collections

---
 src/parser/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 563ba50..03281e2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -244,7 +244,12 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
-        self.scalar_node(|p, pos| {
+        self.scalar_node(|p, mut pos| {
+            if flow {
+                // Gap behind the tag and anchor
+                p.flow_gap();
+                pos = p.indicator();
+            }
             p.scalar_term(level, flow)
                 .map(|yaml| Node::new_repr(yaml, pos, ""))
         })
@@ -399,7 +404,7 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.forward();
             let n = self
-                .scalar(level, false, true)
+                .scalar_flow(level, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
             self.flow_gap();
@@ -443,10 +448,9 @@ impl<R: Repr> Loader<'_, R> {
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
-            self.context(|p| p.bound().unwrap_or_default());
-            self.forward();
+            self.flow_gap();
             let v = self
-                .scalar(level, false, true)
+                .scalar_flow(level, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
             self.flow_gap();
-- 
2.43.0


From 42e12811c80fb1213f134cdf8a5337a45263d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 35/55] fix: line breaks before the colon in flow maps

---
 src/parser/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 03281e2..eee1823 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -432,11 +432,8 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             let k = if self.complex_mapping().is_ok() {
                 self.flow_gap();
-                let k = self
-                    .scalar_flow(level, true)
-                    .or_else(|e| e.or(|| self.err("flow map key")))?;
-                self.flow_gap();
-                k
+                self.scalar_flow(level, true)
+                    .or_else(|e| e.or(|| self.err("flow map key")))?
             } else {
                 self.scalar_node(|p, pos| {
                     p.number_key()
@@ -445,6 +442,7 @@ impl<R: Repr> Loader<'_, R> {
                 })
                 .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            self.flow_gap();
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
-- 
2.43.0


From f7d4a53ba9c0bc1f4adfa48d7103bdcf01aa9089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 36/55] fix: trailing spaces of the lines in folded strings

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 387eb77..f20b16f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -321,7 +321,7 @@ impl Parser<'_> {
                     v.push_str(&s);
                 } else {
                     let s = s.trim_start();
-                    if !v.is_empty() && !v.ends_with(char::is_whitespace) {
+                    if !v.is_empty() && !v.ends_with('\n') {
                         v.push(char::from(sep));
                     }
                     v.push_str(s);
-- 
2.43.0


From a4f563d3ce5f2edcd79406c51dc549cdd0d87e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 37/55] fix: lines of spaces in literal strings

---
 src/parser/base/grammar.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f20b16f..ea69254 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -297,16 +297,22 @@ impl Parser<'_> {
                 }
                 p.nl()?;
                 p.forward();
-                if !leading || match_ind(p).is_err() {
+                if !leading {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
                             v.push('\n');
                         }
                     }
                     p.forward();
-                    if match_ind(p).is_err() {
-                        break;
-                    }
+                }
+                let mut matched = match_ind(p).is_ok();
+                while leading && !matched && p.blank_line().is_ok() {
+                    v.push('\n');
+                    p.forward();
+                    matched = match_ind(p).is_ok();
+                }
+                if !matched {
+                    break;
                 }
                 if p.food().is_empty() {
                     break;
@@ -334,6 +340,14 @@ impl Parser<'_> {
         })
     }
 
+    /// Match a line of invisible characters.
+    fn blank_line(&mut self) -> PResult<()> {
+        self.context(|p| {
+            p.ws(TakeOpt::More(0))?;
+            p.nl().inspect_err(|_| p.backward())
+        })
+    }
+
     /// Match an escaped string, return unescaped string.
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
-- 
2.43.0


From 8e0454a04513c30b6a0c9eeeb5ba2a4ab0bca050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 38/55] fix: Unicode spaces at the end of plain strings and at
 the beginning of folded lines

---
 src/parser/base/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index ea69254..8221f81 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -186,7 +186,7 @@ impl Parser<'_> {
                         p.backward();
                         break;
                     }
-                    v.truncate(v.trim_end().len());
+                    v.truncate(v.trim_end_matches([' ', '\t']).len());
                     if t == 1 {
                         v.push(' ');
                     }
@@ -197,7 +197,7 @@ impl Parser<'_> {
                     break;
                 }
             }
-            v.truncate(v.trim_end().len());
+            v.truncate(v.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
             if v.is_empty() {
                 Err(PError::Mismatch)
             } else {
@@ -326,7 +326,7 @@ impl Parser<'_> {
                     }
                     v.push_str(&s);
                 } else {
-                    let s = s.trim_start();
+                    let s = s.trim_start_matches([' ', '\t']);
                     if !v.is_empty() && !v.ends_with('\n') {
                         v.push(char::from(sep));
                     }
-- 
2.43.0


From 34193f26cdc4f31ac73266fdf2e71df10b8d4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 39/55] fix: indentation of block scalars in documents with CR
 line ends

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8221f81..8fbffd2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -264,7 +264,7 @@ impl Parser<'_> {
         let parent = (0..level).map(|i| self.indent.get(i).unwrap_or(&2)).sum();
         let ind = self
             .food()
-            .split(|c| *c == b'\n')
+            .split(|c| matches!(c, b'\n' | b'\r'))
             .skip(1)
             .find(|s| !s.iter().all(u8::is_ascii_whitespace))
             .map_or(0, |s| s.iter().take_while(|c| **c == b' ').count());
-- 
2.43.0


From d11e0cca908fb7e79a82c5c0f2c98bd079b4253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 40/55] fix: take a directive whose name starts with TAG or
 YAML as unknown

---
 src/parser/base/directive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 4d38e75..9260c02 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -11,9 +11,9 @@ impl Parser<'_> {
 
     fn directive_rest(&mut self) -> PResult<()> {
         self.context(|p| {
-            if p.sym_seq(b"YAML").is_ok() {
+            if p.directive_name(b"YAML") {
                 p.directive_yaml()
-            } else if p.sym_seq(b"TAG").is_ok() {
+            } else if p.directive_name(b"TAG") {
                 p.directive_tag()
             } else {
                 // Unknown - ignore
@@ -23,6 +23,12 @@ impl Parser<'_> {
         self.gap(true).map(|_| ())
     }
 
+    /// Match the whole name of a directive.
+    fn directive_name(&mut self, name: &[u8]) -> bool {
+        let rest = self.food().strip_prefix(name).map(<[u8]>::first);
+        matches!(rest, Some(None | Some(b' ' | b'\t' | b'\n' | b'\r'))) && self.sym_seq(name).is_ok()
+    }
+
     fn directive_yaml(&mut self) -> PResult<()> {
         self.ws(TakeOpt::More(1))?;
         if self.version_checked {
-- 
2.43.0


From 3dc2b81a6f82a4d0224b8542b6408f06a9cc6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 41/55] fix: end the prefix of a TAG directive at a tab, too

---
 src/parser/base/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 9260c02..9ff0fa8 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -56,7 +56,7 @@ impl Parser<'_> {
             };
             p.ws(TakeOpt::More(1))?;
             let doc = p.context(|p| {
-                p.take_while(Self::not_in(b" \n\r"), TakeOpt::More(1))?;
+                p.take_while(Self::not_in(b" \t\n\r"), TakeOpt::More(1))?;
                 Ok(p.text())
             })?;
             p.tag.insert(tag, doc);
-- 
2.43.0


From 111e6b291fe356c02f1053726d333db11c2594d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:42 +0000
Subject: [PATCH 42/55] fix: a comment ends a plain scalar

---
 src/parser/base/grammar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8fbffd2..f149fd8 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -181,8 +181,9 @@ impl Parser<'_> {
                     v.push_str(&p.text());
                 } else if v.is_empty() {
                     break;
-                } else if let Ok(t) = p.gap(true) {
-                    if p.ind_more(level).is_err() || p.food().is_empty() {
+                } else if let Ok(t) = p.gap(false) {
+                    // The comment line ends the plain string
+                    if p.ind_more(level).is_err() || p.food().first().is_none_or(|c| *c == b'#') {
                         p.backward();
                         break;
                     }
-- 
2.43.0


From b8becb735ebc29f3046e123ba518f506dccae7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:42 +0000
Subject: [PATCH 43/55] fix: block indicators need a blank behind them

---
 src/parser/base/grammar.rs | 14 ++++++++++++--
 src/parser/mod.rs          |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f149fd8..b5b8246 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -19,7 +19,17 @@ impl Parser<'_> {
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
-        self.bound()
+        self.sep()
+    }
+
+    /// Match the invisible boundaries of an indicator. (must matched once)
+    pub(crate) fn sep(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
+        self.sym_set(b" \t\n\r")?;
+        self.back(1);
+        self.ws(TakeOpt::More(0))
     }
 
     fn num_prefix(&mut self) -> PResult<()> {
@@ -541,7 +551,7 @@ impl Parser<'_> {
     pub(crate) fn seq_item(&mut self, level: usize) -> PResult<()> {
         let pos = self.pos;
         self.sym(b'-')?;
-        self.bound()?;
+        self.sep()?;
         self.ind_set(level + 1, self.pos - pos);
         Ok(())
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index eee1823..6cc3bc8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -511,7 +511,7 @@ impl<R: Repr> Loader<'_, R> {
         let pos = self.pos;
         let has_value = (self.gap(true).is_err() || self.ind(level).is_ok())
             && self.sym(b':').is_ok()
-            && self.bound().is_ok();
+            && self.sep().is_ok();
         if !has_value {
             self.pos = pos;
         }
@@ -539,7 +539,7 @@ impl<R: Repr> Loader<'_, R> {
                     let food = self.food();
                     let k = self.scalar_flow(level, flow)?;
                     let key = &food[..food.len() - self.food().len()];
-                    if self.sym(b':').is_err() || self.bound().is_err() {
+                    if self.sym(b':').is_err() || self.sep().is_err() {
                         // Return key
                         return Ok(k);
                     }
@@ -573,7 +573,7 @@ impl<R: Repr> Loader<'_, R> {
                     if key.iter().any(|c| matches!(c, b'\n' | b'\r')) {
                         return self.err("map key");
                     }
-                    if self.sym(b':').is_err() || self.bound().is_err() {
+                    if self.sym(b':').is_err() || self.sep().is_err() {
                         return self.err("map splitter");
                     }
                     k
-- 
2.43.0


From d7d602f44ddfd84666b82d7855714719a1ce9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:46 +0000
Subject: [PATCH 44/55] fix: block scalars of blank lines have no content

---
 src/parser/base/grammar.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index b5b8246..9d14f3c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -270,19 +270,21 @@ impl Parser<'_> {
         Ok(())
     }
 
-    /// Get the indent size of the first line in the wrapped string.
-    fn wrapped_indent(&self, level: usize) -> usize {
-        let parent = (0..level).map(|i| self.indent.get(i).unwrap_or(&2)).sum();
-        let ind = self
+    /// Get the indent size of the first line in the wrapped string, returns
+    /// `None` if there are only blank lines.
+    fn wrapped_indent(&self, level: usize) -> Option<usize> {
+        let first = self
             .food()
             .split(|c| matches!(c, b'\n' | b'\r'))
             .skip(1)
-            .find(|s| !s.iter().all(u8::is_ascii_whitespace))
-            .map_or(0, |s| s.iter().take_while(|c| **c == b' ').count());
-        if level > 0 && ind <= parent {
-            parent + 2
+            .find(|s| !s.iter().all(u8::is_ascii_whitespace))?;
+        let ind = first.iter().take_while(|c| **c == b' ').count();
+        if level > 0 {
+            let parent = (0..level).map(|i| self.indent.get(i).unwrap_or(&2)).sum();
+            (ind > parent).then_some(ind)
         } else {
-            ind
+            let p = Parser::new(first);
+            (!p.is_doc_mark(b"---") && !p.is_doc_mark(b"...")).then_some(ind)
         }
     }
 
@@ -296,7 +298,7 @@ impl Parser<'_> {
                     p.ind_more(level)?;
                     p.backward();
                 }
-                for _ in 0..ind {
+                for _ in 0..ind.ok_or(PError::Mismatch)? {
                     p.sym(b' ')?;
                 }
                 Ok::<(), PError>(())
-- 
2.43.0


From 65e28be27949acbb8c9ea80c24c3d1899559b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:46 +0000
Subject: [PATCH 45/55] fix: the block scalar of the root can be indented on a
 new line

---
 src/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6cc3bc8..fd80f6b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -204,8 +204,11 @@ impl<R: Repr> Loader<'_, R> {
         self.forward();
         // The tag, anchor and wrapped string of the root can be on a new line
         self.gap(true).unwrap_or_default();
-        if !self.food().first().is_some_and(|c| b"!&|>".contains(c)) {
-            self.backward();
+        if !self.food().first().is_some_and(|c| b"!&".contains(c)) {
+            self.ws(TakeOpt::More(0)).unwrap_or_default();
+            if !self.food().first().is_some_and(|c| b"|>".contains(c)) {
+                self.backward();
+            }
         }
         self.forward();
         self.anchors.push(Anchors::new());
-- 
2.43.0


From 20e39a241ac1f1010b9820bd56176dd60c1ed4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:46 +0000
Subject: [PATCH 46/55] fix: reject block collections in the line of a property

---
 src/parser/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index fd80f6b..263597a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -229,7 +229,15 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
+        let start = self.pos;
         self.scalar_node(|p, pos| {
+            // The indicators can not behind the tag and anchor of the same line
+            if p.pos > start && p.context(|p| p.seq_item(level)).is_ok() {
+                return p.err("sequence item");
+            }
+            if p.pos > start && p.context(Parser::complex_mapping).is_ok() {
+                return p.err("map key");
+            }
             let yaml = if let Ok(s) = p.string_literal(level) {
                 R::new_rc(Yaml::Str(s))
             } else if let Ok(s) = p.string_folded(level) {
-- 
2.43.0


From cc0445e728088aa72d11b06914108128a0f4f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:29 +0000
Subject: [PATCH 47/55] fix: aliases have the tag of their node

---
 src/parser/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 263597a..0289646 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -247,7 +247,7 @@ impl<R: Repr> Loader<'_, R> {
             } else if let Some(node) = p.map_node(level, map, flow, pos).optional()? {
                 return Ok(node);
             } else {
-                p.scalar_term(level, flow)?
+                return p.scalar_term_node(level, flow, pos);
             };
             Ok(Node::new_repr(yaml, pos, ""))
         })
@@ -261,8 +261,7 @@ impl<R: Repr> Loader<'_, R> {
                 p.flow_gap();
                 pos = p.indicator();
             }
-            p.scalar_term(level, flow)
-                .map(|yaml| Node::new_repr(yaml, pos, ""))
+            p.scalar_term_node(level, flow, pos)
         })
     }
 
@@ -330,6 +329,12 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
+        let pos = self.indicator();
+        self.scalar_term_node(level, flow, pos)
+            .map(|n| n.clone_yaml())
+    }
+
+    fn scalar_term_node(&mut self, level: usize, flow: bool, pos: u64) -> PResult<Node<R>> {
         let yaml = if self.food().first() == Some(&b'*') {
             let s = self
                 .anchor_use()
@@ -338,7 +343,8 @@ impl<R: Repr> Loader<'_, R> {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
-                node.clone_yaml()
+                // The alias has the tag of its node
+                return Ok(Node::new_repr(node.clone_yaml(), pos, &node.tag));
             } else {
                 return self.err("anchor referenced before definition");
             }
@@ -356,7 +362,7 @@ impl<R: Repr> Loader<'_, R> {
                 .and_then(|rc| self.ws(TakeOpt::More(0)).map(|_| rc))
                 .or_else(|e| e.or(|| Ok(R::new_rc(Yaml::Null))))?
         };
-        Ok(yaml)
+        Ok(Node::new_repr(yaml, pos, ""))
     }
 
     /// Resolve the plain string.
@@ -448,8 +454,8 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 self.scalar_node(|p, pos| {
                     p.number_key()
-                        .or_else(|e| e.or(|| p.scalar_term(level, true)))
                         .map(|yaml| Node::new_repr(yaml, pos, ""))
+                        .or_else(|e| e.or(|| p.scalar_term_node(level, true, pos)))
                 })
                 .or_else(|e| e.or(|| self.err("flow map key")))?
             };
-- 
2.43.0


From 84b8c959a937c96e68da9e60505dcb4c8965b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 48/55] fix: identifiers can have underscores

---
 src/parser/base/grammar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9d14f3c..aa711f4 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -418,9 +418,12 @@ impl Parser<'_> {
 
     /// Match valid YAML identifier.
     pub fn identifier(&mut self) -> PResult<()> {
-        self.take_while(u8::is_ascii_alphanumeric, TakeOpt::One)?;
         self.take_while(
-            |c| c.is_ascii_alphanumeric() || *c == b'-',
+            |c| c.is_ascii_alphanumeric() || *c == b'_',
+            TakeOpt::One,
+        )?;
+        self.take_while(
+            |c| c.is_ascii_alphanumeric() || b"-_".contains(c),
             TakeOpt::More(0),
         )
     }
-- 
2.43.0


From 1c0507549086bc08b31c070cc60fa1b639d5921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:59 +0000
Subject: [PATCH 49/55] fix: explicit keys and values can have compact
 collections

---
 src/parser/base/grammar.rs |  8 ++++++-
 src/parser/mod.rs          | 45 ++++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index aa711f4..4a41498 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -554,8 +554,14 @@ impl Parser<'_> {
     /// Match the indicator of sequence item (`-`) and define the indent size of
     /// the compact structure behind it.
     pub(crate) fn seq_item(&mut self, level: usize) -> PResult<()> {
+        self.item(b'-', level)
+    }
+
+    /// Match the indicator and define the indent size of the compact structure
+    /// behind it.
+    pub(crate) fn item(&mut self, sym: u8, level: usize) -> PResult<()> {
         let pos = self.pos;
-        self.sym(b'-')?;
+        self.sym(sym)?;
         self.sep()?;
         self.ind_set(level + 1, self.pos - pos);
         Ok(())
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0289646..67e4241 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -519,38 +519,48 @@ impl<R: Repr> Loader<'_, R> {
     }
 
     /// Match the complex key of map, returns true if its splitter is matched.
-    fn complex_key(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, bool)> {
+    /// Match the key behind the indicator (`?`) and the indicator of its value.
+    ///
+    /// Returns the key and whether the value starts on a new line.
+    fn complex_key(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, Option<bool>)> {
         self.forward();
+        let pos = self.pos;
+        let compact = self.seq_item(level + 1).is_ok();
+        self.pos = pos;
         let k = self
-            .scalar(level + 1, true, flow)
+            .scalar(level + 1, !compact, flow)
             .or_else(|e| e.or(|| self.err("map key")))?;
         self.forward();
         let pos = self.pos;
-        let has_value = (self.gap(true).is_err() || self.ind(level).is_ok())
-            && self.sym(b':').is_ok()
-            && self.sep().is_ok();
-        if !has_value {
+        if (self.gap(true).is_err() || self.ind(level).is_ok()) && self.item(b':', level).is_ok() {
+            let pos = self.pos;
+            let prop = self.food().first().is_some_and(|c| b"!&".contains(c));
+            let wrapped = prop || self.gap(true).is_ok();
+            self.pos = pos;
+            Ok((k, Some(wrapped)))
+        } else {
             self.pos = pos;
+            Ok((k, None))
         }
-        Ok((k, has_value))
     }
 
-    /// Match map, or the node of the first key if it is not a map.
     fn map_node(&mut self, level: usize, map: bool, flow: bool, pos: u64) -> PResult<Node<R>> {
         let mut m = vec![];
         loop {
             self.forward();
+            let mut new_line = true;
             let k = if m.is_empty() {
                 // First item
                 self.ind_first(level, map, false)?;
                 self.forward();
-                if self.complex_mapping().is_ok() {
-                    let (k, has_value) = self.complex_key(level, flow)?;
-                    if !has_value {
+                if self.item(b'?', level).is_ok() {
+                    let (k, value) = self.complex_key(level, flow)?;
+                    let Some(value) = value else {
                         let pos = self.indicator();
                         m.push((k, Node::new(Yaml::Null, pos, "")));
                         continue;
-                    }
+                    };
+                    new_line = value;
                     k
                 } else {
                     let food = self.food();
@@ -573,13 +583,14 @@ impl<R: Repr> Loader<'_, R> {
                     break;
                 }
                 self.forward();
-                if self.complex_mapping().is_ok() {
-                    let (k, has_value) = self.complex_key(level, flow)?;
-                    if !has_value {
+                if self.item(b'?', level).is_ok() {
+                    let (k, value) = self.complex_key(level, flow)?;
+                    let Some(value) = value else {
                         let pos = self.indicator();
                         m.push((k, Node::new(Yaml::Null, pos, "")));
                         continue;
-                    }
+                    };
+                    new_line = value;
                     k
                 } else {
                     let food = self.food();
@@ -598,7 +609,7 @@ impl<R: Repr> Loader<'_, R> {
             };
             self.forward();
             let v = self
-                .scalar(level + 1, true, false)
+                .scalar(level + 1, new_line, false)
                 .or_else(|e| e.or(|| self.err("map value")))?;
             m.push((k, v));
         }
-- 
2.43.0


From 5d02fa6eff9606460cfa714162ad006f6f762e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 50/55] fix: flow sequences can have single pairs

---
 src/parser/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 67e4241..d6509e1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -421,7 +421,7 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.forward();
             let n = self
-                .scalar_flow(level, true)
+                .flow_item(level)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
             self.flow_gap();
@@ -518,7 +518,34 @@ impl<R: Repr> Loader<'_, R> {
         self.map_node(level, map, flow, pos).map(|n| n.clone_yaml())
     }
 
-    /// Match the complex key of map, returns true if its splitter is matched.
+    /// Match the item of flow sequence, it can be a map of a single pair.
+    fn flow_item(&mut self, level: usize) -> PResult<Node<R>> {
+        let pos = self.indicator();
+        let explicit = self.complex_mapping().is_ok();
+        if explicit {
+            self.flow_gap();
+        }
+        let food = self.food();
+        let k = self.scalar_flow(level, true)?;
+        self.flow_gap();
+        let pair = self.sym(b':').is_ok();
+        if !explicit && !pair {
+            return Ok(k);
+        }
+        let key = &food[..food.len() - self.food().len()];
+        if !explicit && key.iter().any(|c| matches!(c, b'\n' | b'\r')) {
+            return self.err("flow map key");
+        }
+        let v = if pair {
+            self.flow_gap();
+            self.scalar_flow(level, true)
+                .or_else(|e| e.or(|| self.err("flow map value")))?
+        } else {
+            Node::new(Yaml::Null, self.indicator(), "")
+        };
+        Ok(Node::new([(k, v)].into_iter().collect::<Yaml<R>>(), pos, ""))
+    }
+
     /// Match the key behind the indicator (`?`) and the indicator of its value.
     ///
     /// Returns the key and whether the value starts on a new line.
-- 
2.43.0


From a6f24da660f65eedc42e572c555ad658e8d48245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:48 +0000
Subject: [PATCH 51/55] fix: flow maps can have keys without values

---
 src/parser/base/grammar.rs | 3 ++-
 src/parser/mod.rs          | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 4a41498..c166777 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -166,6 +166,7 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
+        let splitter: &[u8] = if inner { b" \t\n\r,[]{}" } else { b" \t\n\r" };
         self.context(|p| {
             let mut v = String::new();
             if p.is_plain_indicator() || p.is_doc_mark(b"---") || p.is_doc_mark(b"...") {
@@ -178,7 +179,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || (p.sym(b':').is_ok()
-                        && (p.food().is_empty() || p.sym_set(b" \t\n\r").is_ok()))
+                        && (p.food().is_empty() || p.sym_set(splitter).is_ok()))
                     || (p.sym_set(b" \t").is_ok() && p.sym(b'#').is_ok())
                 {
                     p.backward();
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d6509e1..d6e7329 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -447,6 +447,7 @@ impl<R: Repr> Loader<'_, R> {
                 break;
             }
             self.forward();
+            let start = self.pos;
             let k = if self.complex_mapping().is_ok() {
                 self.flow_gap();
                 self.scalar_flow(level, true)
@@ -459,8 +460,10 @@ impl<R: Repr> Loader<'_, R> {
                 })
                 .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            let has_key = self.pos > start;
             self.flow_gap();
-            if self.sym(b':').is_err() {
+            let single = has_key && self.food().first().is_some_and(|c| b",}".contains(c));
+            if !single && self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
             self.flow_gap();
-- 
2.43.0


From 102b5b5582b50e55688603b8a40f98c932194cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:21 +0000
Subject: [PATCH 52/55] fix: block scalars can have their header on a new line

---
 src/parser/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d6e7329..3b47d9e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -238,10 +238,8 @@ impl<R: Repr> Loader<'_, R> {
             if p.pos > start && p.context(Parser::complex_mapping).is_ok() {
                 return p.err("map key");
             }
-            let yaml = if let Ok(s) = p.string_literal(level) {
-                R::new_rc(Yaml::Str(s))
-            } else if let Ok(s) = p.string_folded(level) {
-                R::new_rc(Yaml::Str(s))
+            let yaml = if let Ok(yaml) = p.string_block(level) {
+                yaml
             } else if let Some(yaml) = p.seq(level, map).optional()? {
                 yaml
             } else if let Some(node) = p.map_node(level, map, flow, pos).optional()? {
@@ -253,6 +251,13 @@ impl<R: Repr> Loader<'_, R> {
         })
     }
 
+    /// Match literal or folded string.
+    fn string_block(&mut self, level: usize) -> PResult<R::Rc> {
+        self.string_literal(level)
+            .or_else(|_| self.string_folded(level))
+            .map(|s| R::new_rc(Yaml::Str(s)))
+    }
+
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
         self.scalar_node(|p, mut pos| {
@@ -594,7 +599,14 @@ impl<R: Repr> Loader<'_, R> {
                     k
                 } else {
                     let food = self.food();
-                    let k = self.scalar_flow(level, flow)?;
+                    let k = self.scalar_node(|p, pos| {
+                        // The header of the wrapped string can be on a new line
+                        if let Ok(yaml) = p.string_block(level) {
+                            Ok(Node::new_repr(yaml, pos, ""))
+                        } else {
+                            p.scalar_term_node(level, flow, pos)
+                        }
+                    })?;
                     let key = &food[..food.len() - self.food().len()];
                     if self.sym(b':').is_err() || self.sep().is_err() {
                         // Return key
-- 
2.43.0


From 7cb79e3c8ad585e58be38776989f6de72c81837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 53/55] fix: the splitter must be adjacent to end a number key

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3b47d9e..9579ef6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -404,8 +404,10 @@ impl<R: Repr> Loader<'_, R> {
     /// Match the number key of flow map, the splitter `:` can be adjacent.
     fn number_key(&mut self) -> PResult<R::Rc> {
         self.context(|p| {
+            let food = p.food();
             let yaml = Self::number(p)?;
-            if p.food().first() == Some(&b':') {
+            let key = &food[..food.len() - p.food().len()];
+            if p.food().first() == Some(&b':') && !key.ends_with(b" ") && !key.ends_with(b"\t") {
                 Ok(R::new_rc(yaml))
             } else {
                 p.backward();
-- 
2.43.0


From ff0a905fa4303dbe619e9645c51a87ce7e2c572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:52 +0000
Subject: [PATCH 54/55] fix: items of flow sequences must not be empty

---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9579ef6..40d4670 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -427,6 +427,9 @@ impl<R: Repr> Loader<'_, R> {
                 break;
             }
             self.forward();
+            if self.food().starts_with(b",") {
+                return self.err("flow sequence item");
+            }
             let n = self
                 .flow_item(level)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
-- 
2.43.0


From c7653789bf08310ef372be134a8f7062c28a7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:49 +0000
Subject: [PATCH 55/55] fix: directives must be followed by a document mark

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 40d4670..0521ce0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -170,14 +170,18 @@ impl<R: Repr> Loader<'_, R> {
 
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
+        let mut directive = false;
         loop {
             self.gap(true).unwrap_or_default();
             match self.context(Parser::directive) {
-                Ok(()) => (),
+                Ok(()) => directive = true,
                 Err(PError::Mismatch) => break,
                 Err(e) => return Err(e),
             }
         }
+        if directive && !self.is_doc_mark(b"---") {
+            return self.err("document splitter");
+        }
         self.doc_mark(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
-- 
2.43.0

