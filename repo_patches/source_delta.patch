From fda572924066bffc8dedc2420ec1cc1a5b3c2a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:45 +0000
Subject: [PATCH 01/23] fix: keep preceding text when a tuple's identity is
 hidden

Writing a tuple removes the space that follows its identity. The space was
removed even when the identity was not written, which deleted the last
character of the text before the tuple.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 5ee6dcd31c741ca34b1bd8f9ac2be1dc21959e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:07 +0000
Subject: [PATCH 02/23] fix: never format a map key as verbose

New formatters limit map keys to concise, but a later request could still
make a key verbose. Solving a width limit then panicked, or the key was
written in a form that cannot be parsed.
---
 src/fmt/formatter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..23bbaa0 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -104,12 +104,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
-
+            let line = max_node_repr(&node);
             let id = true;
 
             fmts.push(Fmt { id, line });
@@ -300,7 +295,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let max_line_repr = max_node_repr(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -361,6 +356,16 @@ impl<'a, 'k> Deref for Formatter<'a, 'k> {
     }
 }
 
+/// Highest line representation a node can take considering its position in the tree.
+fn max_node_repr(node: &Node) -> Repr {
+    let line = max_line_repr(&node.value());
+    if node.is_key() {
+        std::cmp::min(line, Repr::Concise) // map keys are always delimited
+    } else {
+        line
+    }
+}
+
 /// Highest line representation a node value can take, ie Primitives are only allowed to be Inline.
 fn max_line_repr(nv: &NodeValue) -> Repr {
     use NodeValue::*;
-- 
2.43.0


From 55f069eb02dd65767c4ead3febdebd2cd12ba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:28 +0000
Subject: [PATCH 03/23] fix: write nameless sequences and maps with delimiters

A sequence or map is written verbosely by repeating its field name. Inside
another sequence, map or tuple there is no field name, yet verbose was still
accepted, and nested containers were then written without their delimiters.
---
 src/fmt/formatter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 23bbaa0..503ae7c 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -358,9 +358,15 @@ impl<'a, 'k> Deref for Formatter<'a, 'k> {
 
 /// Highest line representation a node can take considering its position in the tree.
 fn max_node_repr(node: &Node) -> Repr {
+    use NodeValue::*;
     let line = max_line_repr(&node.value());
-    if node.is_key() {
-        std::cmp::min(line, Repr::Concise) // map keys are always delimited
+    let delimited = match (node.value(), node.parent().map(|x| x.value())) {
+        _ if node.is_key() => true, // map keys are always delimited
+        (Seq(_), p) | (Map(_), p) => !matches!(p, None | Some(Cntr(_))), // no field name to write
+        _ => false,
+    };
+    if delimited {
+        std::cmp::min(line, Repr::Concise)
     } else {
         line
     }
-- 
2.43.0


From 0db1aea8487d7a1c7097caba77e7754b97c9a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:57 +0000
Subject: [PATCH 04/23] fix: indent the entries of a nested verbose map

The entries of a verbose map were always written at column zero. Inside an
indented container they were read back as entries of the outermost one.
---
 src/fmt/maps.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..a59df7b 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,11 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
-- 
2.43.0


From 4083b245cfc6aace3db8bf213b899c2a71f1cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:42 +0000
Subject: [PATCH 05/23] fix: refuse to convert floats outside the integer range

as_u128 and as_i128 document that the conversion fails for numbers outside
the integer's range. Large floats such as 1e300 were converted to the
largest integer instead.
---
 src/ds/num.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..b7f3b04 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -102,6 +102,9 @@ pub enum Number {
     Float(f64),
 }
 
+/// The first float above the range of `i128`, half of the first float above the range of `u128`.
+const TWO_POW_127: f64 = (1u128 << 127) as f64;
+
 /// Converting into a signed or unsigned integer can fail if the original number is outside the
 /// integer's valid range.
 #[derive(Debug, PartialEq)]
@@ -143,7 +146,7 @@ impl Number {
                 if x.is_finite() && x >= &0.0 {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && r < TWO_POW_127 * 2.0 {
                         return Ok(r as u128);
                     }
                 }
@@ -179,7 +182,7 @@ impl Number {
                 if x.is_finite() {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && (-TWO_POW_127..TWO_POW_127).contains(&r) {
                         return Ok(r as i128);
                     }
                 }
-- 
2.43.0


From 067d36550da3ec1562030f739fe63f0c8a8af991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:50 +0000
Subject: [PATCH 06/23] fix: compare floats with integers by value

Negative zero and NaNs with a sign bit compared as less than every unsigned
integer. Floats beyond the integer range compared as equal to the largest
integer.
---
 src/ds/num.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index b7f3b04..6500b4f 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -384,9 +384,9 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= TWO_POW_127 * 2.0 {
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -405,9 +405,9 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < -TWO_POW_127 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= TWO_POW_127 {
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
-- 
2.43.0


From 462a938692533777eba5e0ca050616f71783a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:58 +0000
Subject: [PATCH 07/23] fix: make equality of numbers agree with their order

Equality between an integer and a float gave different answers depending on
which side the float was on, and disagreed with the ordering.
---
 src/ds/num.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 6500b4f..ecc55ed 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -285,15 +285,8 @@ impl PartialEq for Number {
             (Int(lhs), Int(rhs)) => lhs.eq(rhs),
             (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
 
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
+            // Different types
+            _ => self.cmp(other) == Ordering::Equal,
         }
     }
 }
-- 
2.43.0


From 800368a826ec47e8ba895454cb70993914c6df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:06 +0000
Subject: [PATCH 08/23] fix: hash equal numbers to the same value

All zeroes are equal and all NaNs are equal, but their hashes depended on
the sign bit and on the NaN payload.
---
 src/ds/num.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index ecc55ed..0870a3a 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -256,7 +256,16 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        let x = self.as_f64();
+        // all zeroes are equal, as are all NaNs
+        let x = if x == 0.0 {
+            0.0
+        } else if x.is_nan() {
+            std::f64::NAN
+        } else {
+            x
+        };
+        x.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From c067edad44d9a76e247530ed1cc7f1a22440097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:14 +0000
Subject: [PATCH 09/23] fix: write large floats so they parse back

Large floats were written as a long run of digits. Reading that back gave an
integer with a different value, or an error when it did not fit.
---
 src/ds/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 0870a3a..720fbff 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -218,6 +218,8 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // large floats look like integers, which would parse as a different number, or not at all
+            Float(x) if x.is_finite() && x.abs() >= (1u64 << 53) as f64 => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
-- 
2.43.0


From 0030d367441f5fe97b4747d4694f1664453ec2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:06 +0000
Subject: [PATCH 10/23] fix: only delimit strings with characters the parser
 understands

After str the characters '=', '_' and '(' start a field assignment, continue
a name or open a tuple, so strings delimited by them did not parse back. A
string containing every candidate delimiter caused a panic.
---
 src/fmt/prims.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..f9b3f8a 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -39,8 +39,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +53,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +63,14 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // any character can be a delimiter, so use the first one which does not appear
+        let delim = ('\u{a1}'..)
+            .find(|c| !val.contains(*c))
+            .expect("exhausted delimiter options for formatting a string");
+        write!(buf, "str{0}{1}{0}", delim, val)
     }
     .ok();
 }
@@ -96,7 +94,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +101,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +125,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +132,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From f7f1112b2b7557ea0a6368a0a3c721bea899d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:14 +0000
Subject: [PATCH 11/23] fix: do not mistake an equals sign inside a string for
 a field

A string delimited with str# and the like that contains an equals sign was
taken as a field assignment, alone or after other items of a tuple or list.
---
 src/parse/heuristics.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..780012f 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -108,7 +108,13 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],='\"\r\n";
+    // str followed by a delimiter is a string, which might contain anything
+    if let Some(delim) = i.strip_prefix("str").and_then(|x| x.chars().next()) {
+        if !(delim.is_ascii_alphanumeric() || "-_= \t".contains(delim)) {
+            return false;
+        }
+    }
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
-- 
2.43.0


From c9ba150b305998e530f3b0426db669d81282c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:57 +0000
Subject: [PATCH 12/23] fix: tell identities apart from booleans and numbers

An identity that starts with true or false was read as a boolean. A word such
as inf on the line before a delimiter was taken as the identity of the next
item of a multi-line list.
---
 src/parse/heuristics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 780012f..4f80331 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,7 +22,10 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
+    let word = orig
+        .split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_'))
+        .next();
+    if let Some("true") | Some("false") = word {
         return Ok((orig, Nonprim::None));
     }
 
@@ -38,7 +41,7 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?;
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From 102e45f5f6a2f12ca544390d7abd1f59815625a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:04 +0000
Subject: [PATCH 13/23] fix: read multi-line keys of verbose maps

Map keys can be written over multiple lines, but the key of a verbose map
entry was only read if it was on a single line.
---
 src/parse/cntr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..b3cbb2b 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map as the usual delimited kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd-concise:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From c99a1186f9dec50087d3a0836105df71ef9609b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:11 +0000
Subject: [PATCH 14/23] fix: do not parse a map key twice

Each key that failed to parse was parsed a second time as inline. Anything
inline is also read by the concise parser, so this could not succeed, and it
doubled the work for each level of nesting.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..7fa3ede 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise,
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From e9f4c84eeea7d70604c5d7a43ebae281bf74c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:38 +0000
Subject: [PATCH 15/23] fix: read sequences that look like field headers

At the start of a text, or as an entry of a verbose sequence, items such as
[true], [inf] and [[1], [2]] were taken as the header of a verbose field and
failed to parse.
---
 src/parse/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..d53762a 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -96,7 +96,14 @@ fn kserd_nested<'a, E: CxErr<'a>>(
         let (i, verbose) = pattern_match_verbose(i)?;
         if verbose {
             // verbose can only be a Container type!
-            cntr::verbose(indents)(i)
+            let r = cntr::verbose(indents)(i);
+            // a delimited sequence can look like a field header, it is one if there are no fields
+            let fields = matches!(&r, Ok((rem, _)) if rem.len() < i.len());
+            if !fields && inline_whitespace::<E>(i)?.0.starts_with('[') {
+                ignore_inline_whitespace(kserd_concise::<E>)(i).or(r)
+            } else {
+                r
+            }
         } else {
             ignore_inline_whitespace(kserd_concise)(i)
         }
-- 
2.43.0


From 1a038e3cac06a0fe08919c989a9727b78c12f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:27 +0000
Subject: [PATCH 16/23] fix: recognise a text that starts with a named nested
 container

The header of a nested container can include its identity, [name:id]. A text
starting with such a header was not recognised as verbose and failed to
parse.
---
 src/parse/heuristics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 4f80331..f555058 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -76,13 +76,19 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
     // generally a Verbose format can be recognised by:
     // - An identity (:id)
     // - A direct mapping (var_name = xxx)
-    // - A nested mapping ([var_name])
+    // - A nested mapping ([var_name] or [var_name:id])
     // - A sequence or map entry ([[var_name]])
     let encased = |s, e| {
         preceded::<_, _, _, (), _, _>(
             tag(s),
             terminated(
-                ignore_inline_whitespace(valid_name),
+                terminated(
+                    ignore_inline_whitespace(valid_name),
+                    opt(preceded(
+                        ignore_inline_whitespace(char(':')),
+                        ignore_inline_whitespace(valid_name),
+                    )),
+                ),
                 ignore_inline_whitespace(tag(e)),
             ),
         )(i)
-- 
2.43.0


From c1b656913e0b6a22c6cbb526efc59fb72faabbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:51 +0000
Subject: [PATCH 17/23] fix: write the identities of verbose sequences and maps

The entries of a verbose sequence or map are written under [[name]] headers.
The header never included the identity, even when the configuration asks for
it. The parser already understands [[name:id]].
---
 src/fmt/maps.rs | 6 ++++++
 src/fmt/seqs.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index a59df7b..23d6139 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -96,6 +96,12 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                if fmt.id {
+                    if let Some(id) = id {
+                        buf.push(':');
+                        buf.push_str(id);
+                    }
+                }
                 buf.push_str("]]\n");
                 write_indent(&mut buf, col);
 
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..58cb8ff 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -63,6 +63,12 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                if fmt.id {
+                    if let Some(id) = id {
+                        buf.push(':');
+                        buf.push_str(id);
+                    }
+                }
                 buf.push_str("]]\n");
 
                 // write value
-- 
2.43.0


From 7836decbd2aaf0c417151986214ba295749fe5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:08 +0000
Subject: [PATCH 18/23] fix: parse numbers with underscores beside leading
 zeroes

Number::from_str panicked with an arithmetic overflow on texts such as
"0_0" or "-_". The separators are left out before the digits are handed
to the integer parser.
---
 src/ds/num.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 720fbff..6f7e25e 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -241,15 +241,17 @@ impl FromStr for Number {
             .iter()
             .skip(if neg { 1 } else { 0 })
             .all(|b| b.is_ascii_digit() || *b == b'_');
+        // the integer parser panics on separators beside leading zeroes, so leave them out
+        let digits: Vec<u8> = bytes.iter().copied().filter(|b| *b != b'_').collect();
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
         } else if neg {
-            parse::<i128, FMT>(bytes, options)
+            parse::<i128, FMT>(&digits, options)
                 .map(Int)
                 .map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(bytes, options)
+            parse::<u128, FMT>(&digits, options)
                 .map(Uint)
                 .map_err(|_| IntoNumberErr)
         }
-- 
2.43.0


From 68c64bd78ce7c9bbb7b25e578be40a2888e07dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 19/23] fix: refuse integers that do not fit 128 bits instead
 of wrapping

Reading an integer above the range, such as a 4 repeated 39 times, gave a
wrapped value because the integer parser in use misses some overflows.
The parser of the standard library reports all of them.
---
 src/ds/num.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 6f7e25e..7bfaea7 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -228,32 +228,24 @@ impl fmt::Display for Number {
 impl FromStr for Number {
     type Err = IntoNumberErr;
     fn from_str(s: &str) -> Result<Self, IntoNumberErr> {
-        use ::lexical_core::parse_with_options as parse;
         if s.is_empty() {
             return Err(IntoNumberErr);
         }
 
-        const FMT: u128 = ::lexical_core::format::OCAML_STRING;
-        let options = &::lexical_core::ParseIntegerOptions::new();
         let bytes = s.as_bytes();
         let neg = bytes[0] == b'-';
         let valid_int = bytes
             .iter()
             .skip(if neg { 1 } else { 0 })
             .all(|b| b.is_ascii_digit() || *b == b'_');
-        // the integer parser panics on separators beside leading zeroes, so leave them out
-        let digits: Vec<u8> = bytes.iter().copied().filter(|b| *b != b'_').collect();
+        let digits: String = s.chars().filter(|c| *c != '_').collect();
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
         } else if neg {
-            parse::<i128, FMT>(&digits, options)
-                .map(Int)
-                .map_err(|_| IntoNumberErr)
+            digits.parse().map(Int).map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(&digits, options)
-                .map(Uint)
-                .map_err(|_| IntoNumberErr)
+            digits.parse().map(Uint).map_err(|_| IntoNumberErr)
         }
     }
 }
-- 
2.43.0


From db6e066c66e6bf2f843a584886f863d5e6072dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:44 +0000
Subject: [PATCH 20/23] fix: order values in agreement with their equality

An empty tuple and an empty container are equal, but the derived ordering
placed one before the other. Maps could hold both as separate keys and
lookups with an equal key failed.
---
 src/ds/val.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..a5688bb 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,49 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        // kinds are ordered as they are declared
+        fn rank(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                // an empty container equals an empty tuple, so it has to order as one
+                Cntr(v) if v.is_empty() => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (a, b) => rank(a).cmp(&rank(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From 9374f1b5590571890052bf2c96f565a3aa14f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:08 +0000
Subject: [PATCH 21/23] fix: convert every f32 to a number that converts back

The shortest decimal of 7.038531e-26 lies next to the middle of two f32
values. Read as an f64 and converted back it became the other one.
---
 src/ds/num.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 7bfaea7..dd48d52 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -506,7 +506,14 @@ impl From<f64> for Number {
 }
 
 fn f32_to_f64(f: f32) -> f64 {
-    f.to_string().parse::<f64>().expect("shouldn't fail")
+    let x = f.to_string().parse::<f64>().expect("shouldn't fail");
+    // the shortest decimal of `f` can lie so close to the middle of two `f32`s that the `f64`
+    // nearest to it rounds to the other one
+    if x as f32 == f {
+        x
+    } else {
+        f64::from(f)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a6bf205795b3bc90a337efb028b117d8989ae9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:15 +0000
Subject: [PATCH 22/23] fix: refuse to decode more elements than the type has

A tuple of three decoded as a pair, silently dropping the last element.
---
 src/encode/decoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..70428c4 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -169,14 +169,14 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
             Value::Tuple(mut seq) => match (seq.len(), id.as_ref().map(|x| x.as_str())) {
                 (0, Some("None")) => visitor.visit_none(),
                 (1, Some("Some")) => visitor.visit_some(Decoder(seq.pop().expect("only one item"))),
-                (1, None) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                (1, None) => visit_all(seq, visitor),
                 (1, _) => visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item"))),
-                _ => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                _ => visit_all(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
-            Value::Seq(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            Value::Seq(seq) => visit_all(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
         }
     }
@@ -347,6 +347,13 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
 
 ////// FUNCTIONS ///////////////////////////////////////////////////////////////
 
+/// Visit a sequence of values, it is an error if the visitor leaves some unread.
+fn visit_all<'de, V: Visitor<'de>>(seq: Vec<Kserd<'de>>, visitor: V) -> Res<V::Value> {
+    let mut de = SeqDeserializer::new(seq.into_iter());
+    let value = visitor.visit_seq(&mut de)?;
+    de.end().map(|_| value)
+}
+
 fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
     match val {
         Value::Unit => Unexpected::Unit,
-- 
2.43.0


From 7507457320b358c42772a2e1ca977fbe22c35ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:23 +0000
Subject: [PATCH 23/23] fix: decode empty structs and tuples that were written
 as text

An empty container or tuple is written as () and read back as a unit or an
empty tuple, which the decoder refused for types without members.
---
 src/encode/decoder.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 70428c4..3bfaa4e 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,8 +183,8 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        bytes byte_buf option unit newtype_struct seq
+        map identifier ignored_any
     }
 
     de_integer! { unsigned =>
@@ -236,11 +236,41 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         visitor: V,
     ) -> Res<V::Value> {
         match self.0.val {
+            Value::Unit => visitor.visit_unit(),
             Value::Tuple(seq) if seq.is_empty() => visitor.visit_unit(),
             x => Err(de::Error::invalid_type(unexp_err(&x), &"unit struct")),
         }
     }
 
+    // Without an identity an empty tuple or container is written as `()`, which reads as a unit.
+    fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Res<V::Value> {
+        match self.0.val {
+            Value::Unit => visit_all(Vec::new(), visitor),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        len: usize,
+        visitor: V,
+    ) -> Res<V::Value> {
+        self.deserialize_tuple(len, visitor)
+    }
+
+    fn deserialize_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            Value::Unit => visit_all(Vec::new(), visitor),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -337,6 +367,8 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            // an empty container is written as an empty tuple
+            Value::Tuple(seq) if seq.is_empty() => visit_all(seq, visitor),
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
-- 
2.43.0

