From 2b67b8864ec8ef4d01b58c489c2cc0d35b7b3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 01/23] fix: visit the collection expression of template for
 directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0


From 69cf9ee5509baa33365ccb76da2928016d851159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 02/23] fix: take expand_final into account when comparing
 function arguments

---
 crates/hcl-edit/src/expr/func_call.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/func_call.rs b/crates/hcl-edit/src/expr/func_call.rs
index c4905df..fe7f7e6 100644
--- a/crates/hcl-edit/src/expr/func_call.rs
+++ b/crates/hcl-edit/src/expr/func_call.rs
@@ -254,6 +254,7 @@ impl FuncArgs {
 impl PartialEq for FuncArgs {
     fn eq(&self, other: &Self) -> bool {
         self.args == other.args
+            && self.expand_final == other.expand_final
             && self.trailing_comma == other.trailing_comma
             && self.trailing == other.trailing
     }
-- 
2.43.0


From 4c0eeb971c01b4a0841bf925255f1dde98995984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 03/23] fix: resolve operator decor of binary operations and
 traversals after parsing

---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 crates/hcl-edit/src/expr/traversal.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..517bb29 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,7 +35,8 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
-            operator.despan(input);
+            operator.decor_mut().despan(input);
+            operator.value_mut().despan(input);
         }
     }
 }
-- 
2.43.0


From a65708d4cd1888526b05581fb6f432612416e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 04/23] fix: restore the escaping mode after nested string
 templates and heredocs

---
 crates/hcl-edit/src/encode/mod.rs      | 18 ++++++++++++++++--
 crates/hcl-edit/src/encode/template.rs |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..5b9b47f 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -33,9 +33,23 @@ impl<'a> EncodeState<'a> {
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        self.with_escape(true, f)
+    }
+
+    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        self.with_escape(false, f)
+    }
+
+    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        let previous = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = previous;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..5970ed6 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 11b905646359f4c42ba828bfbb834200d9d38981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 05/23] fix: strip the indent of flush heredocs only down to
 the least indented line

---
 crates/hcl-edit/src/template/mod.rs | 2 +-
 crates/hcl-edit/src/util.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..26694b5 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -414,7 +414,7 @@ impl Template {
             } else if !skip_first_line {
                 // Directive or interpolation at line start always mean that no indent can be
                 // stripped.
-                return None;
+                return Some(0);
             }
         }
 
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..8ce5c52 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -42,7 +42,7 @@ pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize>
         if line_leading_ws == 0 {
             // Fast path: no dedent needed if we encounter a non-empty line which starts with a
             // non-whitespace character.
-            return None;
+            return Some(0);
         }
 
         leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-- 
2.43.0


From f49d7e2a5dd6d09580c684ab06a2fafa8a9d973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 06/23] fix: keep the strip mode when converting heredocs to
 their editable representation

---
 crates/hcl-rs/src/expr/edit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..c7e64a0 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -222,7 +222,16 @@ impl From<template::HeredocTemplate> for Heredoc {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if value.strip == HeredocStripMode::Indent {
+            heredoc.dedent();
+        }
+
+        heredoc
     }
 }
 
-- 
2.43.0


From 4012dbeb21d2d2841deafc7fe4705af18c27612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 07/23] fix: escape the literal parts of templates when
 formatting them as quoted strings

---
 crates/hcl-rs/src/format/impls.rs |  4 ++--
 crates/hcl-rs/src/format/mod.rs   | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..90a3efe 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -149,7 +149,7 @@ impl Format for Value {
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
                 if is_templated(string) {
-                    fmt.write_quoted_string(string)
+                    fmt.write_quoted_template(string)
                 } else {
                     fmt.write_quoted_string_escaped(string)
                 }
@@ -211,7 +211,7 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => fmt.write_quoted_template(string),
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 81c0451..58b11fd 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -38,6 +38,8 @@ mod escape;
 mod impls;
 
 use self::escape::{CharEscape, ESCAPE};
+use crate::edit::expr::Expression;
+use crate::edit::template::{StringTemplate, Template};
 use crate::Result;
 use hcl_primitives::template::escape_markers;
 use std::io;
@@ -428,11 +430,15 @@ where
         self.write_bytes(s.as_bytes())
     }
 
-    /// Writes a quoted string to the writer.
-    fn write_quoted_string(&mut self, s: &str) -> Result<()> {
-        self.write_bytes(b"\"")?;
-        self.write_string_fragment(s)?;
-        self.write_bytes(b"\"")
+    /// Writes a template to the writer as a quoted string. The literal parts of the template are
+    /// escaped. If `s` is not a valid template, it is written as a plain string instead.
+    fn write_quoted_template(&mut self, s: &str) -> Result<()> {
+        if let Ok(template) = s.parse::<Template>() {
+            let expr = Expression::from(StringTemplate::from(template));
+            self.write_string_fragment(&expr.to_string())
+        } else {
+            self.write_quoted_string_escaped(s)
+        }
     }
 
     /// Writes a quoted string to the writer after escaping it.
-- 
2.43.0


From e3fb06fc5e1bc81d59d8dc69b8d534abb942c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 08/23] fix: process escape sequences in directives nested in
 quoted templates

---
 crates/hcl-edit/src/parser/template.rs | 47 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..2af7a09 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -21,8 +21,17 @@ use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
 
+type TemplateParser = for<'i> fn(&mut Input<'i>) -> ModalResult<Template>;
+
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
+    delimited('"', quoted_template, '"')
+        .output_into()
+        .parse_next(input)
+}
+
+// Parses the template inside of a quoted string.
+fn quoted_template(input: &mut Input) -> ModalResult<Template> {
+    elements(build_string(quoted_string_fragment), quoted_template)
         .output_into()
         .parse_next(input)
 }
@@ -30,7 +39,7 @@ pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate>
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, template).output_into().parse_next(input)
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,7 +61,7 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
+        opt((elements(literal, template), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -84,7 +93,11 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+// The templates nested inside of directives are parsed using the `nested` parser.
+fn elements<'a, P>(
+    literal: P,
+    nested: TemplateParser,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
 {
@@ -93,7 +106,7 @@ where
         spanned(alt((
             literal.map(|s| Element::Literal(Spanned::new(s.into()))),
             interpolation.map(Element::Interpolation),
-            directive.map(|d| Element::Directive(Box::new(d))),
+            directive(nested).map(|d| Element::Directive(Box::new(d))),
         ))),
     )
 }
@@ -108,21 +121,23 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
         .parse_next(input)
 }
 
-fn directive(input: &mut Input) -> ModalResult<Directive> {
-    alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
-    ))
-    .parse_next(input)
+fn directive<'a>(nested: TemplateParser) -> impl ModalParser<Input<'a>, Directive, ContextError> {
+    move |input: &mut Input<'a>| {
+        alt((
+            |input: &mut Input<'a>| if_directive(input, nested).map(Directive::If),
+            |input: &mut Input<'a>| for_directive(input, nested).map(Directive::For),
+        ))
+        .parse_next(input)
+    }
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive(input: &mut Input, nested: TemplateParser) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
             (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
         ),
-        spanned(template),
+        spanned(nested),
     )
         .map(|(((preamble, cond_expr), strip), template)| {
             let mut expr = IfTemplateExpr::new(cond_expr, template);
@@ -133,7 +148,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
 
     let else_expr = (
         control("%{", separated_pair(raw_string(ws), "else", raw_string(ws))),
-        spanned(template),
+        spanned(nested),
     )
         .map(|(((preamble, trailing), strip), template)| {
             let mut expr = ElseTemplateExpr::new(template);
@@ -160,7 +175,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive(input: &mut Input, nested: TemplateParser) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
@@ -171,7 +186,7 @@ fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
                 preceded(cut_tag("in"), decorated(ws, expr, ws)),
             ),
         ),
-        spanned(template),
+        spanned(nested),
     )
         .map(
             |(((preamble, key_var, value_var, collection_expr), strip), template)| {
-- 
2.43.0


From 90774b126dd400c7f2f9d965310d79e401d04a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 09/23] fix: separate the condition of template if directives
 from the keyword

---
 crates/hcl-edit/src/encode/template.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5970ed6..7d77c48 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,6 +1,5 @@
 use super::{
     encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
-    TRAILING_SPACE_DECOR,
 };
 use crate::template::{
     Directive, Element, ElseTemplateExpr, EndforTemplateExpr, EndifTemplateExpr, ForDirective,
@@ -114,7 +113,7 @@ impl Encode for IfTemplateExpr {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
             buf.write_str("if")?;
-            self.cond_expr.encode_decorated(buf, TRAILING_SPACE_DECOR)
+            self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         self.template.encode(buf)
     }
-- 
2.43.0


From 8c8dbb7c59b06a86f42d4c0d112151890e366514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 10/23] fix: keep numbers finite and exact, turn failing
 arithmetic into evaluation errors

---
 crates/hcl-primitives/src/number.rs | 153 ++++++++++++++--------------
 crates/hcl-rs/src/eval/impls.rs     |  17 +++-
 2 files changed, 91 insertions(+), 79 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..2560d00 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -50,14 +50,63 @@ impl N {
         #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
         let no_fraction = value - (value as i64 as f64) == 0.0;
 
-        if no_fraction {
-            #[allow(clippy::cast_possible_truncation)]
-            N::from(value as i64)
+        // The upper bounds are exclusive because `u64::MAX` and `i64::MAX` are not representable
+        // as `f64`. Integers outside of these bounds remain floats.
+        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+        if no_fraction && (0.0..18_446_744_073_709_551_616.0).contains(&value) {
+            N::PosInt(value as u64)
+        } else if no_fraction && (-9_223_372_036_854_775_808.0..0.0).contains(&value) {
+            N::NegInt(value as i64)
         } else {
             N::Float(value)
         }
     }
 
+    fn from_f64(value: f64) -> Option<N> {
+        value.is_finite().then(|| N::from_finite_f64(value))
+    }
+
+    fn checked_add(self, rhs: N) -> Option<N> {
+        let result = match coerce(self, rhs) {
+            CoerceResult::PosInt(a, b) => a.checked_add(b).map(N::PosInt),
+            CoerceResult::NegInt(a, b) => a.checked_add(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
+        };
+        result.or_else(|| N::from_f64(self.to_f64() + rhs.to_f64()))
+    }
+
+    fn checked_sub(self, rhs: N) -> Option<N> {
+        let result = match coerce(self, rhs) {
+            CoerceResult::PosInt(a, b) if b > a => Some(-N::PosInt(b - a)),
+            CoerceResult::PosInt(a, b) => Some(N::PosInt(a - b)),
+            CoerceResult::NegInt(a, b) => a.checked_sub(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
+        };
+        result.or_else(|| N::from_f64(self.to_f64() - rhs.to_f64()))
+    }
+
+    fn checked_mul(self, rhs: N) -> Option<N> {
+        let result = match coerce(self, rhs) {
+            CoerceResult::PosInt(a, b) => a.checked_mul(b).map(N::PosInt),
+            CoerceResult::NegInt(a, b) => a.checked_mul(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
+        };
+        result.or_else(|| N::from_f64(self.to_f64() * rhs.to_f64()))
+    }
+
+    fn checked_div(self, rhs: N) -> Option<N> {
+        N::from_f64(self.to_f64() / rhs.to_f64())
+    }
+
+    fn checked_rem(self, rhs: N) -> Option<N> {
+        let result = match coerce(self, rhs) {
+            CoerceResult::PosInt(a, b) => a.checked_rem(b).map(N::PosInt),
+            CoerceResult::NegInt(a, b) => a.checked_rem(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
+        };
+        result.or_else(|| N::from_f64(self.to_f64() % rhs.to_f64()))
+    }
+
     fn as_i64(&self) -> Option<i64> {
         match *self {
             N::PosInt(n) => i64::try_from(n).ok(),
@@ -166,77 +215,17 @@ impl Neg for N {
 
     fn neg(self) -> Self::Output {
         match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
+            N::PosInt(value) => match 0i64.checked_sub_unsigned(value) {
+                Some(value) => N::from(value),
+                #[allow(clippy::cast_precision_loss)]
+                None => N::Float(-(value as f64)),
+            },
+            N::NegInt(value) => N::PosInt(value.unsigned_abs()),
             N::Float(value) => N::Float(-value),
         }
     }
 }
 
-impl Add for N {
-    type Output = N;
-
-    fn add(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
-        }
-    }
-}
-
-impl Sub for N {
-    type Output = N;
-
-    fn sub(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
-            }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
-        }
-    }
-}
-
-impl Mul for N {
-    type Output = N;
-
-    fn mul(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
-        }
-    }
-}
-
-impl Div for N {
-    type Output = N;
-
-    fn div(self, rhs: Self) -> Self::Output {
-        N::from_finite_f64(self.to_f64() / rhs.to_f64())
-    }
-}
-
-impl Rem for N {
-    type Output = N;
-
-    fn rem(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
-        }
-    }
-}
-
 impl Number {
     /// Creates a new `Number` from a `f64`. Returns `None` if the float is infinite or NaN.
     ///
@@ -354,24 +343,40 @@ macro_rules! impl_from_signed {
 }
 
 macro_rules! impl_binary_ops {
-    ($($op:ty => $method:ident),*) => {
+    ($($op:ty => $method:ident, $checked:ident),*) => {
         $(
+            // Panics if the result is not a finite number, e.g. when dividing by zero.
             impl $op for Number {
                 type Output = Number;
 
                 fn $method(self, rhs: Self) -> Self::Output {
-                    Number {
-                        n: self.n.$method(rhs.n)
-                    }
+                    self.$checked(rhs).expect("result is not a finite number")
                 }
             }
         )*
+
+        impl Number {
+            $(
+                /// Checked variant of the arithmetic operator. Returns `None` if the result is not
+                /// a finite number.
+                #[must_use]
+                pub fn $checked(self, rhs: Self) -> Option<Number> {
+                    self.n.$checked(rhs.n).map(|n| Number { n })
+                }
+            )*
+        }
     };
 }
 
 impl_from_unsigned!(u8, u16, u32, u64, usize);
 impl_from_signed!(i8, i16, i32, i64, isize);
-impl_binary_ops!(Add => add, Sub => sub, Mul => mul, Div => div, Rem => rem);
+impl_binary_ops!(
+    Add => add, checked_add,
+    Sub => sub, checked_sub,
+    Mul => mul, checked_mul,
+    Div => div, checked_div,
+    Rem => rem, checked_rem
+);
 
 impl Neg for Number {
     type Output = Number;
diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..de06c50 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -409,6 +409,13 @@ impl Evaluate for BinaryOp {
         let lhs = self.lhs_expr.evaluate(ctx)?;
         let rhs = self.rhs_expr.evaluate(ctx)?;
 
+        // It's an error if the result is not a finite number, e.g. when dividing by zero.
+        let finite = |lhs, rhs, result: Option<crate::Number>| {
+            result.map(Number).ok_or_else(|| {
+                ctx.error(ErrorKind::BinaryOp(Number(lhs), self.operator, Number(rhs)))
+            })
+        };
+
         let value = match (lhs, self.operator, rhs) {
             (lhs, Eq, rhs) => Bool(lhs == rhs),
             (lhs, NotEq, rhs) => Bool(lhs != rhs),
@@ -418,11 +425,11 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
-            (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
-            (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
-            (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
-            (Number(lhs), Div, Number(rhs)) => Number(lhs / rhs),
-            (Number(lhs), Mod, Number(rhs)) => Number(lhs % rhs),
+            (Number(lhs), Plus, Number(rhs)) => finite(lhs, rhs, lhs.checked_add(rhs))?,
+            (Number(lhs), Minus, Number(rhs)) => finite(lhs, rhs, lhs.checked_sub(rhs))?,
+            (Number(lhs), Mul, Number(rhs)) => finite(lhs, rhs, lhs.checked_mul(rhs))?,
+            (Number(lhs), Div, Number(rhs)) => finite(lhs, rhs, lhs.checked_div(rhs))?,
+            (Number(lhs), Mod, Number(rhs)) => finite(lhs, rhs, lhs.checked_rem(rhs))?,
             (lhs, operator, rhs) => return Err(ctx.error(ErrorKind::BinaryOp(lhs, operator, rhs))),
         };
 
-- 
2.43.0


From 26758ece869904a938825c8870cd2b538b8282ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 11/23] fix: escape and unescape consecutive template markers
 consistently

---
 crates/hcl-primitives/src/template.rs | 39 ++++++---------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..1ad5f24 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,25 +109,14 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        if (ch == '$' || ch == '%') && chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -169,23 +158,11 @@ fn unescape_markers_owned(literal: &str, idx: usize) -> String {
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
+        let rest = chars.as_str();
 
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+        if (ch == '$' && rest.starts_with("${")) || (ch == '%' && rest.starts_with("%{")) {
+            // Unescape by not pushing the second `ch` to the output buffer.
+            chars.next();
         }
     }
     buf
-- 
2.43.0


From ffc7289375ccfab8ff74df18f200d90bddc403ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 12/23] fix: do not allow newlines after arrays, for objects
 and function arguments

---
 crates/hcl-edit/src/parser/expr.rs  | 42 +++++++++++++++++++----------
 crates/hcl-edit/src/parser/state.rs |  5 ++--
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..490e62e 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -43,10 +43,25 @@ pub(super) fn expr(input: &mut Input) -> ModalResult<Expression> {
 
 pub(super) fn multiline_expr(input: &mut Input) -> ModalResult<Expression> {
     let mut state = ExprParseState::default();
-    state.allow_newlines();
+    state.set_newlines_allowed(true);
     parse_expr(RefCell::new(state), input)
 }
 
+// Allows newlines while running `parser`, restores the previous state afterwards.
+fn with_newlines<'i, P, O>(
+    state: &RefCell<ExprParseState>,
+    mut parser: P,
+    input: &mut Input<'i>,
+) -> ModalResult<O>
+where
+    P: ModalParser<Input<'i>, O, ContextError>,
+{
+    let previous = state.borrow_mut().set_newlines_allowed(true);
+    let result = parser.parse_next(input);
+    state.borrow_mut().set_newlines_allowed(previous);
+    result
+}
+
 fn expr_with_state<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, Expression, ContextError> + '_ {
@@ -380,13 +395,13 @@ fn array<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
-        delimited(
+        let array = delimited(
             '[',
             for_expr_or_items(for_list_expr(state), array_items(state)),
             cut_char(']'),
-        )
-        .parse_next(input)
+        );
+
+        with_newlines(state, array, input)
     }
 }
 
@@ -452,8 +467,7 @@ fn for_object_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
-        (
+        let for_expr = (
             for_intro,
             separated_pair(
                 decorated(ws, expr, ws),
@@ -479,8 +493,9 @@ fn for_object_expr<'i>(
                 state
                     .borrow_mut()
                     .on_expr_term(Expression::ForExpr(Box::new(expr)));
-            })
-            .parse_next(input)
+            });
+
+        with_newlines(state, for_expr, input)
     }
 }
 
@@ -801,8 +816,6 @@ fn func_args<'i>(
             Ellipsis,
         }
 
-        state.borrow_mut().allow_newlines();
-
         let args = separated(
             1..,
             decorated(
@@ -819,7 +832,7 @@ fn func_args<'i>(
             _ => fail,
         };
 
-        delimited(
+        let args = delimited(
             cut_char('('),
             (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
                 let mut args = match args {
@@ -843,7 +856,8 @@ fn func_args<'i>(
             cut_char(')').context(StrContext::Expected(StrContextValue::Description(
                 "expression",
             ))),
-        )
-        .parse_next(input)
+        );
+
+        with_newlines(state, args, input)
     }
 }
diff --git a/crates/hcl-edit/src/parser/state.rs b/crates/hcl-edit/src/parser/state.rs
index ddc3a69..98aec09 100644
--- a/crates/hcl-edit/src/parser/state.rs
+++ b/crates/hcl-edit/src/parser/state.rs
@@ -139,8 +139,9 @@ impl ExprParseState {
         self.current = Some(parse_binary_op(tokens));
     }
 
-    pub(super) fn allow_newlines(&mut self) {
-        self.allow_newlines = true;
+    /// Sets whether newlines are allowed and returns the previous value.
+    pub(super) fn set_newlines_allowed(&mut self, yes: bool) -> bool {
+        std::mem::replace(&mut self.allow_newlines, yes)
     }
 
     pub(super) fn newlines_allowed(&self) -> bool {
-- 
2.43.0


From 60ff7fb7344969ea9950b1e422cbd1f4ec5ccefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 13/23] fix: do not assume that a custom indent is valid UTF-8

---
 crates/hcl-rs/src/format/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 58b11fd..9d874aa 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -40,7 +40,7 @@ mod impls;
 use self::escape::{CharEscape, ESCAPE};
 use crate::edit::expr::Expression;
 use crate::edit::template::{StringTemplate, Template};
-use crate::Result;
+use crate::{Error, Result};
 use hcl_primitives::template::escape_markers;
 use std::io;
 
@@ -86,8 +86,8 @@ pub trait Format: private::Sealed {
         W: io::Write + AsMut<Vec<u8>>,
     {
         let bytes = self.format_vec(fmt)?;
-        // SAFETY: The `Formatter` never emits invalid UTF-8.
-        Ok(unsafe { String::from_utf8_unchecked(bytes) })
+        // The `Formatter` itself never emits invalid UTF-8, but the configured indent might.
+        String::from_utf8(bytes).map_err(|err| Error::from(err.utf8_error()))
     }
 }
 
-- 
2.43.0


From fb1ae3a502fc5e65e25f8a9e4906cbc73e1a214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 14/23] fix: report errors while flushing the JSON output

---
 crates/hcl2json/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 8b35cab..f6cb012 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -176,13 +176,15 @@ fn read_hcl<R: Read>(reader: R, args: &Args) -> Result<Value> {
 }
 
 #[inline]
-fn write_json<W: Write>(writer: W, value: &Value, args: &Args) -> Result<()> {
+fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()> {
     if args.pretty {
-        serde_json::to_writer_pretty(writer, value)?;
+        serde_json::to_writer_pretty(&mut writer, value)?;
     } else {
-        serde_json::to_writer(writer, value)?;
+        serde_json::to_writer(&mut writer, value)?;
     }
 
+    // Dropping a buffered writer ignores errors, so it needs to be flushed explicitly.
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 06f3cbefe53fc42dfd103eddf697faed1d9e17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/23] fix: do not evaluate templates of for directives
 outside of the loop scope

---
 crates/hcl-rs/src/eval/impls.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index de06c50..9f0e3fa 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -270,9 +270,11 @@ impl Evaluate for Template {
                             None => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    // The nested template cannot be evaluated in place because it may depend on
+                    // the loop variables.
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
+                    }
                 },
             })
     }
-- 
2.43.0


From 0c0086bef014239d6f2ca207599cf51b29b0ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 16/23] fix: keep the trivia after the grouping mode of for
 expressions

The whitespace and comments between `...` and the closing brace were
stored as suffix of the for expression, which is printed after the brace
or replaced by the parser of the enclosing construct.
---
 crates/hcl-edit/src/encode/expr.rs   |  2 ++
 crates/hcl-edit/src/expr/for_expr.rs | 17 ++++++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..eac0ff5 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -136,6 +136,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char('}')
         } else {
             // list expr
@@ -145,6 +146,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char(']')
         }
     }
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..a5c9cd9 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,7 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,13 +37,26 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
     }
 
+    /// Return a reference to raw trailing decor before the closing delimiter of the `for`
+    /// expression.
+    pub fn trailing(&self) -> &RawString {
+        &self.trailing
+    }
+
+    /// Set the raw trailing decor before the closing delimiter of the `for` expression.
+    pub fn set_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.trailing = trailing.into();
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.trailing.despan(input);
         self.intro.despan(input);
 
         if let Some(key_expr) = &mut self.key_expr {
@@ -64,6 +78,7 @@ impl PartialEq for ForExpr {
             && self.value_expr == other.value_expr
             && self.grouping == other.grouping
             && self.cond == other.cond
+            && self.trailing == other.trailing
     }
 }
 
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 490e62e..c0b47c5 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -486,7 +486,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From f687f0b3e325338098e641535e0419c792471852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 17/23] fix: keep all operands of chained comparison operations

The comparison operators were declared as not associative, which made the
operator precedence parser stop in front of the second one: in
`a == b == c` the `== c` was dropped without an error. As in the HCL
specification all binary operators are left-associative now.
---
 crates/hcl-edit/src/parser/pratt.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..c3a99b2 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,10 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
-
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                // All binary operators are left-associative. This includes the comparison operators: with
+                // `Associativity::Neither` the parser would stop in front of the second operator of
+                // an operation like `a == b == c` and drop the remaining tokens.
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From 29e8d41c291a5be2c5e713fa6e1829286d7d01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 18/23] fix: keep the strip marker of flush heredocs without
 indented content

---
 crates/hcl-edit/src/template/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 26694b5..3c9bdf3 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -205,10 +205,10 @@ impl HeredocTemplate {
     /// Dedent the heredoc template.
     ///
     /// This will set the heredoc's indent to the number of leading
-    /// spaces that were stripped off of template string literals, if any.
+    /// spaces that were stripped off of template string literals, or to zero if there are none.
     pub fn dedent(&mut self) {
         let stripped_indent = self.template.dedent();
-        self.indent = stripped_indent;
+        self.indent = Some(stripped_indent.unwrap_or(0));
     }
 
     pub(crate) fn despan(&mut self, input: &str) {
-- 
2.43.0


From fb919fd26c49fec1cbb746ae829b9777eba8f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 19/23] fix: do not add an empty line to empty heredocs when
 formatting

---
 crates/hcl-rs/src/format/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 90a3efe..d408d5a 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -229,7 +229,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
-- 
2.43.0


From b9f5272a9e7360896c5f9c9aabcda424908d4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 20/23] fix: deserialize newtype structs from values

---
 crates/hcl-rs/src/value/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..0e63a05 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -153,9 +153,20 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 7a5486896a186a2239cff7bb1165cdd063661c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 21/23] fix: report excess elements when deserializing tuples

---
 crates/hcl-rs/src/de/mod.rs   | 14 +++++++++++++-
 crates/hcl-rs/src/expr/de.rs  | 10 +++++-----
 crates/hcl-rs/src/value/de.rs |  3 ++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/hcl-rs/src/de/mod.rs b/crates/hcl-rs/src/de/mod.rs
index 0058ee4..5fec772 100644
--- a/crates/hcl-rs/src/de/mod.rs
+++ b/crates/hcl-rs/src/de/mod.rs
@@ -7,7 +7,7 @@
 
 use crate::structure::IntoJsonSpec;
 use crate::{Body, Error, Identifier, Result};
-use serde::de::value::StringDeserializer;
+use serde::de::value::{SeqDeserializer, StringDeserializer};
 use serde::de::{self, Deserializer as _, IntoDeserializer};
 use serde::forward_to_deserialize_any;
 use std::fmt;
@@ -263,6 +263,18 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     }
 }
 
+// Visits the elements of `vec` and reports those that are left over by the visitor.
+pub(crate) fn visit_vec<'de, T, V>(vec: Vec<T>, visitor: V) -> Result<V::Value>
+where
+    T: IntoDeserializer<'de, Error>,
+    V: de::Visitor<'de>,
+{
+    let mut deserializer = SeqDeserializer::new(vec.into_iter());
+    let value = visitor.visit_seq(&mut deserializer)?;
+    deserializer.end()?;
+    Ok(value)
+}
+
 // A trait that allows enum types to report the name of their variant.
 pub(crate) trait VariantName {
     fn variant_name(&self) -> &'static str;
diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..765593f 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1,7 +1,7 @@
 //! Deserialize impls for HCL structure types.
 
 use super::*;
-use crate::de::{EnumAccess, FromStrVisitor, OptionDeserializer, VariantName};
+use crate::de::{visit_vec, EnumAccess, FromStrVisitor, OptionDeserializer, VariantName};
 use crate::Error;
 use serde::de::value::{MapAccessDeserializer, StrDeserializer, StringDeserializer};
 use serde::de::{self, Expected, IntoDeserializer, Unexpected, VariantAccess};
@@ -309,7 +309,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Bool(b) => visitor.visit_bool(b),
             Expression::Number(v) => v.deserialize_any(visitor).map_err(de::Error::custom),
             Expression::String(s) => visitor.visit_string(s),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => visit_vec(v, visitor),
             Expression::Object(v) => visitor.visit_map(v.into_deserializer()),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
             Expression::Parenthesis(v) => v.deserialize_any(visitor),
@@ -414,7 +414,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::String(v) => visitor.visit_string(v),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => visit_vec(v, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -445,7 +445,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => visit_vec(v, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -495,7 +495,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => visit_vec(v, visitor),
             other => other.deserialize_map(visitor),
         }
     }
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 0e63a05..8059b68 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -1,4 +1,5 @@
 use super::{Map, Value};
+use crate::de::visit_vec;
 use crate::{Error, Number, Result};
 use indexmap::map;
 use serde::de::{self, value::StringDeserializer, IntoDeserializer, Visitor};
@@ -122,7 +123,7 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Bool(b) => visitor.visit_bool(b),
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
-            Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
+            Value::Array(array) => visit_vec(array, visitor),
             Value::Object(object) => visitor.visit_map(object.into_deserializer()),
         }
     }
-- 
2.43.0


From 127ed823b32272446a453a70b9dd61941f4ab358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 22/23] fix: deserialize optional documents

---
 crates/hcl-rs/src/de/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/de/mod.rs b/crates/hcl-rs/src/de/mod.rs
index 5fec772..f9465f3 100644
--- a/crates/hcl-rs/src/de/mod.rs
+++ b/crates/hcl-rs/src/de/mod.rs
@@ -256,9 +256,16 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             .deserialize_enum(name, variants, visitor)
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 501a2b74d0e3d7036cb0359784beaa0089d99f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 23/23] fix: report excess entries when deserializing enums

---
 crates/hcl-rs/src/expr/de.rs  | 4 ++++
 crates/hcl-rs/src/value/de.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 765593f..f3231e7 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -342,6 +342,10 @@ impl<'de> de::Deserializer<'de> for Expression {
 
         match self {
             Expression::String(v) => visitor.visit_enum(v.into_deserializer()),
+            Expression::Object(v) if v.len() > 1 => Err(de::Error::invalid_value(
+                Unexpected::Map,
+                &"object with a single key",
+            )),
             Expression::Object(v) => {
                 visitor.visit_enum(MapAccessDeserializer::new(v.into_deserializer()))
             }
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 8059b68..007e2cc 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -149,6 +149,10 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
     {
         match self.value {
             Value::String(s) => visitor.visit_enum(s.into_deserializer()),
+            Value::Object(object) if object.len() > 1 => Err(de::Error::invalid_value(
+                de::Unexpected::Map,
+                &"object with a single key",
+            )),
             Value::Object(object) => visitor.visit_enum(EnumAccess::new(object)),
             _ => Err(de::Error::custom("expected an enum")),
         }
-- 
2.43.0

