From 7076b94248676366ab981f9b161292f5b5fd74f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 01/44] fix: keep all operands of chained comparison operators

---
 crates/hcl-edit/src/parser/pratt.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..25ae664 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,9 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
-
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                // All binary operators are left-associative, this includes the comparison operators:
+                // `a == b != c` is parsed as `(a == b) != c`.
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From eee72c5a494aa9815a0a6243cc768f64221b525e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 02/44] fix: preserve whitespace and comments around binary
 operators

---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
-- 
2.43.0


From 9e45fc8c6ed2ed3e9d2ef2cb6373681382ca055f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 03/44] fix: preserve whitespace and comments between traversal
 operators

---
 crates/hcl-edit/src/expr/traversal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..90e055c 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,6 +35,7 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
+            operator.decor_mut().despan(input);
             operator.despan(input);
         }
     }
-- 
2.43.0


From 66af80169486c4e6dc846b21ac80b778213b9920 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 04/44] fix: keep whitespace before the closing brace of
 grouping for exprs

---
 crates/hcl-edit/src/encode/expr.rs   |  1 +
 crates/hcl-edit/src/expr/for_expr.rs | 14 +++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..d7a0d8e 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -136,6 +136,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char('}')
         } else {
             // list expr
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..d9c3fde 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,8 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    // Raw decor between the `...` of the grouping mode and the closing `}`.
+    trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,13 +38,23 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
     }
 
+    pub(crate) fn trailing(&self) -> &RawString {
+        &self.trailing
+    }
+
+    pub(crate) fn set_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.trailing = trailing.into();
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.trailing.despan(input);
         self.intro.despan(input);
 
         if let Some(key_expr) = &mut self.key_expr {
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..e046e60 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -472,7 +472,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From 66c6b634b6f6ee99fb7262d27ae53d62b3c5d8b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 05/44] fix: do not leak the escape mode of nested templates
 while encoding

---
 crates/hcl-edit/src/encode/mod.rs      | 19 +++++++++++++++++--
 crates/hcl-edit/src/encode/template.rs |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..9f8190b 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -33,9 +33,24 @@ impl<'a> EncodeState<'a> {
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        self.with_escape(true, f)
+    }
+
+    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        self.with_escape(false, f)
+    }
+
+    // Restores the previous mode afterwards since templates can be nested.
+    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        let previous = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = previous;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..5970ed6 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 6261544d90255f2d60b1958cab5a2cb0b8cfad01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 06/44] fix: parse escape sequences in directive bodies of
 quoted templates

---
 crates/hcl-edit/src/parser/template.rs | 78 +++++++++++++++++++-------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..0f3040b 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -21,16 +21,46 @@ use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
 
+/// Controls how the literals of a template are parsed. This also applies to the literals in the
+/// bodies of the directives within that template.
+#[derive(Clone, Copy)]
+enum Literals {
+    /// Literals in a quoted string: these may contain escape sequences and end at a `"`.
+    Quoted,
+    /// Raw literals.
+    Raw,
+}
+
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
-        .output_into()
-        .parse_next(input)
+    delimited(
+        '"',
+        elements(
+            build_string(quoted_string_fragment),
+            directive(Literals::Quoted),
+        ),
+        '"',
+    )
+    .output_into()
+    .parse_next(input)
 }
 
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, directive(Literals::Raw))
+        .output_into()
+        .parse_next(input)
+}
+
+fn directive_template<'a>(
+    literals: Literals,
+) -> impl ModalParser<Input<'a>, Template, ContextError> {
+    move |input: &mut Input<'a>| match literals {
+        Literals::Quoted => elements(build_string(quoted_string_fragment), directive(literals))
+            .output_into()
+            .parse_next(input),
+        Literals::Raw => template(input),
+    }
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,8 +82,11 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
-            |(mut elements, (line_ending, line_ending_span))| {
+        opt((
+            elements(literal, directive(Literals::Raw)),
+            line_ending.with_span(),
+        )
+            .map(|(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
                 if let Some(Element::Literal(lit)) = elements.last_mut() {
@@ -67,8 +100,7 @@ pub(super) fn heredoc_template<'a>(
                 }
 
                 Template::from(elements)
-            },
-        ))
+            }))
         .map(Option::unwrap_or_default)
         .parse_next(input)
     }
@@ -84,9 +116,13 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+fn elements<'a, P, D>(
+    literal: P,
+    directive: D,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
+    D: ModalParser<Input<'a>, Directive, ContextError>,
 {
     repeat(
         0..,
@@ -108,21 +144,23 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
         .parse_next(input)
 }
 
-fn directive(input: &mut Input) -> ModalResult<Directive> {
-    alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
-    ))
-    .parse_next(input)
+fn directive<'a>(literals: Literals) -> impl ModalParser<Input<'a>, Directive, ContextError> {
+    move |input: &mut Input<'a>| {
+        alt((
+            (|input: &mut Input<'a>| if_directive(input, literals)).map(Directive::If),
+            (|input: &mut Input<'a>| for_directive(input, literals)).map(Directive::For),
+        ))
+        .parse_next(input)
+    }
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive(input: &mut Input, literals: Literals) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
             (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
         ),
-        spanned(template),
+        spanned(directive_template(literals)),
     )
         .map(|(((preamble, cond_expr), strip), template)| {
             let mut expr = IfTemplateExpr::new(cond_expr, template);
@@ -133,7 +171,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
 
     let else_expr = (
         control("%{", separated_pair(raw_string(ws), "else", raw_string(ws))),
-        spanned(template),
+        spanned(directive_template(literals)),
     )
         .map(|(((preamble, trailing), strip), template)| {
             let mut expr = ElseTemplateExpr::new(template);
@@ -160,7 +198,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive(input: &mut Input, literals: Literals) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
@@ -171,7 +209,7 @@ fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
                 preceded(cut_tag("in"), decorated(ws, expr, ws)),
             ),
         ),
-        spanned(template),
+        spanned(directive_template(literals)),
     )
         .map(
             |(((preamble, key_var, value_var, collection_expr), strip), template)| {
-- 
2.43.0


From eaa1c5f99848dd8f49774984d96437006d8f9124 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 07/44] fix: do not lose text or grow indentation of flush
 heredocs

---
 crates/hcl-edit/src/encode/mod.rs      | 61 ++++++++++++++++---
 crates/hcl-edit/src/encode/template.rs | 25 ++------
 crates/hcl-edit/src/parser/expr.rs     |  5 ++
 crates/hcl-edit/src/template/mod.rs    | 82 ++++++++++++++++++-------
 crates/hcl-edit/src/util.rs            | 83 +++++++++-----------------
 5 files changed, 150 insertions(+), 106 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 9f8190b..0e90ce6 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -2,6 +2,7 @@ mod expr;
 mod structure;
 mod template;
 
+use crate::util::indent_by;
 use crate::{Decorate, Decorated, Formatted, Ident, Number};
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
@@ -21,41 +22,83 @@ pub(crate) trait Encode {
 
 pub(crate) struct EncodeState<'a> {
     buf: &'a mut dyn fmt::Write,
+    mode: TemplateMode,
+}
+
+/// Controls how template literals are encoded.
+#[derive(Default)]
+struct TemplateMode {
     escape: bool,
+    indent: usize,
+    line_start: bool,
 }
 
 impl<'a> EncodeState<'a> {
     pub fn new(buf: &'a mut dyn fmt::Write) -> EncodeState<'a> {
-        EncodeState { buf, escape: false }
+        EncodeState {
+            buf,
+            mode: TemplateMode::default(),
+        }
     }
 
     pub fn escaped<F>(&mut self, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.with_escape(true, f)
+        let mode = TemplateMode {
+            escape: true,
+            ..TemplateMode::default()
+        };
+        self.with_mode(mode, f)
     }
 
-    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    pub fn indented<F>(&mut self, indent: usize, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.with_escape(false, f)
+        let mode = TemplateMode {
+            escape: false,
+            indent,
+            line_start: true,
+        };
+        self.with_mode(mode, f)
     }
 
     // Restores the previous mode afterwards since templates can be nested.
-    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    fn with_mode<F>(&mut self, mode: TemplateMode, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        let previous = std::mem::replace(&mut self.escape, escape);
+        let previous = std::mem::replace(&mut self.mode, mode);
         let result = f(self);
-        self.escape = previous;
+        self.mode = previous;
         result
     }
 
-    pub fn escape(&self) -> bool {
-        self.escape
+    pub fn write_literal(&mut self, literal: &str) -> fmt::Result {
+        if self.mode.escape {
+            encode_escaped(self, literal)
+        } else if self.mode.indent > 0 {
+            self.write_str(&indent_by(literal, self.mode.indent, !self.mode.line_start))?;
+
+            if !literal.is_empty() {
+                self.mode.line_start = literal.ends_with('\n');
+            }
+
+            Ok(())
+        } else {
+            self.write_str(literal)
+        }
+    }
+
+    // Must be called before any template element is written that is not a literal.
+    pub fn write_indent(&mut self) -> fmt::Result {
+        if std::mem::take(&mut self.mode.line_start) {
+            let indent = self.mode.indent;
+            write!(self, "{:indent$}", "")?;
+        }
+
+        Ok(())
     }
 }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5970ed6..bd81fb0 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,5 +1,5 @@
 use super::{
-    encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
+    Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
     TRAILING_SPACE_DECOR,
 };
 use crate::template::{
@@ -7,7 +7,6 @@ use crate::template::{
     ForTemplateExpr, HeredocTemplate, IfDirective, IfTemplateExpr, Interpolation, StringTemplate,
     Strip, Template,
 };
-use crate::util::indent_by;
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
 
@@ -38,16 +37,8 @@ impl Encode for HeredocTemplate {
 
         writeln!(buf, "{}", self.delimiter.as_str())?;
 
-        match self.indent() {
-            Some(n) => {
-                let mut indent_buf = String::new();
-                let mut indent_state = EncodeState::new(&mut indent_buf);
-                self.template.encode(&mut indent_state)?;
-                let indented = indent_by(&indent_buf, n, false);
-                buf.write_str(&indented)?;
-            }
-            None => buf.unescaped(|buf| self.template.encode(buf))?,
-        }
+        let indent = self.indent().unwrap_or_default();
+        buf.indented(indent, |buf| self.template.encode(buf))?;
 
         self.trailing().encode_with_default(buf, "")?;
 
@@ -68,14 +59,7 @@ impl Encode for Template {
 impl Encode for Element {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         match self {
-            Element::Literal(lit) => {
-                let escaped = escape_markers(lit);
-                if buf.escape() {
-                    encode_escaped(buf, &escaped)
-                } else {
-                    buf.write_str(&escaped)
-                }
-            }
+            Element::Literal(lit) => buf.write_literal(&escape_markers(lit)),
             Element::Interpolation(interp) => interp.encode(buf),
             Element::Directive(dir) => dir.encode(buf),
         }
@@ -181,6 +165,7 @@ fn encode_strip<F>(buf: &mut EncodeState, start_marker: &str, strip: Strip, f: F
 where
     F: FnOnce(&mut EncodeState) -> fmt::Result,
 {
+    buf.write_indent()?;
     buf.write_str(start_marker)?;
     if strip.strip_start() {
         buf.write_char('~')?;
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index e046e60..88aaad6 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -690,6 +690,11 @@ fn heredoc<'i>(
 
         if indented {
             heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                // There is nothing to dedent, but the heredoc is still an indented one.
+                heredoc.set_indent(0);
+            }
         }
 
         heredoc.set_trailing(trailing);
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..bfde4f2 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -400,39 +400,77 @@ impl Template {
     }
 
     /// Dedents string literals in the template, returning the maximum indent that was stripped,
-    /// if any.
+    /// if any. This includes the literals in the bodies of directives.
     pub(crate) fn dedent(&mut self) -> Option<usize> {
         let mut indent: Option<usize> = None;
-        let mut skip_first_line = false;
 
-        for element in &self.elements {
-            if let Element::Literal(literal) = element {
-                if let Some(leading_ws) = min_leading_whitespace(literal, skip_first_line) {
-                    indent = Some(indent.map_or(leading_ws, |indent| indent.min(leading_ws)));
-                }
-                skip_first_line = !literal.ends_with('\n');
-            } else if !skip_first_line {
+        self.visit_lines(&mut true, &mut |literal, line_start| {
+            let leading_ws = match literal {
+                Some(literal) => min_leading_whitespace(literal, !line_start),
                 // Directive or interpolation at line start always mean that no indent can be
                 // stripped.
-                return None;
-            }
+                None => line_start.then_some(0),
+            };
+
+            indent = match (indent, leading_ws) {
+                (Some(indent), Some(leading_ws)) => Some(indent.min(leading_ws)),
+                (indent, leading_ws) => indent.or(leading_ws),
+            };
+        });
+
+        if let Some(indent) = indent.filter(|&indent| indent > 0) {
+            self.visit_lines(&mut true, &mut |literal, line_start| {
+                if let Some(literal) = literal {
+                    *literal = dedent_by(literal, indent, !line_start);
+                }
+            });
         }
 
-        if let Some(indent) = indent {
-            skip_first_line = false;
+        indent
+    }
 
-            for element in &mut self.elements {
-                if let Element::Literal(literal) = element {
-                    let dedented = dedent_by(literal, indent, skip_first_line);
-                    *literal.as_mut() = dedented.into_owned();
-                    skip_first_line = !literal.ends_with('\n');
-                } else if !skip_first_line {
-                    skip_first_line = true;
+    // Visits the elements in document order, passing `Some` for literals and `None` for any other
+    // element alongside with the information whether the element is located at a line start.
+    fn visit_lines<F>(&mut self, line_start: &mut bool, f: &mut F)
+    where
+        F: FnMut(Option<&mut String>, bool),
+    {
+        for element in &mut self.elements {
+            match element {
+                Element::Literal(literal) => {
+                    let next_line_start = if literal.is_empty() {
+                        *line_start
+                    } else {
+                        literal.ends_with('\n')
+                    };
+                    f(Some(literal.value_mut()), *line_start);
+                    *line_start = next_line_start;
+                }
+                Element::Interpolation(_) => {
+                    f(None, std::mem::take(line_start));
+                }
+                Element::Directive(directive) => {
+                    f(None, std::mem::take(line_start));
+
+                    match &mut **directive {
+                        Directive::If(dir) => {
+                            dir.if_expr.template.visit_lines(line_start, f);
+
+                            if let Some(else_expr) = &mut dir.else_expr {
+                                f(None, std::mem::take(line_start));
+                                else_expr.template.visit_lines(line_start, f);
+                            }
+                        }
+                        Directive::For(dir) => {
+                            dir.for_expr.template.visit_lines(line_start, f);
+                        }
+                    }
+
+                    // The `endif` or `endfor`.
+                    f(None, std::mem::take(line_start));
                 }
             }
         }
-
-        indent
     }
 }
 
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..68075ad 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -1,56 +1,39 @@
-use std::borrow::Cow;
+/// Splits a line into its content and the line ending.
+fn split_line_ending(line: &str) -> (&str, &str) {
+    let content = line.strip_suffix('\n').unwrap_or(line);
+    let content = content.strip_suffix('\r').unwrap_or(content);
+    line.split_at(content.len())
+}
+
+/// Blank lines have neither an influence on the indent nor are they affected by it.
+fn is_blank_line(line: &str) -> bool {
+    line.ends_with('\n') && line.trim().is_empty()
+}
 
-pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
+pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> String {
     let mut dedented = String::with_capacity(s.len());
 
-    for (i, line) in s.lines().enumerate() {
-        if i == 0 && skip_first {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if (i == 0 && skip_first) || is_blank_line(line) {
             dedented.push_str(line);
-        } else if !line.is_empty() {
-            dedented.extend(line.chars().skip(n));
+        } else {
+            let (content, line_ending) = split_line_ending(line);
+            dedented.extend(content.chars().skip(n));
+            dedented.push_str(line_ending);
         }
-
-        dedented.push('\n');
-    }
-
-    if dedented.ends_with('\n') && !s.ends_with('\n') {
-        let new_len = dedented.len() - 1;
-        dedented.truncate(new_len);
     }
 
-    dedented.shrink_to_fit();
-
-    Cow::Owned(dedented)
+    dedented
 }
 
+/// Find the minimum number of possible leading units of whitespace that can be be stripped off of
+/// each non-blank line.
 pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize> {
-    if s.is_empty() {
-        return None;
-    }
-
-    let mut leading_ws: Option<usize> = None;
-
-    // Find the minimum number of possible leading units of whitespace that can be be stripped off
-    // of each non-empty line.
-    for (i, line) in s.lines().enumerate() {
-        if (i == 0 && skip_first) || line.is_empty() {
-            continue;
-        }
-
-        let line_leading_ws = line.chars().take_while(|ch| ch.is_whitespace()).count();
-
-        if line_leading_ws == 0 {
-            // Fast path: no dedent needed if we encounter a non-empty line which starts with a
-            // non-whitespace character.
-            return None;
-        }
-
-        leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-            leading_ws.min(line_leading_ws)
-        }));
-    }
-
-    leading_ws
+    s.split_inclusive('\n')
+        .skip(usize::from(skip_first))
+        .filter(|line| !is_blank_line(line))
+        .map(|line| line.chars().take_while(|ch| ch.is_whitespace()).count())
+        .min()
 }
 
 pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
@@ -58,23 +41,13 @@ pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
     let length = s.len();
     let mut output = String::with_capacity(length + length / 2);
 
-    for (i, line) in s.lines().enumerate() {
-        if i > 0 {
-            output.push('\n');
-
-            if !line.is_empty() {
-                output.push_str(&prefix);
-            }
-        } else if !skip_first && !line.is_empty() {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if !(i == 0 && skip_first) && !is_blank_line(line) {
             output.push_str(&prefix);
         }
 
         output.push_str(line);
     }
 
-    if s.ends_with('\n') {
-        output.push('\n');
-    }
-
     output
 }
-- 
2.43.0


From 5ee03e328bc94978a80ff9c815f271179a5fa658 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 08/44] fix: report the correct column for errors at multi-byte
 characters

---
 crates/hcl-edit/src/parser/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 976f2a6..a1ed677 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -151,8 +151,9 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
 
     // The (1-indexed) column number is the offset of the remaining input into that line.
     // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..=offset])
-        .map_or_else(|_| offset - line_begin + 1, |s| s.chars().count())
+    let column = std::str::from_utf8(&input[line_begin..offset])
+        .map_or_else(|_| offset - line_begin, |s| s.chars().count())
+        + 1
         + column_offset;
 
     (
-- 
2.43.0


From ec712d6ed39e8f8f26e060f1f9bd09f87620ab5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 09/44] fix: visit the collection expr of for template
 directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0


From f2a22eebbf0d34f8b1436303cd89c11869492a51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 10/44] fix: escape and unescape all template markers in a
 literal

---
 crates/hcl-primitives/src/template.rs | 53 ++++++++-------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..3136d4f 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,25 +109,14 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        if matches!(ch, '$' | '%') && chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -163,31 +152,19 @@ pub fn unescape_markers(literal: &str) -> Cow<'_, str> {
 }
 
 fn unescape_markers_owned(literal: &str, idx: usize) -> String {
-    let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
-
-    while let Some(ch) = chars.next() {
-        buf.push(ch);
-
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+    let (mut buf, mut rest) = split_buf(literal, idx);
+
+    while let Some(ch) = rest.chars().next() {
+        if rest.starts_with("$${") || rest.starts_with("%%{") {
+            // Unescape by dropping the first `ch` of the escaped marker.
+            buf.push_str(&rest[1..3]);
+            rest = &rest[3..];
+        } else {
+            buf.push(ch);
+            rest = &rest[ch.len_utf8()..];
         }
     }
+
     buf
 }
 
-- 
2.43.0


From 729bdf1a2c46a4161661c4c969f1c915340f4802 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 11/44] fix: keep the heredoc strip mode when converting to
 hcl-edit

---
 crates/hcl-rs/src/expr/edit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..436142b 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -222,7 +222,16 @@ impl From<template::HeredocTemplate> for Heredoc {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if let HeredocStripMode::Indent = value.strip {
+            heredoc.set_indent(0);
+        }
+
+        heredoc
     }
 }
 
-- 
2.43.0


From 10809f840318d145a22b52e37ad647ac00145fe2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 12/44] fix: do not truncate floats that exceed the integer
 range

---
 crates/hcl-primitives/src/number.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..1f9842c 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -50,9 +50,18 @@ impl N {
         #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
         let no_fraction = value - (value as i64 as f64) == 0.0;
 
-        if no_fraction {
-            #[allow(clippy::cast_possible_truncation)]
-            N::from(value as i64)
+        // Values outside of these bounds cannot be represented as integer. Note that the upper bound
+        // is exclusive since `u64::MAX` cannot be represented exactly as `f64`.
+        const MIN: f64 = -9_223_372_036_854_775_808.0;
+        const MAX: f64 = 18_446_744_073_709_551_616.0;
+
+        if no_fraction && (MIN..MAX).contains(&value) {
+            #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+            if value < 0.0 {
+                N::from(value as i64)
+            } else {
+                N::PosInt(value as u64)
+            }
         } else {
             N::Float(value)
         }
-- 
2.43.0


From 52fd199fd64fd0f8743198a37481cbbf11217c71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 13/44] fix: integer arithmetic must neither wrap around nor
 panic on overflow

---
 crates/hcl-primitives/src/number.rs | 76 ++++++++++++++++-------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 1f9842c..c190a61 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -8,18 +8,15 @@ use core::ops::{Add, Div, Mul, Neg, Rem, Sub};
 use serde::de::Unexpected;
 
 enum CoerceResult {
-    PosInt(u64, u64),
-    NegInt(i64, i64),
+    Int(i128, i128),
     Float(f64, f64),
 }
 
 // Coerce two numbers to a common type suitable for binary operations.
 fn coerce(a: N, b: N) -> CoerceResult {
-    match (a, b) {
-        (N::PosInt(a), N::PosInt(b)) => CoerceResult::PosInt(a, b),
-        (N::NegInt(a), N::NegInt(b)) => CoerceResult::NegInt(a, b),
-        (N::Float(a), N::Float(b)) => CoerceResult::Float(a, b),
-        (a, b) => CoerceResult::Float(a.to_f64(), b.to_f64()),
+    match (a.to_i128(), b.to_i128()) {
+        (Some(a), Some(b)) => CoerceResult::Int(a, b),
+        (_, _) => CoerceResult::Float(a.to_f64(), b.to_f64()),
     }
 }
 
@@ -83,6 +80,26 @@ impl N {
         }
     }
 
+    fn to_i128(self) -> Option<i128> {
+        match self {
+            N::PosInt(n) => Some(i128::from(n)),
+            N::NegInt(n) => Some(i128::from(n)),
+            N::Float(_) => None,
+        }
+    }
+
+    // Integers that exceed the range of `u64` and `i64` become floats.
+    fn from_i128(value: i128) -> N {
+        if let Ok(value) = u64::try_from(value) {
+            N::PosInt(value)
+        } else if let Ok(value) = i64::try_from(value) {
+            N::from(value)
+        } else {
+            #[allow(clippy::cast_precision_loss)]
+            N::from_finite_f64(value as f64)
+        }
+    }
+
     fn to_f64(self) -> f64 {
         #[allow(clippy::cast_precision_loss)]
         match self {
@@ -117,9 +134,9 @@ impl N {
 impl PartialEq for N {
     fn eq(&self, other: &Self) -> bool {
         match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a == b,
-            CoerceResult::NegInt(a, b) => a == b,
-            CoerceResult::Float(a, b) => a == b,
+            CoerceResult::Int(a, b) => a == b,
+            // Floats without fraction are never in the range of the integers.
+            CoerceResult::Float(a, b) => a == b && self.is_f64() == other.is_f64(),
         }
     }
 }
@@ -130,9 +147,12 @@ impl Eq for N {}
 impl PartialOrd for N {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::NegInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::Float(a, b) => a.partial_cmp(&b),
+            CoerceResult::Int(a, b) => a.partial_cmp(&b),
+            CoerceResult::Float(a, b) => match a.partial_cmp(&b) {
+                // The conversion of an integer rounded it up to a float that exceeds its range.
+                Some(Ordering::Equal) => self.is_f64().partial_cmp(&other.is_f64()),
+                ordering => ordering,
+            },
         }
     }
 }
@@ -174,11 +194,9 @@ impl Neg for N {
     type Output = N;
 
     fn neg(self) -> Self::Output {
-        match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
-            N::Float(value) => N::Float(-value),
+        match self.to_i128() {
+            Some(value) => N::from_i128(-value),
+            None => N::from_finite_f64(-self.to_f64()),
         }
     }
 }
@@ -188,8 +206,7 @@ impl Add for N {
 
     fn add(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
+            CoerceResult::Int(a, b) => N::from_i128(a + b),
             CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
         }
     }
@@ -200,15 +217,7 @@ impl Sub for N {
 
     fn sub(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
-            }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
+            CoerceResult::Int(a, b) => N::from_i128(a - b),
             CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
         }
     }
@@ -219,8 +228,10 @@ impl Mul for N {
 
     fn mul(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
+            CoerceResult::Int(a, b) => a.checked_mul(b).map_or_else(
+                || N::from_finite_f64(self.to_f64() * rhs.to_f64()),
+                N::from_i128,
+            ),
             CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
         }
     }
@@ -239,8 +250,7 @@ impl Rem for N {
 
     fn rem(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
+            CoerceResult::Int(a, b) => N::from_i128(a % b),
             CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
         }
     }
-- 
2.43.0


From e877ccb2ba0795ed73e7b2c92b62f37a8c1acddb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 14/44] fix: return an error for arithmetic operations without
 a finite result

---
 crates/hcl-rs/src/eval/impls.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..ab1946c 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -418,6 +418,12 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
+            (Number(lhs), operator @ (Plus | Minus | Mul | Div | Mod), Number(rhs))
+                if !has_finite_result(&lhs, operator, &rhs) =>
+            {
+                // E.g. division by zero.
+                return Err(ctx.error(ErrorKind::BinaryOp(Number(lhs), operator, Number(rhs))));
+            }
             (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
             (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
             (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
@@ -436,6 +442,24 @@ impl Evaluate for BinaryOp {
     }
 }
 
+/// Returns `true` if the result of an arithmetic operation is representable as a HCL number.
+fn has_finite_result(lhs: &crate::Number, operator: BinaryOperator, rhs: &crate::Number) -> bool {
+    let (Some(lhs), Some(rhs)) = (lhs.as_f64(), rhs.as_f64()) else {
+        return false;
+    };
+
+    let result = match operator {
+        BinaryOperator::Plus => lhs + rhs,
+        BinaryOperator::Minus => lhs - rhs,
+        BinaryOperator::Mul => lhs * rhs,
+        BinaryOperator::Div => lhs / rhs,
+        BinaryOperator::Mod => lhs % rhs,
+        _ => return true,
+    };
+
+    result.is_finite()
+}
+
 impl private::Sealed for ForExpr {}
 
 impl Evaluate for ForExpr {
-- 
2.43.0


From 5a3a9ccf75bbd30a8378da6319dddf3d21de5557 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 15/44] fix: do not allow newlines in expressions after a
 closing delimiter

---
 crates/hcl-edit/src/parser/expr.rs  | 86 ++++++++++++++++++-----------
 crates/hcl-edit/src/parser/state.rs |  4 ++
 2 files changed, 59 insertions(+), 31 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 88aaad6..bd84ba2 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -37,6 +37,25 @@ fn ws_or_sp<'i>(
     }
 }
 
+// Allows newlines while running the parser. Newlines must not be allowed anymore after the closing
+// delimiter unless the surrounding expression allows them as well.
+fn with_newlines<'i, 's, P, O>(
+    state: &'s RefCell<ExprParseState>,
+    mut inner: P,
+) -> impl ModalParser<Input<'i>, O, ContextError> + 's
+where
+    P: ModalParser<Input<'i>, O, ContextError> + 's,
+    'i: 's,
+{
+    move |input: &mut Input<'i>| {
+        let newlines_allowed = state.borrow().newlines_allowed();
+        state.borrow_mut().allow_newlines();
+        let result = inner.parse_next(input);
+        state.borrow_mut().set_newlines_allowed(newlines_allowed);
+        result
+    }
+}
+
 pub(super) fn expr(input: &mut Input) -> ModalResult<Expression> {
     parse_expr(RefCell::default(), input)
 }
@@ -380,11 +399,13 @@ fn array<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
-        delimited(
-            '[',
-            for_expr_or_items(for_list_expr(state), array_items(state)),
-            cut_char(']'),
+        with_newlines(
+            state,
+            delimited(
+                '[',
+                for_expr_or_items(for_list_expr(state), array_items(state)),
+                cut_char(']'),
+            ),
         )
         .parse_next(input)
     }
@@ -441,7 +462,10 @@ fn object<'i>(
     move |input: &mut Input<'i>| {
         delimited(
             '{',
-            for_expr_or_items(for_object_expr(state), object_items(state)),
+            for_expr_or_items(
+                with_newlines(state, for_object_expr(state)),
+                object_items(state),
+            ),
             cut_char('}'),
         )
         .parse_next(input)
@@ -452,7 +476,6 @@ fn for_object_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
         (
             for_intro,
             separated_pair(
@@ -806,8 +829,6 @@ fn func_args<'i>(
             Ellipsis,
         }
 
-        state.borrow_mut().allow_newlines();
-
         let args = separated(
             1..,
             decorated(
@@ -824,30 +845,33 @@ fn func_args<'i>(
             _ => fail,
         };
 
-        delimited(
-            cut_char('('),
-            (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
-                let mut args = match args {
-                    Some((args, Some(trailer))) => {
-                        let args: Vec<_> = args;
-                        let mut args = FuncArgs::from(args);
-                        if let Trailer::Ellipsis = trailer {
-                            args.set_expand_final(true);
-                        } else {
-                            args.set_trailing_comma(true);
+        with_newlines(
+            state,
+            delimited(
+                cut_char('('),
+                (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
+                    let mut args = match args {
+                        Some((args, Some(trailer))) => {
+                            let args: Vec<_> = args;
+                            let mut args = FuncArgs::from(args);
+                            if let Trailer::Ellipsis = trailer {
+                                args.set_expand_final(true);
+                            } else {
+                                args.set_trailing_comma(true);
+                            }
+                            args
                         }
-                        args
-                    }
-                    Some((args, None)) => FuncArgs::from(args),
-                    None => FuncArgs::default(),
-                };
+                        Some((args, None)) => FuncArgs::from(args),
+                        None => FuncArgs::default(),
+                    };
 
-                args.set_trailing(trailing);
-                args
-            }),
-            cut_char(')').context(StrContext::Expected(StrContextValue::Description(
-                "expression",
-            ))),
+                    args.set_trailing(trailing);
+                    args
+                }),
+                cut_char(')').context(StrContext::Expected(StrContextValue::Description(
+                    "expression",
+                ))),
+            ),
         )
         .parse_next(input)
     }
diff --git a/crates/hcl-edit/src/parser/state.rs b/crates/hcl-edit/src/parser/state.rs
index ddc3a69..7f2f566 100644
--- a/crates/hcl-edit/src/parser/state.rs
+++ b/crates/hcl-edit/src/parser/state.rs
@@ -143,6 +143,10 @@ impl ExprParseState {
         self.allow_newlines = true;
     }
 
+    pub(super) fn set_newlines_allowed(&mut self, allowed: bool) {
+        self.allow_newlines = allowed;
+    }
+
     pub(super) fn newlines_allowed(&self) -> bool {
         self.allow_newlines
     }
-- 
2.43.0


From ffdb73d04be5b5830b5ce74124b0a449b6ed01ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/44] fix: reject invalid escape sequences after the first
 string fragment

---
 crates/hcl-edit/src/parser/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 74b89c3..c31ca06 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -7,6 +7,7 @@ use crate::{Decorated, Ident, RawString};
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
 use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::error::ErrMode;
 use winnow::token::{any, one_of, take, take_while};
 
 pub(super) fn string(input: &mut Input) -> ModalResult<String> {
@@ -33,13 +34,19 @@ where
         };
 
         loop {
+            let checkpoint = input.checkpoint();
+
             match fragment_parser.parse_next(input) {
                 Ok(fragment) => match fragment {
                     StringFragment::Literal(s) => string.to_mut().push_str(s),
                     StringFragment::EscapedChar(c) => string.to_mut().push(c),
                     StringFragment::EscapedMarker(m) => string.to_mut().push_str(m.unescape()),
                 },
-                Err(_) => return Ok(string),
+                Err(ErrMode::Backtrack(_)) => {
+                    input.reset(&checkpoint);
+                    return Ok(string);
+                }
+                Err(err) => return Err(err),
             }
         }
     }
-- 
2.43.0


From 376c69c9a24fc2728410f42ca058f6331b9e51d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 17/44] fix: report the correct column for errors at the end of
 the input

---
 crates/hcl-edit/src/parser/error.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index a1ed677..d947b44 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -128,7 +128,6 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
         );
     }
     let offset = err.offset().min(input.len() - 1);
-    let column_offset = err.offset() - offset;
 
     // Find the start of the line containing the error.
     let line_begin = input[..offset]
@@ -151,10 +150,9 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
 
     // The (1-indexed) column number is the offset of the remaining input into that line.
     // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..offset])
-        .map_or_else(|_| offset - line_begin, |s| s.chars().count())
-        + 1
-        + column_offset;
+    let column = std::str::from_utf8(&input[line_begin..err.offset()])
+        .map_or_else(|_| err.offset() - line_begin, |s| s.chars().count())
+        + 1;
 
     (
         line_context,
-- 
2.43.0


From f63b4003e25764aeff38d497e62e25c719b0bb74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 18/44] fix: separate object items when an item without
 terminator is not the last one

---
 crates/hcl-edit/src/encode/expr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index d7a0d8e..4200135 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -83,9 +83,17 @@ impl Encode for Object {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('{')?;
 
-        for (key, value) in self {
+        let last = self.len().saturating_sub(1);
+
+        for (i, (key, value)) in self.iter().enumerate() {
             key.encode_decorated(buf, TRAILING_SPACE_DECOR)?;
             value.encode(buf)?;
+
+            // Only the last item can go without a terminator. Others end up without one when items
+            // are inserted after or moved in front of what used to be the last item.
+            if i != last && value.terminator() == ObjectValueTerminator::None {
+                buf.write_char(',')?;
+            }
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From cab75e92ccc99770be1a142e9d6c4b042455a531 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 19/44] fix: keep the existing key when inserting into an
 object

---
 crates/hcl-edit/src/expr/object.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/object.rs b/crates/hcl-edit/src/expr/object.rs
index 9cbe350..c7c0ca4 100644
--- a/crates/hcl-edit/src/expr/object.rs
+++ b/crates/hcl-edit/src/expr/object.rs
@@ -120,7 +120,13 @@ impl Object {
         key: impl Into<ObjectKey>,
         value: impl Into<ObjectValue>,
     ) -> Option<ObjectValue> {
-        self.items.insert(key.into(), value.into())
+        let (key, value) = (key.into(), value.into());
+
+        // `VecMap::insert` would also replace the key, and with it the key's decor.
+        match self.items.get_mut(&key) {
+            Some(existing) => Some(std::mem::replace(existing, value)),
+            None => self.items.insert(key, value),
+        }
     }
 
     /// Remove the key-value pair equivalent to `key` and return its value.
-- 
2.43.0


From eb9adf285e2aa5c9866223b6644f06deb94f03fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 20/44] fix: do not write the stale representation of a
 modified number

---
 crates/hcl-edit/src/repr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/hcl-edit/src/repr.rs b/crates/hcl-edit/src/repr.rs
index 176afb2..8e21997 100644
--- a/crates/hcl-edit/src/repr.rs
+++ b/crates/hcl-edit/src/repr.rs
@@ -428,7 +428,10 @@ impl<T> Formatted<T> {
     }
 
     /// Returns a mutable reference to the wrapped value.
+    ///
+    /// This resets the raw string representation, because it may not match the value anymore.
     pub fn value_mut(&mut self) -> &mut T {
+        self.repr = None;
         &mut self.value
     }
 
-- 
2.43.0


From b6b480224907e7c4817a57be819cd440a5056dc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 21/44] fix: separate the value variable of for expressions
 from the in keyword

---
 crates/hcl-edit/src/encode/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 4200135..1f6cfa9 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -166,7 +166,7 @@ impl Encode for ForIntro {
             key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             buf.write_char(',')?;
         }
-        self.value_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+        self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
         buf.write_str("in")?;
         self.collection_expr
             .encode_decorated(buf, BOTH_SPACE_DECOR)?;
-- 
2.43.0


From 12096b09083265aebc238c6923698361a521ca71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 22/44] fix: reset the state of a formatter which is reused

---
 crates/hcl-rs/src/format/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 81c0451..20e034e 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -69,6 +69,7 @@ pub trait Format: private::Sealed {
         W: io::Write + AsMut<Vec<u8>>,
     {
         self.format(fmt)?;
+        fmt.state = FormatState::Initial;
         // "Drain" the buffer by splitting off all bytes, leaving the formatter's buffer empty
         // ready for reuse.
         Ok(fmt.writer.as_mut().split_off(0))
-- 
2.43.0


From 9ce67485f08f8eb0633ee11f656f5b0ae7cb7435 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 23/44] fix: do not indent the closing brace of an empty block

---
 crates/hcl-rs/src/format/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 20e034e..7710d55 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -631,9 +631,11 @@ where
 
     /// Signals the end of a block to the formatter.
     fn end_block(&mut self) -> Result<()> {
-        self.state = FormatState::BlockEnd;
         self.current_indent -= 1;
-        self.write_indent(self.current_indent)?;
+        if self.state != FormatState::BlockBodyStart {
+            self.write_indent(self.current_indent)?;
+        }
+        self.state = FormatState::BlockEnd;
         self.write_bytes(b"}\n")
     }
 
-- 
2.43.0


From bb93b04fe4b639e804a9ddd5962b6bf3f6fb5aef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 24/44] fix: do not add a line to empty heredocs when
 formatting

---
 crates/hcl-rs/src/format/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..6d44037 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -229,7 +229,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
-- 
2.43.0


From bad5d4d379d22cdef35331fd21cf01388eaae9bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 25/44] fix: escape the literals of quoted templates when
 formatting

---
 crates/hcl-rs/src/format/impls.rs | 13 +++++++++----
 crates/hcl-rs/src/format/mod.rs   |  8 ++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 6d44037..36b0c6b 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -149,10 +149,12 @@ impl Format for Value {
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
                 if is_templated(string) {
-                    fmt.write_quoted_string(string)
-                } else {
-                    fmt.write_quoted_string_escaped(string)
+                    if let Ok(template) = string.parse() {
+                        return fmt.write_quoted_template(template);
+                    }
                 }
+
+                fmt.write_quoted_string_escaped(string)
             }
             Value::Array(array) => format_array(fmt, array.iter()),
             Value::Object(object) => format_object(fmt, object.iter().map(|(k, v)| (StrKey(k), v))),
@@ -211,7 +213,10 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => match string.parse() {
+                Ok(template) => fmt.write_quoted_template(template),
+                Err(_) => fmt.write_quoted_string(string),
+            },
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 7710d55..2a07c37 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -38,6 +38,8 @@ mod escape;
 mod impls;
 
 use self::escape::{CharEscape, ESCAPE};
+use crate::edit::expr::Expression;
+use crate::edit::template::{StringTemplate, Template};
 use crate::Result;
 use hcl_primitives::template::escape_markers;
 use std::io;
@@ -430,6 +432,12 @@ where
     }
 
     /// Writes a quoted string to the writer.
+    fn write_quoted_template(&mut self, template: Template) -> Result<()> {
+        // This takes care of escaping the template's literals.
+        let expr = Expression::from(StringTemplate::from(template));
+        self.write_string_fragment(&expr.to_string())
+    }
+
     fn write_quoted_string(&mut self, s: &str) -> Result<()> {
         self.write_bytes(b"\"")?;
         self.write_string_fragment(s)?;
-- 
2.43.0


From fb738e202c7674c2fd4f4a94a6a17ef9fc0be9cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 26/44] fix: do not write the object key for as identifier

---
 crates/hcl-rs/src/format/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 36b0c6b..d6da053 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -197,7 +197,8 @@ impl Format for StrKey<'_> {
     where
         W: io::Write,
     {
-        if fmt.config.prefer_ident_keys && is_ident(self.0) {
+        // An object that starts with the identifier `for` would be a `for` expression.
+        if fmt.config.prefer_ident_keys && is_ident(self.0) && self.0 != "for" {
             fmt.write_string_fragment(self.0)
         } else {
             fmt.write_quoted_string_escaped(self.0)
-- 
2.43.0


From dcf683095ae7797305d0177408e820f8397697b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 27/44] fix: separate a number from the legacy index which
 follows it when encoding

---
 crates/hcl-edit/src/encode/expr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 1f6cfa9..30d4dd7 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -261,8 +261,15 @@ impl Encode for Traversal {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         self.expr.encode_decorated(buf, NO_DECOR)?;
 
-        for operator in &self.operators {
-            operator.encode_decorated(buf, NO_DECOR)?;
+        for (i, operator) in self.operators.iter().enumerate() {
+            let default_decor = match (&self.expr, operator.value()) {
+                // Without the space, the index would become the fractional part of the number.
+                (Expression::Number(_), TraversalOperator::LegacyIndex(_)) if i == 0 => {
+                    LEADING_SPACE_DECOR
+                }
+                _other => NO_DECOR,
+            };
+            operator.encode_decorated(buf, default_decor)?;
         }
 
         Ok(())
-- 
2.43.0


From 1fbbe15e10bd62f6291bd05197cee56351d1b7a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 28/44] fix: separate a number from the legacy index which
 follows it when formatting

---
 crates/hcl-rs/src/format/impls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index d6da053..071e4f3 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -276,6 +276,14 @@ impl Format for Traversal {
         W: io::Write,
     {
         self.expr.format(fmt)?;
+
+        // Without a space, the index would become the fractional part of the number.
+        if let (Expression::Number(_), Some(TraversalOperator::LegacyIndex(_))) =
+            (&self.expr, self.operators.first())
+        {
+            fmt.write_bytes(b" ")?;
+        }
+
         for operator in &self.operators {
             operator.format(fmt)?;
         }
-- 
2.43.0


From c08888196b9b8e8fb2b3462afef01ca50a4f4f80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 29/44] fix: do not write the names of literals as identifiers
 for object keys

---
 crates/hcl-rs/src/format/impls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 071e4f3..d8a1de0 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -197,8 +197,11 @@ impl Format for StrKey<'_> {
     where
         W: io::Write,
     {
-        // An object that starts with the identifier `for` would be a `for` expression.
-        if fmt.config.prefer_ident_keys && is_ident(self.0) && self.0 != "for" {
+        // An object that starts with the identifier `for` would be a `for` expression, and the
+        // names of literals would be these literals.
+        let is_reserved = matches!(self.0, "for" | "true" | "false" | "null");
+
+        if fmt.config.prefer_ident_keys && is_ident(self.0) && !is_reserved {
             fmt.write_string_fragment(self.0)
         } else {
             fmt.write_quoted_string_escaped(self.0)
-- 
2.43.0


From f869468f8fe3a9f24253d9ec3dd0c79657ebae7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 30/44] fix: end an empty heredoc at its first delimiter

---
 crates/hcl-edit/src/parser/template.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 0f3040b..c0da738 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -16,7 +16,9 @@ use crate::{SetSpan, Span, Spanned};
 
 use std::borrow::Cow;
 use winnow::ascii::{line_ending, space0};
-use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated_pair, terminated};
+use winnow::combinator::{
+    alt, delimited, not, opt, peek, preceded, repeat, separated_pair, terminated,
+};
 use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
@@ -77,11 +79,17 @@ pub(super) fn heredoc_template<'a>(
         //
         // Handling this case via parser combinators is quite tricky and thus we'll manually add
         // the line ending to the last template element below.
-        let heredoc_end = (line_ending, space0, delim, not(one_of(is_id_continue))).take();
+        let delim_line = || (space0, delim, not(one_of(is_id_continue)));
+        let heredoc_end = (line_ending, delim_line()).take();
         let literal_end = alt(("${", "%{", heredoc_end));
         let literal = template_literal(literal_end);
 
-        // Use `opt` to handle an empty template.
+        // If the heredoc ends in its first line, the template is empty.
+        if opt(peek(delim_line())).parse_next(input)?.is_some() {
+            return Ok(Template::default());
+        }
+
+        // Use `opt` to let the caller handle the missing end delimiter.
         opt((
             elements(literal, directive(Literals::Raw)),
             line_ending.with_span(),
-- 
2.43.0


From 8b8f0dbededf1c24f045f37006ee2b5d92aca12d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 31/44] fix: keep bodies of for directives when evaluating in
 place

They were evaluated with the variables of the context, although the
variables of the directive shadow these.
---
 crates/hcl-rs/src/eval/impls.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index ab1946c..3561afd 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -270,9 +270,11 @@ impl Evaluate for Template {
                             None => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    // Like with for expressions, the variables of the directive are unknown here and
+                    // may shadow those declared in the context.
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
+                    }
                 },
             })
     }
-- 
2.43.0


From 07bad504157ddce4303e29e0123d692637b9a4fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 32/44] fix: convert object keys to strings consistently

---
 crates/hcl-rs/src/expr/de.rs  | 24 ++++++++++++++++++++++--
 crates/hcl-rs/src/expr/mod.rs |  5 ++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..b1de944 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1089,6 +1089,26 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
+    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match Value::from(self) {
+            Value::Array(_) => Err(de::Error::invalid_type(Unexpected::Seq, &visitor)),
+            Value::Object(_) => Err(de::Error::invalid_type(Unexpected::Map, &visitor)),
+            Value::String(string) => visitor.visit_string(string),
+            // Primitive values are converted to strings when used as object keys.
+            value => visitor.visit_string(value.to_string()),
+        }
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -1102,8 +1122,8 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
-        string bytes byte_buf option unit unit_struct newtype_struct seq
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
+        bytes byte_buf option unit unit_struct newtype_struct seq
         tuple tuple_struct map struct identifier ignored_any
     }
 }
diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 6e76fe1..40e6c65 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -313,7 +313,10 @@ impl From<Identifier> for ObjectKey {
 
 impl From<ObjectKey> for String {
     fn from(key: ObjectKey) -> Self {
-        key.to_string()
+        match Value::from(key) {
+            Value::String(string) => string,
+            value => value.to_string(),
+        }
     }
 }
 
-- 
2.43.0


From c0ff5ed9b7deae54a00493a0a2b667b5f084ab8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 33/44] fix: reject structures where expressions are expected

---
 crates/hcl-rs/src/expr/ser/mod.rs      | 16 +++++++++++++++-
 crates/hcl-rs/src/structure/mod.rs     |  2 +-
 crates/hcl-rs/src/structure/ser/mod.rs |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index ae2a8b8..80968b5 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -5,6 +5,7 @@ mod tests;
 
 use super::*;
 use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
 
@@ -346,6 +347,7 @@ impl ser::SerializeMap for SerializeExpressionMap {
 
 pub(crate) enum SerializeExpressionStruct {
     InternalHandle(SerializeInternalHandleStruct),
+    InternalStructureHandle(SerializeInternalHandleStruct),
     Map(SerializeExpressionMap),
 }
 
@@ -353,6 +355,8 @@ impl SerializeExpressionStruct {
     pub(crate) fn new(name: &'static str, len: usize) -> Self {
         if name == EXPR_HANDLE_MARKER {
             SerializeExpressionStruct::InternalHandle(SerializeInternalHandleStruct::new())
+        } else if name == STRUCTURE_HANDLE_MARKER {
+            SerializeExpressionStruct::InternalStructureHandle(SerializeInternalHandleStruct::new())
         } else {
             SerializeExpressionStruct::Map(SerializeExpressionMap::new(Some(len)))
         }
@@ -368,7 +372,10 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
         T: ?Sized + ser::Serialize,
     {
         match self {
-            SerializeExpressionStruct::InternalHandle(ser) => ser.serialize_field(key, value),
+            SerializeExpressionStruct::InternalHandle(ser)
+            | SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                ser.serialize_field(key, value)
+            }
             SerializeExpressionStruct::Map(ser) => ser.serialize_entry(key, value),
         }
     }
@@ -378,6 +385,13 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
             SerializeExpressionStruct::InternalHandle(ser) => ser
                 .end()
                 .map(|handle| EXPR_HANDLES.with(|eh| eh.remove(handle))),
+            SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                let handle = ser.end()?;
+                STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+                Err(ser::Error::custom(
+                    "HCL structures are not permitted in this context",
+                ))
+            }
             SerializeExpressionStruct::Map(ser) => ser.end(),
         }
     }
diff --git a/crates/hcl-rs/src/structure/mod.rs b/crates/hcl-rs/src/structure/mod.rs
index 97beb4d..19de73f 100644
--- a/crates/hcl-rs/src/structure/mod.rs
+++ b/crates/hcl-rs/src/structure/mod.rs
@@ -52,7 +52,7 @@ pub(crate) mod de;
 mod edit;
 pub mod iter;
 mod json_spec;
-mod ser;
+pub(crate) mod ser;
 #[cfg(test)]
 mod tests;
 
diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index e796bc7..3b29df0 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -18,10 +18,10 @@ use crate::{Error, Expression, Identifier, ObjectKey, Result};
 use serde::ser::{self, Serialize, SerializeMap, SerializeStruct};
 use std::fmt;
 
-const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
+pub(crate) const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
 
 thread_local! {
-    static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
+    pub(crate) static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
 }
 
 impl ser::Serialize for Attribute {
-- 
2.43.0


From 89408e176c5f2c1885e132dcb00fd97a1cb99924 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:26 +0000
Subject: [PATCH 34/44] fix: reject object keys which are no identifiers as
 attribute names instead of changing them

---
 crates/hcl-rs/src/structure/ser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index 3b29df0..dc16fdf 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -350,7 +350,7 @@ impl ser::SerializeStruct for SerializeBodyStruct {
                             .map(|(key, value)| {
                                 let key = match key {
                                     ObjectKey::Identifier(ident) => ident,
-                                    ObjectKey::Expression(Expression::String(s)) => s.into(),
+                                    ObjectKey::Expression(Expression::String(s)) => Identifier::new(s)?,
                                     ObjectKey::Expression(expr) => {
                                         return Err(ser::Error::custom(format!(
                                             "encountered invalid HCL attribute key `{expr}`",
-- 
2.43.0


From ecd24f387e69f2738d255b81f0266e1eceb795a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 35/44] fix: write object expressions marked as blocks as
 blocks

---
 crates/hcl-rs/src/structure/ser/mod.rs | 148 +++++++++++++++++++------
 1 file changed, 113 insertions(+), 35 deletions(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index dc16fdf..d6efca1 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -14,7 +14,7 @@ use crate::ser::{
     in_internal_serialization, IdentifierSerializer, InternalHandles,
     SerializeInternalHandleStruct, StringSerializer,
 };
-use crate::{Error, Expression, Identifier, ObjectKey, Result};
+use crate::{Error, Expression, Identifier, Object, ObjectKey, Result};
 use serde::ser::{self, Serialize, SerializeMap, SerializeStruct};
 use std::fmt;
 
@@ -341,35 +341,83 @@ impl ser::SerializeStruct for SerializeBodyStruct {
                 .end()
                 .map(|handle| STRUCTURE_HANDLES.with(|sh| sh.remove(handle)).into()),
             SerializeBodyStruct::InternalExprHandle(ser) => {
-                let handle = ser.end()?;
+                let object = take_object(ser.end()?)?;
+                object_into_structures(object).map(Into::into)
+            }
+            SerializeBodyStruct::Map(ser) => ser.end(),
+        }
+    }
+}
 
-                match EXPR_HANDLES.with(|sh| sh.remove(handle)) {
-                    Expression::Object(object) => {
-                        let attrs = object
-                            .into_iter()
-                            .map(|(key, value)| {
-                                let key = match key {
-                                    ObjectKey::Identifier(ident) => ident,
-                                    ObjectKey::Expression(Expression::String(s)) => Identifier::new(s)?,
-                                    ObjectKey::Expression(expr) => {
-                                        return Err(ser::Error::custom(format!(
-                                            "encountered invalid HCL attribute key `{expr}`",
-                                        )))
-                                    }
-                                };
-
-                                Ok(Attribute::new(key, value))
-                            })
-                            .collect::<Result<Vec<_>>>()?;
-
-                        Ok(attrs.into())
-                    }
-                    _ => Err(ser::Error::custom(
-                        "non-object HCL expressions are not permitted in this context",
-                    )),
+// Takes the object that is referenced by an expression handle.
+fn take_object(handle: usize) -> Result<Object<ObjectKey, Expression>> {
+    match EXPR_HANDLES.with(|eh| eh.remove(handle)) {
+        Expression::Object(object) => Ok(object),
+        _ => Err(ser::Error::custom(
+            "non-object HCL expressions are not permitted in this context",
+        )),
+    }
+}
+
+// Converts the items of an object to attributes.
+fn object_into_structures(object: Object<ObjectKey, Expression>) -> Result<Vec<Structure>> {
+    object
+        .into_iter()
+        .map(|(key, value)| {
+            let key = match key {
+                ObjectKey::Identifier(ident) => ident,
+                ObjectKey::Expression(Expression::String(s)) => Identifier::new(s)?,
+                ObjectKey::Expression(expr) => {
+                    return Err(ser::Error::custom(format!(
+                        "encountered invalid HCL attribute key `{expr}`",
+                    )))
                 }
+            };
+
+            Ok(Attribute::new(key, value).into())
+        })
+        .collect()
+}
+
+// An internal handle that is serialized as the contents of a block.
+enum InternalHandle {
+    Structure(SerializeInternalHandleStruct),
+    Expr(SerializeInternalHandleStruct),
+}
+
+impl InternalHandle {
+    fn new(name: &'static str) -> Option<Self> {
+        match name {
+            STRUCTURE_HANDLE_MARKER => Some(InternalHandle::Structure(
+                SerializeInternalHandleStruct::new(),
+            )),
+            EXPR_HANDLE_MARKER => Some(InternalHandle::Expr(SerializeInternalHandleStruct::new())),
+            _ => None,
+        }
+    }
+
+    fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> Result<()>
+    where
+        T: ?Sized + ser::Serialize,
+    {
+        match self {
+            InternalHandle::Structure(ser) | InternalHandle::Expr(ser) => {
+                ser.serialize_field(key, value)
             }
-            SerializeBodyStruct::Map(ser) => ser.end(),
+        }
+    }
+
+    // Only objects can be turned into the contents of a block.
+    fn into_object(self) -> Result<Object<ObjectKey, Expression>> {
+        match self {
+            InternalHandle::Structure(ser) => {
+                let handle = ser.end()?;
+                STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+                Err(ser::Error::custom(
+                    "HCL structures are not permitted in this context",
+                ))
+            }
+            InternalHandle::Expr(ser) => take_object(ser.end()?),
         }
     }
 }
@@ -883,8 +931,8 @@ impl ser::Serializer for BlockSerializer {
         Ok(SerializeBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1030,13 +1078,15 @@ impl ser::SerializeMap for SerializeBlockMap {
 pub(crate) struct SerializeBlockStruct {
     ident: Identifier,
     structures: Vec<Structure>,
+    handle: Option<InternalHandle>,
 }
 
 impl SerializeBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
         SerializeBlockStruct {
             ident,
             structures: Vec::with_capacity(len),
+            handle: InternalHandle::new(name),
         }
     }
 }
@@ -1049,6 +1099,10 @@ impl ser::SerializeStruct for SerializeBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
+        if let Some(handle) = &mut self.handle {
+            return handle.serialize_field(key, value);
+        }
+
         let ident = Identifier::new(key)?;
 
         self.structures
@@ -1057,8 +1111,13 @@ impl ser::SerializeStruct for SerializeBlockStruct {
     }
 
     fn end(self) -> Result<Self::Ok> {
+        let structures = match self.handle {
+            Some(handle) => object_into_structures(handle.into_object()?)?,
+            None => self.structures,
+        };
+
         Ok(Block::builder(self.ident)
-            .add_structures(self.structures)
+            .add_structures(structures)
             .build()
             .into())
     }
@@ -1175,8 +1234,8 @@ impl ser::Serializer for LabeledBlockSerializer {
         Ok(SerializeLabeledBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeLabeledBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeLabeledBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1314,13 +1373,15 @@ impl ser::SerializeMap for SerializeLabeledBlockMap {
 pub(crate) struct SerializeLabeledBlockStruct {
     ident: Identifier,
     structures: Vec<Structure>,
+    handle: Option<InternalHandle>,
 }
 
 impl SerializeLabeledBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
         SerializeLabeledBlockStruct {
             ident,
             structures: Vec::with_capacity(len),
+            handle: InternalHandle::new(name),
         }
     }
 }
@@ -1333,12 +1394,29 @@ impl ser::SerializeStruct for SerializeLabeledBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
+        if let Some(handle) = &mut self.handle {
+            return handle.serialize_field(key, value);
+        }
+
         serialize_labeled_blocks(self.ident.clone(), value, &mut self.structures, |labels| {
             labels.insert(0, key.into());
         })
     }
 
-    fn end(self) -> Result<Self::Ok> {
+    fn end(mut self) -> Result<Self::Ok> {
+        if let Some(handle) = self.handle {
+            for (key, value) in handle.into_object()? {
+                let key = String::from(key);
+
+                serialize_labeled_blocks(
+                    self.ident.clone(),
+                    &value,
+                    &mut self.structures,
+                    |labels| labels.insert(0, BlockLabel::from(&key)),
+                )?;
+            }
+        }
+
         Ok(self.structures.into())
     }
 }
-- 
2.43.0


From c713cbcb810463fce71ead49b6407964a578ffa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 36/44] fix: serialize keys of object expressions as strings

---
 crates/hcl-rs/src/expr/ser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index 80968b5..b0a668a 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -64,7 +64,11 @@ impl ser::Serialize for Expression {
             Expression::Number(num) => num.serialize(serializer),
             Expression::String(s) => serializer.serialize_str(s),
             Expression::Array(array) => array.serialize(serializer),
-            Expression::Object(object) => object.serialize(serializer),
+            Expression::Object(object) => serializer.collect_map(
+                object
+                    .iter()
+                    .map(|(key, value)| (String::from(key.clone()), value)),
+            ),
             Expression::Parenthesis(expr) => expr.serialize(serializer),
             Expression::TemplateExpr(expr) => expr.serialize(serializer),
             Expression::FuncCall(func_call) => func_call.serialize(serializer),
-- 
2.43.0


From 15716ba402f2d3cc68cb1085b95f9783122f1623 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 37/44] fix: deserialize enums, newtypes and options from
 object keys

---
 crates/hcl-rs/src/expr/de.rs  | 47 +++++++++++++++++++++++++++++++----
 crates/hcl-rs/src/expr/mod.rs |  1 +
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index b1de944..8197080 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1109,22 +1109,59 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
-    fn deserialize_enum<V>(
+    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self {
+            ObjectKey::Expression(Expression::Null) => visitor.visit_none(),
+            key => visitor.visit_some(key),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
         self,
         _name: &'static str,
-        _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_enum(self)
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if name == "$hcl::ObjectKey" {
+            return visitor.visit_enum(self);
+        }
+
+        match self {
+            ObjectKey::Identifier(ident) => {
+                visitor.visit_enum(ident.into_inner().into_deserializer())
+            }
+            ObjectKey::Expression(expr) => expr.deserialize_enum(name, variants, visitor),
+        }
     }
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
-        bytes byte_buf option unit unit_struct newtype_struct seq
-        tuple tuple_struct map struct identifier ignored_any
+        bytes byte_buf unit unit_struct seq tuple tuple_struct
+        map struct ignored_any
     }
 }
 
diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 40e6c65..9a9f6be 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -288,6 +288,7 @@ impl Display for Expression {
 
 /// Represents an object key.
 #[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq)]
+#[serde(rename = "$hcl::ObjectKey")]
 #[non_exhaustive]
 pub enum ObjectKey {
     /// Represents an unquoted identifier used as object key.
-- 
2.43.0


From 122ca423be1f5b1d04a38c9bf1c9d486a6421e32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:41 +0000
Subject: [PATCH 38/44] fix: ignore parentheses when deserializing values of
 expressions

---
 crates/hcl-rs/src/expr/de.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 8197080..b7c9517 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -8,6 +8,15 @@ use serde::de::{self, Expected, IntoDeserializer, Unexpected, VariantAccess};
 use serde::{forward_to_deserialize_any, Deserializer};
 
 impl Expression {
+    // Parentheses do not make a difference to the value of an expression.
+    fn is_null(&self) -> bool {
+        match self {
+            Expression::Null => true,
+            Expression::Parenthesis(expr) => expr.is_null(),
+            _ => false,
+        }
+    }
+
     #[cold]
     fn invalid_type<E>(&self, exp: &dyn Expected) -> E
     where
@@ -286,6 +295,7 @@ macro_rules! impl_deserialize_number {
             {
                 match self {
                     Expression::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
+                    Expression::Parenthesis(expr) => expr.$method(visitor),
                     _ => Err(self.invalid_type(&visitor)),
                 }
             }
@@ -322,15 +332,15 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Null => visitor.visit_none(),
-            _ => visitor.visit_some(self),
+            expr if expr.is_null() => visitor.visit_none(),
+            expr => visitor.visit_some(expr),
         }
     }
 
     fn deserialize_enum<V>(
         self,
         name: &'static str,
-        _variants: &'static [&'static str],
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
@@ -347,6 +357,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             }
             Expression::Operation(v) => visitor.visit_enum(EnumAccess::new(*v)),
             Expression::TemplateExpr(v) => visitor.visit_enum(EnumAccess::new(*v)),
+            Expression::Parenthesis(expr) => expr.deserialize_enum(name, variants, visitor),
             _ => Err(self.invalid_type(&"string, object, operation or template expression")),
         }
     }
@@ -369,6 +380,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Bool(v) => visitor.visit_bool(v),
+            Expression::Parenthesis(expr) => expr.deserialize_bool(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -394,6 +406,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         match self {
             Expression::String(v) => visitor.visit_string(v),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
+            Expression::Parenthesis(expr) => expr.deserialize_string(visitor),
             other => {
                 let formatted = format::to_interpolated_string(&other)?;
                 visitor.visit_string(formatted)
@@ -415,6 +428,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         match self {
             Expression::String(v) => visitor.visit_string(v),
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(expr) => expr.deserialize_byte_buf(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -425,6 +439,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Null => visitor.visit_unit(),
+            Expression::Parenthesis(expr) => expr.deserialize_unit(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -446,6 +461,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(expr) => expr.deserialize_seq(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -481,14 +497,15 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Traversal(v) => visitor.visit_map(TraversalAccess::new(*v)),
             Expression::Operation(v) => v.deserialize_any(visitor),
             Expression::TemplateExpr(v) => v.deserialize_any(visitor),
+            Expression::Parenthesis(expr) => expr.deserialize_map(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
 
     fn deserialize_struct<V>(
         self,
-        _name: &'static str,
-        _fields: &'static [&'static str],
+        name: &'static str,
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
@@ -496,6 +513,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Parenthesis(expr) => expr.deserialize_struct(name, fields, visitor),
             other => other.deserialize_map(visitor),
         }
     }
@@ -1121,7 +1139,7 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         V: de::Visitor<'de>,
     {
         match self {
-            ObjectKey::Expression(Expression::Null) => visitor.visit_none(),
+            ObjectKey::Expression(expr) if expr.is_null() => visitor.visit_none(),
             key => visitor.visit_some(key),
         }
     }
-- 
2.43.0


From 8938e5598515572ad7b05e53d8d1914ab14b0fa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 39/44] fix: deserialize variables from variable expressions

---
 crates/hcl-rs/src/expr/de.rs       | 46 ++++++++++++++++++++++++++++--
 crates/hcl-rs/src/expr/variable.rs |  4 +--
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index b7c9517..73cb145 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -365,13 +365,22 @@ impl<'de> de::Deserializer<'de> for Expression {
     #[inline]
     fn deserialize_newtype_struct<V>(
         self,
-        _name: &'static str,
+        name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_newtype_struct(self)
+        match self {
+            // Variables are deserialized from their name, not from an interpolation.
+            Expression::Variable(var) if name == "$hcl::Variable" => {
+                var.into_deserializer().deserialize_any(visitor)
+            }
+            Expression::Parenthesis(expr) if name == "$hcl::Variable" => {
+                expr.deserialize_newtype_struct(name, visitor)
+            }
+            expr => visitor.visit_newtype_struct(expr),
+        }
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -1314,6 +1323,39 @@ impl<'de> de::MapAccess<'de> for HeredocAccess {
     }
 }
 
+impl<'de> de::Deserialize<'de> for Variable {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: de::Deserializer<'de>,
+    {
+        struct VariableVisitor;
+
+        impl<'de> de::Visitor<'de> for VariableVisitor {
+            type Value = Variable;
+
+            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                f.write_str("an HCL variable")
+            }
+
+            fn visit_str<E>(self, value: &str) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                Variable::new(value).map_err(de::Error::custom)
+            }
+
+            fn visit_newtype_struct<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
+            where
+                D: de::Deserializer<'de>,
+            {
+                Identifier::deserialize(deserializer).map(Variable::from)
+            }
+        }
+
+        deserializer.deserialize_newtype_struct("$hcl::Variable", VariableVisitor)
+    }
+}
+
 impl IntoDeserializer<'_, Error> for Variable {
     type Deserializer = StringDeserializer<Error>;
 
diff --git a/crates/hcl-rs/src/expr/variable.rs b/crates/hcl-rs/src/expr/variable.rs
index 687be4e..5dfff26 100644
--- a/crates/hcl-rs/src/expr/variable.rs
+++ b/crates/hcl-rs/src/expr/variable.rs
@@ -1,5 +1,4 @@
 use crate::{Identifier, InternalString, Result};
-use serde::Deserialize;
 use std::ops::Deref;
 
 /// A type representing a variable in an HCL expression.
@@ -9,8 +8,7 @@ use std::ops::Deref;
 ///
 /// This is a separate type to differentiate between bare identifiers and variable identifiers
 /// which have different semantics in different scopes.
-#[derive(Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
-#[serde(transparent)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Variable(Identifier);
 
 impl Variable {
-- 
2.43.0


From 16f9cf202514da185f9976de8b832795ceedff23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 40/44] fix: deserialize newtypes from values and options from
 documents

---
 crates/hcl-rs/src/de/mod.rs   |  9 ++++-
 crates/hcl-rs/src/value/de.rs | 69 +++++++++++++++++++++++++++++++++--
 2 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-rs/src/de/mod.rs b/crates/hcl-rs/src/de/mod.rs
index 0058ee4..fb23cac 100644
--- a/crates/hcl-rs/src/de/mod.rs
+++ b/crates/hcl-rs/src/de/mod.rs
@@ -223,6 +223,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         self.body.into_json_spec().deserialize_any(visitor)
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V>(
         self,
         name: &'static str,
@@ -258,7 +265,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..7e3d83e 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -1,7 +1,8 @@
 use super::{Map, Value};
 use crate::{Error, Number, Result};
 use indexmap::map;
-use serde::de::{self, value::StringDeserializer, IntoDeserializer, Visitor};
+use serde::de::value::{MapDeserializer, StringDeserializer};
+use serde::de::{self, IntoDeserializer, Visitor};
 use serde::{forward_to_deserialize_any, Deserialize, Deserializer};
 use std::fmt;
 
@@ -123,7 +124,9 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
             Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
-            Value::Object(object) => visitor.visit_map(object.into_deserializer()),
+            Value::Object(object) => visitor.visit_map(MapDeserializer::new(
+                object.into_iter().map(|(key, value)| (MapKey(key), value)),
+            )),
         }
     }
 
@@ -137,6 +140,13 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
         }
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -155,11 +165,64 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
 
+struct MapKey(String);
+
+impl IntoDeserializer<'_, Error> for MapKey {
+    type Deserializer = Self;
+
+    fn into_deserializer(self) -> Self::Deserializer {
+        self
+    }
+}
+
+impl<'de> de::Deserializer<'de> for MapKey {
+    type Error = Error;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(self.0.into_deserializer())
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 struct EnumAccess {
     iter: map::IntoIter<String, Value>,
 }
-- 
2.43.0


From 33b30ea8d066240c348b6bed0cd118480631b4d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 41/44] fix: match directories with glob characters in their
 names

---
 crates/hcl2json/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 8b35cab..08ad0e5 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -86,7 +86,9 @@ fn main() -> Result<()> {
                     bail!("--glob is required if directory arguments are specified")
                 };
 
-                let path_pattern = path.join(pattern);
+                // Only the pattern is a glob, the path of the directory has to match literally.
+                let path_pattern =
+                    Path::new(&globset::escape(&path.to_string_lossy())).join(pattern);
 
                 let matcher = GlobBuilder::new(&path_pattern.to_string_lossy())
                     .literal_separator(true)
-- 
2.43.0


From 5a276a6ba23ea14a4cd21d6028f0cec305cadc5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 42/44] fix: compare whether the final argument of function
 calls is expanded

---
 crates/hcl-edit/src/expr/func_call.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/func_call.rs b/crates/hcl-edit/src/expr/func_call.rs
index c4905df..fe7f7e6 100644
--- a/crates/hcl-edit/src/expr/func_call.rs
+++ b/crates/hcl-edit/src/expr/func_call.rs
@@ -254,6 +254,7 @@ impl FuncArgs {
 impl PartialEq for FuncArgs {
     fn eq(&self, other: &Self) -> bool {
         self.args == other.args
+            && self.expand_final == other.expand_final
             && self.trailing_comma == other.trailing_comma
             && self.trailing == other.trailing
     }
-- 
2.43.0


From 4a14ed6e8c4448f500069360e28c2015d6a12dbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:30 +0000
Subject: [PATCH 43/44] fix: to_value called by an implementation of Serialize
 sees plain data

Serializers of documents and expressions set a flag which makes parts of
documents hand themselves over by an internal handle. It stayed set when
an implementation which runs for one of them called to_value, which then
turned expressions and structures into {handle = N}.
---
 crates/hcl-rs/src/ser/mod.rs   | 11 ++++++++++-
 crates/hcl-rs/src/value/mod.rs |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/ser/mod.rs b/crates/hcl-rs/src/ser/mod.rs
index 4f5e3f5..c97d5ba 100644
--- a/crates/hcl-rs/src/ser/mod.rs
+++ b/crates/hcl-rs/src/ser/mod.rs
@@ -288,9 +288,18 @@ pub(crate) fn in_internal_serialization() -> bool {
 }
 
 pub(crate) fn with_internal_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    with_serialization(true, f)
+}
+
+/// Runs a serializer which does not understand handles, no matter which serializer is calling.
+pub(crate) fn with_external_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    with_serialization(false, f)
+}
+
+fn with_serialization<R, F: FnOnce() -> R>(internal: bool, f: F) -> R {
     INTERNAL_SERIALIZATION.with(|flag| {
         let old = flag.load(Ordering::Relaxed);
-        flag.store(true, Ordering::Relaxed);
+        flag.store(internal, Ordering::Relaxed);
         let _on_drop = OnDrop::new(|| {
             flag.store(old, Ordering::Relaxed);
         });
diff --git a/crates/hcl-rs/src/value/mod.rs b/crates/hcl-rs/src/value/mod.rs
index d61490c..7bfae8f 100644
--- a/crates/hcl-rs/src/value/mod.rs
+++ b/crates/hcl-rs/src/value/mod.rs
@@ -9,6 +9,7 @@ use std::fmt;
 use serde::{de::DeserializeOwned, ser::Serialize};
 
 use self::{de::ValueDeserializer, ser::ValueSerializer};
+use crate::ser::with_external_serialization;
 use crate::{format, Number, Result};
 
 /// The map type used for HCL objects.
@@ -250,7 +251,7 @@ pub fn to_value<T>(value: T) -> Result<Value>
 where
     T: Serialize,
 {
-    value.serialize(ValueSerializer)
+    with_external_serialization(|| value.serialize(ValueSerializer))
 }
 
 /// Convert a `hcl::Value` into a type `T` that implements `serde::Deserialize`.
-- 
2.43.0


From d5e4e66ce08892fe6f8a4c87d883e135757413be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:30 +0000
Subject: [PATCH 44/44] fix: refuse expressions and structures which are
 flattened or tagged inside

Flattening an expression, attribute or block into a struct wrote its
internal handle as an attribute of the document, and an internally tagged
variant with one of them panicked.
---
 crates/hcl-rs/src/expr/ser/mod.rs | 19 +++++++++++++++++--
 crates/hcl-rs/src/ser/mod.rs      | 29 ++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index b0a668a..509775c 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -4,7 +4,9 @@
 mod tests;
 
 use super::*;
-use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::ser::{
+    in_internal_serialization, InternalHandles, SerializeInternalHandleStruct, HANDLE_MARKER,
+};
 use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
@@ -95,9 +97,22 @@ impl ser::Serializer for ExpressionSerializer {
     type SerializeStruct = SerializeExpressionStruct;
     type SerializeStructVariant = SerializeExpressionStructVariant;
 
-    serialize_self! { some newtype_struct }
+    serialize_self! { some }
     forward_to_serialize_seq! { tuple tuple_struct }
 
+    fn serialize_newtype_struct<T>(self, name: &'static str, value: &T) -> Result<Self::Ok>
+    where
+        T: ?Sized + ser::Serialize,
+    {
+        if name == HANDLE_MARKER {
+            return Err(ser::Error::custom(
+                "HCL structures and expressions cannot be flattened",
+            ));
+        }
+
+        value.serialize(self)
+    }
+
     fn serialize_bool(self, value: bool) -> Result<Self::Ok> {
         Ok(Expression::Bool(value))
     }
diff --git a/crates/hcl-rs/src/ser/mod.rs b/crates/hcl-rs/src/ser/mod.rs
index c97d5ba..16df5eb 100644
--- a/crates/hcl-rs/src/ser/mod.rs
+++ b/crates/hcl-rs/src/ser/mod.rs
@@ -530,15 +530,31 @@ impl ser::Serializer for U64Serializer {
 
     serialize_unsupported! {
         i8 i16 i32 i64 u8 u16 u32 f32 f64 char str bool bytes
-        unit unit_variant unit_struct newtype_struct newtype_variant
+        unit unit_variant unit_struct newtype_variant
         some none seq tuple tuple_struct tuple_variant map struct struct_variant
     }
+    serialize_self! { newtype_struct }
 
     fn serialize_u64(self, value: u64) -> Result<Self::Ok> {
         Ok(value)
     }
 }
 
+pub(crate) const HANDLE_MARKER: &str = "\x00$hcl::Handle";
+
+// A handle is only understood by the serializers of handle structs. All other serializers have to
+// refuse it, e.g. if the fields of a handle struct are flattened into a map.
+struct Handle(usize);
+
+impl Serialize for Handle {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_newtype_struct(HANDLE_MARKER, &self.0)
+    }
+}
+
 pub(crate) struct SerializeInternalHandleStruct {
     handle: Option<u64>,
 }
@@ -557,7 +573,14 @@ impl ser::SerializeStruct for SerializeInternalHandleStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        assert_eq!(key, "handle", "bad handle struct");
+        // Fields which other serializers add, e.g. the tag of an internally tagged enum, have no
+        // place in the value behind the handle.
+        if key != "handle" {
+            return Err(ser::Error::custom(format!(
+                "field `{key}` is not permitted in this context"
+            )));
+        }
+
         self.handle = Some(value.serialize(U64Serializer)?);
         Ok(())
     }
@@ -598,7 +621,7 @@ impl<T> InternalHandles<T> {
         let handle = self.last_handle.fetch_add(1, Ordering::Relaxed);
         self.handles.borrow_mut().insert(handle, value.into());
         let mut s = serializer.serialize_struct(self.marker, 1)?;
-        s.serialize_field("handle", &handle)?;
+        s.serialize_field("handle", &Handle(handle))?;
         s.end()
     }
 }
-- 
2.43.0

