From 3ff16e2308c7eda812d86cf728ae02a55725474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 01/42] fix: make vm-js compile (one Realm::id, thrown
 completions carry a stack)

---
 vm-js/src/exec.rs  | 6 +++---
 vm-js/src/realm.rs | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/vm-js/src/exec.rs b/vm-js/src/exec.rs
index 4e5dda8..c4135d0 100644
--- a/vm-js/src/exec.rs
+++ b/vm-js/src/exec.rs
@@ -1805,7 +1805,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype cycle",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::PrototypeChainTooDeep) => {
         let intr = self
@@ -1818,7 +1818,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "prototype chain too deep",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::InvalidPropertyDescriptorPatch) => {
         let intr = self
@@ -1831,7 +1831,7 @@ impl<'a> Evaluator<'a> {
           "TypeError",
           "invalid property descriptor patch: cannot mix data and accessor fields",
         )?;
-        Ok(Completion::Throw(err))
+        Ok(Completion::Throw(thrown_at_stmt(err)))
       }
       Err(VmError::NotCallable) => {
         let intr = self
diff --git a/vm-js/src/realm.rs b/vm-js/src/realm.rs
index e464557..a4d9c3f 100644
--- a/vm-js/src/realm.rs
+++ b/vm-js/src/realm.rs
@@ -279,19 +279,11 @@ impl Realm {
     })
   }
 
-  pub fn id(&self) -> RealmId {
-    self.id
-  }
-
   /// The realm's global object.
   pub fn global_object(&self) -> GcObject {
     self.global_object
   }
 
-  pub fn id(&self) -> RealmId {
-    RealmId::from_raw(self.global_object.id().0)
-  }
-
   /// The realm's intrinsic objects.
   pub fn intrinsics(&self) -> &Intrinsics {
     &self.intrinsics
-- 
2.43.0


From 85d86188905a27b8fed45a2d59cb3dffe74c50d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 02/42] fix: an arrow expression body is not a comma sequence

---
 parse-js/src/parse/expr/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 54d37bc..c75c5cd 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -365,8 +365,15 @@ impl<'a> Parser<'a> {
           }
           _ => {
             p.validate_formal_parameters(None, &parameters, simple_params, true)?;
+            // The body is an `AssignmentExpression`: `() => a, b` is `(() => a), b`. The
+            // recovering dialects still take the whole sequence.
+            let min_prec = if p.is_strict_ecmascript() {
+              OPERATORS[&OperatorName::ConditionalAlternate].precedence
+            } else {
+              OPERATORS[&OperatorName::Comma].precedence
+            };
             Ok(
-              p.expr_with_asi(fn_body_ctx, terminators, &mut Asi::can())?
+              p.expr_with_min_prec(fn_body_ctx, min_prec, terminators, &mut Asi::can())?
                 .into(),
             )
           }
-- 
2.43.0


From 50bec71f2098cecf91f9e2577d21a74a124dc8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 03/42] fix: a tagged template is part of the callee of `new`

---
 parse-js/src/parse/expr/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index c75c5cd..bafea9f 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1018,6 +1018,22 @@ impl<'a> Parser<'a> {
                       .into_wrapped();
                       continue;
                     }
+                    // A tagged template is a MemberExpression (`new tag`x`()`).
+                    TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
+                      let loc = p.peek().loc;
+                      let (parts, template_parts) =
+                        p.lit_template_parts_with_template_data(ctx, true)?;
+                      let mut node = Node::new(
+                        callee.loc + loc,
+                        TaggedTemplateExpr {
+                          function: callee,
+                          parts,
+                        },
+                      );
+                      node.assoc.set(template_parts);
+                      callee = node.into_wrapped();
+                      continue;
+                    }
                     _ => break,
                   }
                 }
-- 
2.43.0


From 5e32d8d780381e1785985f90f04dd1313fc69fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 04/42] fix: a line break ends a statement after an arrow
 function

---
 parse-js/src/parse/expr/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index bafea9f..01cb075 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1343,6 +1343,19 @@ impl<'a> Parser<'a> {
         break;
       };
 
+      // An arrow function cannot be the operand of any operator, so a LineTerminator after
+      // it ends the statement (e.g. `() => {}\n(f())`).
+      if asi_allowed
+        && t.preceded_by_line_terminator
+        && t.typ != TT::Comma
+        && matches!(left.stx.as_ref(), Expr::ArrowFunc(_))
+        && left.assoc.get::<ParenthesizedExpr>().is_none()
+      {
+        self.restore_checkpoint(cp);
+        asi.did_end_with_asi = true;
+        break;
+      }
+
       match t.typ {
         // Automatic Semicolon Insertion rules: no newline between operand and postfix operator.
         TT::PlusPlus | TT::HyphenHyphen if !t.preceded_by_line_terminator => {
-- 
2.43.0


From 0a67c3f533e76647d156deaf8bd9850f11073558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 05/42] fix: keep the targets of object literals reinterpreted
 as patterns

---
 parse-js/src/parse/expr/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index bc81fb3..0a56457 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -164,7 +164,7 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
                   key,
                   target,
                   default_value,
-                  shorthand: true,
+                  shorthand: false,
                 },
               ));
             }
-- 
2.43.0


From 9c0a428b13f4fc10b41cf0cd75f85a9922534f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 06/42] fix: `type`, `declare` and `abstract` before a line
 break are identifiers

---
 parse-js/src/parse/stmt/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 5c05bfc..3e1e3d3 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -45,7 +45,8 @@ impl<'a> Parser<'a> {
     // - `type;` / `type: label` (expression/label, not a declaration)
     let checkpoint = self.checkpoint();
     self.consume(); // type
-    if self.require_identifier_or_ts_keyword().is_err() {
+    // `type` followed by a line terminator is an identifier expression statement.
+    if self.peek().preceded_by_line_terminator || self.require_identifier_or_ts_keyword().is_err() {
       self.reset_to(checkpoint.next_tok_i);
       return false;
     }
@@ -154,8 +155,8 @@ impl<'a> Parser<'a> {
       TT::KeywordNamespace | TT::KeywordModule if matches!(t1.typ, TT::Identifier | TT::LiteralString) => self.namespace_or_module_decl(ctx, false, false)?,
       // TypeScript: `declare` keyword - but check if it's being used as an identifier
       // Error recovery: `declare \`template\`` is a tagged template, not a declare statement
-      TT::KeywordDeclare if t1.typ != TT::LiteralTemplatePartString && t1.typ != TT::LiteralTemplatePartStringEnd => self.declare_stmt(ctx)?,
-      TT::KeywordAbstract if t1.typ == TT::KeywordClass => self.abstract_class_decl(ctx)?.into_wrapped(),
+      TT::KeywordDeclare if !t1.preceded_by_line_terminator && t1.typ != TT::LiteralTemplatePartString && t1.typ != TT::LiteralTemplatePartStringEnd => self.declare_stmt(ctx)?,
+      TT::KeywordAbstract if t1.typ == TT::KeywordClass && !t1.preceded_by_line_terminator => self.abstract_class_decl(ctx)?.into_wrapped(),
       // Error recovery: `accessor` keyword in invalid positions (accessor class, accessor function, etc.)
       // Skip the accessor keyword and continue parsing the statement
       TT::KeywordAccessor if matches!(t1.typ, TT::KeywordClass | TT::KeywordFunction | TT::KeywordInterface | TT::KeywordType | TT::KeywordEnum | TT::KeywordNamespace | TT::KeywordModule | TT::KeywordVar | TT::KeywordConst | TT::KeywordLet | TT::KeywordImport | TT::KeywordExport) => {
-- 
2.43.0


From 49b20a67b199c9208a6da26ada2ccd77cbf44594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 07/42] fix: keep whitespace-only JSX text before a closing tag

---
 parse-js/src/parse/expr/jsx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/jsx.rs b/parse-js/src/parse/expr/jsx.rs
index 06d74d0..ade745a 100644
--- a/parse-js/src/parse/expr/jsx.rs
+++ b/parse-js/src/parse/expr/jsx.rs
@@ -218,11 +218,17 @@ impl<'a> Parser<'a> {
     let mut children = Vec::<JsxElemChild>::new();
     loop {
       let ahead = self.peek_with_mode(LexMode::JsxTag);
-      if matches!(ahead.typ, TT::ChevronLeftSlash | TT::EOF) {
+      if ahead.typ == TT::EOF {
         break;
       }
       let text = self.require_with_mode(TT::JsxTextContent, LexMode::JsxTextContent)?;
-      if !text.loc.is_empty() {
+      // Whitespace directly before the closing tag is significant only within a
+      // line.
+      let insignificant = ahead.typ == TT::ChevronLeftSlash && {
+        let text = self.str(text.loc);
+        text.contains(['\n', '\r']) && text.bytes().all(|b| b.is_ascii_whitespace())
+      };
+      if !text.loc.is_empty() && !insignificant {
         children.push(JsxElemChild::Text(Node::new(
           text.loc,
           JsxText {
-- 
2.43.0


From 2493c400d858ac2492f2ce591aa46d666623c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 08/42] fix: normalise CR and CRLF in template literals

---
 parse-js/src/parse/expr/lit.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index d25dd19..be4560c 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -431,6 +431,15 @@ fn decode_escape_sequence_utf16(
   }
 }
 
+/// The template raw value of a segment, in which <CR> and <CR><LF> read as <LF>.
+fn template_raw_value(content: &str) -> Box<[u16]> {
+  content
+    .replace("\r\n", "\n")
+    .replace('\r', "\n")
+    .encode_utf16()
+    .collect()
+}
+
 fn decode_literal(raw: &str, allow_line_terminators: bool) -> Result<String, LiteralError> {
   let mut norm = String::new();
   let mut offset = 0;
@@ -446,6 +455,13 @@ fn decode_literal(raw: &str, allow_line_terminators: bool) -> Result<String, Lit
         norm.push(c);
       }
       offset = after_backslash + consumed;
+    } else if allow_line_terminators && ch == '\r' {
+      // Template literals normalise <CR> and <CR><LF> to <LF>.
+      norm.push('\n');
+      offset += ch.len_utf8();
+      if raw[offset..].starts_with('\n') {
+        offset += 1;
+      }
     } else {
       // ECMAScript 2019 permits U+2028/U+2029 (line/paragraph separators) in
       // string literals; only CR/LF terminate literal lines.
@@ -484,6 +500,13 @@ fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u
         }
       }
       offset = after_backslash + consumed;
+    } else if allow_line_terminators && ch == '\r' {
+      // Template literals normalise <CR> and <CR><LF> to <LF>.
+      norm.push(0x0a);
+      offset += ch.len_utf8();
+      if raw[offset..].starts_with('\n') {
+        offset += 1;
+      }
     } else {
       // ECMAScript 2019 permits U+2028/U+2029 (line/paragraph separators) in
       // string literals; only CR/LF terminate literal lines.
@@ -1193,7 +1216,7 @@ impl<'a> Parser<'a> {
     let raw = self.bytes(t.loc);
     let (content_offset, first_content) =
       template_content(raw, is_end).ok_or_else(|| t.error(SyntaxErrorType::UnexpectedEnd))?;
-    let first_raw = first_content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+    let first_raw = template_raw_value(first_content);
     raw_parts.push(first_raw);
     let first_legacy_escape = find_legacy_escape_sequence(first_content);
     if !tagged && invalid_escape.is_none() {
@@ -1249,7 +1272,7 @@ impl<'a> Parser<'a> {
         let raw = self.bytes(string.loc);
         let (offset, content) = template_content(raw, string_is_end)
           .ok_or_else(|| string.error(SyntaxErrorType::UnexpectedEnd))?;
-        let raw_part = content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+        let raw_part = template_raw_value(content);
         raw_parts.push(raw_part);
         let legacy_escape = find_legacy_escape_sequence(content);
         if !tagged && invalid_escape.is_none() {
-- 
2.43.0


From e9feddbbf3067a37d0a036c8edff419e85a7b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 09/42] fix: `get(`, `set(` and `async(` name object members

---
 parse-js/src/parse/class_or_object.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 06ff355..64756c2 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -1603,7 +1603,9 @@ impl<'a> Parser<'a> {
         let (k, v) = self.class_or_obj_method(ctx, abstract_)?;
         (k, v.into())
       }
-      (TT::KeywordAsync, _, TT::ParenthesisOpen, _) if !b.preceded_by_line_terminator => {
+      (TT::KeywordAsync, _, TT::ParenthesisOpen, _)
+        if !b.preceded_by_line_terminator && Self::can_follow_class_member_modifier(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_method(ctx, abstract_)?;
         (k, v.into())
       }
@@ -1636,7 +1638,9 @@ impl<'a> Parser<'a> {
       }
       // Getter (may have invalid type parameters like get foo<T>())
       // Error recovery: also handle getters without parentheses like "get e"
-      (TT::KeywordGet, _, TT::ParenthesisOpen, _) | (TT::KeywordGet, _, TT::ChevronLeft, _) => {
+      (TT::KeywordGet, _, TT::ParenthesisOpen, _) | (TT::KeywordGet, _, TT::ChevronLeft, _)
+        if Self::can_follow_class_member_modifier(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_getter_impl(ctx, abstract_)?;
         (k, v.into())
       }
@@ -1661,7 +1665,9 @@ impl<'a> Parser<'a> {
       }
       // Setter (may have invalid type parameters like set foo<T>(x))
       // Error recovery: also handle setters without parentheses like "set f"
-      (TT::KeywordSet, _, TT::ParenthesisOpen, _) | (TT::KeywordSet, _, TT::ChevronLeft, _) => {
+      (TT::KeywordSet, _, TT::ParenthesisOpen, _) | (TT::KeywordSet, _, TT::ChevronLeft, _)
+        if Self::can_follow_class_member_modifier(b.typ) =>
+      {
         let (k, v) = self.class_or_obj_setter_impl(ctx, abstract_)?;
         (k, v.into())
       }
-- 
2.43.0


From a9068b4ffe8571a396f71ee0d48df19f890428d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 10/42] fix: class member modifiers are contextual and
 unordered

---
 parse-js/src/parse/class_or_object.rs | 97 +++++++++++++++++----------
 1 file changed, 62 insertions(+), 35 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 64756c2..943ec33 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -71,6 +71,53 @@ impl<'a> Parser<'a> {
     )
   }
 
+  fn can_follow_class_member_modifier(tt: TT) -> bool {
+    matches!(
+      tt,
+      TT::At
+        | TT::Asterisk
+        | TT::BracketOpen
+        | TT::Identifier
+        | TT::LiteralBigInt
+        | TT::LiteralNumber
+        | TT::LiteralString
+        | TT::PrivateMember
+    ) || KEYWORDS_MAPPING.contains_key(&tt)
+  }
+
+  /// Consumes `keyword` if it is a modifier here rather than the name of the member.
+  fn consume_class_member_modifier(&mut self, keyword: TT) -> bool {
+    let [t, next] = self.peek_n::<2>();
+    t.typ == keyword
+      && !next.preceded_by_line_terminator
+      && Self::can_follow_class_member_modifier(next.typ)
+      && self.consume_if(keyword).is_match()
+  }
+
+  fn class_member_modifiers(
+    &mut self,
+    accessibility: &mut Option<crate::ast::stmt::decl::Accessibility>,
+    abstract_: &mut bool,
+    override_: &mut bool,
+  ) {
+    use crate::ast::stmt::decl::Accessibility;
+    loop {
+      if self.consume_class_member_modifier(TT::KeywordPublic) {
+        *accessibility = Some(Accessibility::Public);
+      } else if self.consume_class_member_modifier(TT::KeywordPrivate) {
+        *accessibility = Some(Accessibility::Private);
+      } else if self.consume_class_member_modifier(TT::KeywordProtected) {
+        *accessibility = Some(Accessibility::Protected);
+      } else if self.consume_class_member_modifier(TT::KeywordAbstract) {
+        *abstract_ = true;
+      } else if self.consume_class_member_modifier(TT::KeywordOverride) {
+        *override_ = true;
+      } else {
+        break;
+      }
+    }
+  }
+
   /// Creates a synthetic empty key for special class members (static blocks, index signatures, generators).
   /// These members don't have real keys in the source code.
   fn create_synthetic_class_key(&self) -> ClassOrObjKey {
@@ -187,38 +234,13 @@ impl<'a> Parser<'a> {
           Vec::new()
         };
 
-        // Parse TypeScript modifiers in order:
-        // [accessibility] [abstract] [override] [static] [readonly]
-
-        // TypeScript: accessibility modifiers (public, private, protected)
-        // Error recovery: allow duplicate modifiers
+        // Parse modifiers. Error recovery: allow duplicates and any order around `static`.
+        // A modifier keyword not followed (on the same line) by something that can start a
+        // member name is itself the name of the member.
         let mut accessibility = None;
-        while p.peek().typ == TT::KeywordPublic
-          || p.peek().typ == TT::KeywordPrivate
-          || p.peek().typ == TT::KeywordProtected
-        {
-          if p.consume_if(TT::KeywordPublic).is_match() {
-            accessibility = Some(crate::ast::stmt::decl::Accessibility::Public);
-          } else if p.consume_if(TT::KeywordPrivate).is_match() {
-            accessibility = Some(crate::ast::stmt::decl::Accessibility::Private);
-          } else if p.consume_if(TT::KeywordProtected).is_match() {
-            accessibility = Some(crate::ast::stmt::decl::Accessibility::Protected);
-          }
-        }
-
-        // TypeScript: abstract modifier
-        // Error recovery: allow duplicate abstract modifiers
-        let mut abstract_ = ambient;
-        while p.consume_if(TT::KeywordAbstract).is_match() {
-          abstract_ = true;
-        }
-
-        // TypeScript: override modifier
-        // Error recovery: allow duplicate override modifiers
+        let mut explicit_abstract = false;
         let mut override_ = false;
-        while p.consume_if(TT::KeywordOverride).is_match() {
-          override_ = true;
-        }
+        p.class_member_modifiers(&mut accessibility, &mut explicit_abstract, &mut override_);
 
         // `static` must always come after other modifiers
         let static_ = if p.peek().typ == TT::KeywordStatic {
@@ -268,8 +290,8 @@ impl<'a> Parser<'a> {
               type_annotation: None,
               val: ClassOrObjVal::StaticBlock(block),
             });
-          } else if next.typ == TT::ParenthesisOpen {
-            // `static()` - it's a method name, not a modifier
+          } else if !Self::can_follow_class_member_modifier(next.typ) {
+            // e.g. `static()` or `static = 1`: a member name, not a modifier
             false
           } else {
             p.consume_if(TT::KeywordStatic).is_match()
@@ -277,18 +299,23 @@ impl<'a> Parser<'a> {
         } else {
           false
         };
+        if static_ {
+          p.class_member_modifiers(&mut accessibility, &mut explicit_abstract, &mut override_);
+        }
+        // Members of ambient and abstract classes may have no body.
+        let abstract_ = ambient || explicit_abstract;
 
         // TypeScript: readonly modifier
         // Error recovery: allow duplicate readonly modifiers
         let mut readonly = false;
-        while p.consume_if(TT::KeywordReadonly).is_match() {
+        while p.consume_class_member_modifier(TT::KeywordReadonly) {
           readonly = true;
         }
 
         // TypeScript/JavaScript: accessor modifier for auto-accessors
         // Error recovery: allow duplicate accessor modifiers
         let mut accessor = false;
-        while p.consume_if(TT::KeywordAccessor).is_match() {
+        while p.consume_class_member_modifier(TT::KeywordAccessor) {
           accessor = true;
         }
 
@@ -453,7 +480,7 @@ impl<'a> Parser<'a> {
           decorators,
           key,
           static_,
-          abstract_,
+          abstract_: explicit_abstract,
           readonly,
           accessor,
           optional,
-- 
2.43.0


From bd0105f792955b04fb39eefb153c813765b6a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 11/42] fix: `typeof` is not a binary operator

---
 parse-js/src/parse/operator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse-js/src/parse/operator.rs b/parse-js/src/parse/operator.rs
index a28f239..2a23835 100644
--- a/parse-js/src/parse/operator.rs
+++ b/parse-js/src/parse/operator.rs
@@ -58,7 +58,6 @@ pub static MULTARY_OPERATOR_MAPPING: Lazy<HashMap<TT, &'static Operator>> = Lazy
   map.insert(TT::EqualsEqualsEquals, &OPERATORS[&OperatorName::StrictEquality]);
   map.insert(TT::ExclamationEqualsEquals, &OPERATORS[&OperatorName::StrictInequality]);
   map.insert(TT::Hyphen, &OPERATORS[&OperatorName::Subtraction]);
-  map.insert(TT::KeywordTypeof, &OPERATORS[&OperatorName::Typeof]);
   map
 });
 
-- 
2.43.0


From 76e1bb76dd6e5a96def4df9e454b97431a919605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 12/42] fix: `export @dec class` exports the class

---
 parse-js/src/parse/import_export.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/import_export.rs b/parse-js/src/parse/import_export.rs
index 06f8e5e..19572e7 100644
--- a/parse-js/src/parse/import_export.rs
+++ b/parse-js/src/parse/import_export.rs
@@ -641,7 +641,9 @@ impl<'a> Parser<'a> {
       (TT::At, _) if self.should_recover() => {
         self.consume(); // export
         // The class_decl function will handle the decorators
-        self.class_decl(ctx)?.into_wrapped()
+        let mut decl = self.class_decl(ctx)?;
+        decl.stx.export = true;
+        decl.into_wrapped()
       },
       (TT::KeywordDeclare, _) if self.is_typescript() => {
         // For "export declare", we need to handle it specially to pass export=true
-- 
2.43.0


From a7d0f45813976ad4d0c764191a6462b1859c8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 13/42] fix: tokens that start a type argument list element

---
 parse-js/src/parse/type_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index c9d54e4..f7650e6 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -704,7 +704,11 @@ impl<'a> Parser<'a> {
       | TT::LiteralTrue
       | TT::LiteralFalse
       | TT::LiteralNull
-      | TT::LiteralTemplatePartString => true,
+      | TT::LiteralTemplatePartString
+      | TT::LiteralTemplatePartStringEnd => true,
+
+      // Negative literals, leading `|`/`&`, and `import("m")` types
+      TT::Hyphen | TT::Bar | TT::Ampersand | TT::KeywordImport => true,
 
       // Identifier followed by type-like punctuation
       TT::Identifier => {
-- 
2.43.0


From 46d2da74d2276b62090f46cbf1cf7a8787bc1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 14/42] fix: postfix types bind tighter than `keyof`

---
 parse-js/src/parse/type_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index f7650e6..69c51a1 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -797,7 +797,8 @@ impl<'a> Parser<'a> {
   fn keyof_type(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
     self.require(TT::KeywordKeyof)?;
-    let type_expr = self.type_primary(ctx)?;
+    // Postfix types bind tighter: `keyof T[]` is `keyof (T[])`.
+    let type_expr = self.type_array_or_postfix(ctx)?;
     let end_loc = type_expr.loc;
     use crate::loc::Loc;
     let outer_loc = Loc(start_loc.0, end_loc.1);
-- 
2.43.0


From 0c4dbf2df6e5113aa4609686387953efb7191c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 15/42] fix: `readonly` may name a type member

---
 parse-js/src/parse/type_expr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index 69c51a1..86cf085 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -950,7 +950,17 @@ impl<'a> Parser<'a> {
   /// Parse a single type member
   fn type_member(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeMember>> {
     let checkpoint = self.checkpoint();
-    let readonly = self.consume_if(TT::KeywordReadonly).is_match();
+    // `readonly` may also be the name of the member.
+    let readonly = !matches!(
+      self.peek_n::<2>()[1].typ,
+      TT::Colon
+        | TT::Question
+        | TT::ParenthesisOpen
+        | TT::ChevronLeft
+        | TT::Comma
+        | TT::Semicolon
+        | TT::BraceClose
+    ) && self.consume_if(TT::KeywordReadonly).is_match();
 
     // Check for index signature vs mapped property vs computed property
     // [key: string]: T vs [K in T]: V vs [Symbol.iterator]?: T
-- 
2.43.0


From 67ae54879cf9200787bfef67a274f18724d5cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 16/42] fix: emit parentheses, escapes and raw template text
 that re-read as the same program

Comma expressions where one expression is expected, callees of `new`, ended
optional chains, type assertions under tighter operators (`as` binds like a
relational operator), directives, expression statements, lone surrogates.
---
 emit-js/src/emitter.rs         |  18 ++++-
 emit-js/src/escape.rs          |  93 ++++++++++++++++++++++--
 emit-js/src/expr.rs            |  66 +++++++++--------
 emit-js/src/expr_js.rs         | 125 +++++++++++++++++++++------------
 emit-js/src/hir.rs             |  76 +++++++++++---------
 emit-js/src/pat.rs             |  24 +++++--
 emit-js/src/precedence.rs      |  91 +++++++++++++++++++++---
 emit-js/src/stmt.rs            |  47 ++++++++-----
 hir-js/src/lower.rs            |   8 ++-
 parse-js/src/parse/expr/mod.rs |   8 +++
 10 files changed, 412 insertions(+), 144 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 4afe538..360a046 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -10,7 +10,8 @@
 //! [`Emitter::write_str`] for a single lexical token or whitespace-only
 //! fragments (e.g. indentation, newlines).
 
-use crate::escape::emit_string_literal;
+use crate::escape::{emit_string_literal, emit_string_literal_with_assoc};
+use parse_js::ast::node::NodeAssocData;
 use parse_js::loc::Loc;
 use std::fmt;
 
@@ -338,6 +339,21 @@ impl Emitter {
     self.write_str(rendered);
   }
 
+  /// Emits a string literal, preferring the exact code units recorded by the
+  /// parser over the lossy `value`.
+  pub(crate) fn write_string_literal_with_assoc(&mut self, value: &str, assoc: &NodeAssocData) {
+    let mut buf = Vec::new();
+    emit_string_literal_with_assoc(
+      &mut buf,
+      value,
+      assoc,
+      self.opts.quote_style,
+      self.opts.minify,
+    );
+    let rendered = std::str::from_utf8(&buf).expect("string literal escape output is UTF-8");
+    self.write_str(rendered);
+  }
+
   /// Emits a numeric literal.
   pub fn write_number(&mut self, number: &str) {
     self.write_with_kind(number, TokenKind::Number);
diff --git a/emit-js/src/escape.rs b/emit-js/src/escape.rs
index b3a7044..076128d 100644
--- a/emit-js/src/escape.rs
+++ b/emit-js/src/escape.rs
@@ -1,4 +1,5 @@
 use crate::emitter::QuoteStyle;
+use parse_js::ast::node::{literal_string_code_units, template_string_parts, NodeAssocData};
 
 /// Emit a JavaScript/TypeScript string literal using the provided quoting
 /// strategy, escaping characters that would otherwise terminate or change the
@@ -6,9 +7,38 @@ use crate::emitter::QuoteStyle;
 /// for the Unicode line separators U+2028/U+2029, which must always be
 /// escaped.
 pub fn emit_string_literal(out: &mut Vec<u8>, value: &str, quote_style: QuoteStyle, minify: bool) {
+  emit_escaped_string_literal(out, value.chars().map(Ok), quote_style, minify);
+}
+
+/// Emit a string literal from the exact UTF-16 code units recorded by the parser
+/// (when present), so that unpaired surrogates survive as `\\uXXXX` escapes.
+pub(crate) fn emit_string_literal_with_assoc(
+  out: &mut Vec<u8>,
+  value: &str,
+  assoc: &NodeAssocData,
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
+  match literal_string_code_units(assoc).filter(|units| String::from_utf16_lossy(units) == value) {
+    Some(units) => emit_escaped_string_literal(
+      out,
+      char::decode_utf16(units.iter().copied()).map(|ch| ch.map_err(|e| e.unpaired_surrogate())),
+      quote_style,
+      minify,
+    ),
+    None => emit_string_literal(out, value, quote_style, minify),
+  }
+}
+
+fn emit_escaped_string_literal(
+  out: &mut Vec<u8>,
+  chars: impl Iterator<Item = Result<char, u16>> + Clone,
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
   let emit_with_quote = |quote: u8| {
     let mut escaped = Vec::new();
-    escape_string_into(&mut escaped, value, quote);
+    escape_string_into(&mut escaped, chars.clone(), quote);
     (quote, escaped)
   };
 
@@ -59,11 +89,22 @@ pub fn emit_string_literal_double_quoted(out: &mut Vec<u8>, value: &str) {
   emit_string_literal(out, value, QuoteStyle::Double, false);
 }
 
-fn escape_string_into(out: &mut Vec<u8>, value: &str, quote: u8) {
+fn escape_string_into(
+  out: &mut Vec<u8>,
+  chars: impl Iterator<Item = Result<char, u16>>,
+  quote: u8,
+) {
   out.clear();
 
-  let mut chars = value.chars().peekable();
+  let mut chars = chars.peekable();
   while let Some(ch) = chars.next() {
+    let ch = match ch {
+      Ok(ch) => ch,
+      Err(unit) => {
+        out.extend_from_slice(format!("\\u{unit:04x}").as_bytes());
+        continue;
+      }
+    };
     match ch {
       '\\' => out.extend_from_slice(b"\\\\"),
       '"' if quote == b'"' => out.extend_from_slice(b"\\\""),
@@ -72,7 +113,7 @@ fn escape_string_into(out: &mut Vec<u8>, value: &str, quote: u8) {
       '\r' => out.extend_from_slice(b"\\r"),
       '\t' => out.extend_from_slice(b"\\t"),
       '\0' => {
-        let next_is_digit = chars.peek().map(|c| c.is_ascii_digit()).unwrap_or(false);
+        let next_is_digit = chars.peek().map(|c| c.is_ok_and(|c| c.is_ascii_digit())).unwrap_or(false);
         if next_is_digit {
           out.extend_from_slice(b"\\x00");
         } else {
@@ -119,6 +160,50 @@ pub fn emit_template_literal_segment(out: &mut Vec<u8>, cooked: &str) {
   }
 }
 
+/// Emit the `index`-th string segment of a template literal. `value` is the
+/// segment's decoded text; the exact raw/cooked code units recorded by the parser
+/// (when present in `assoc`) preserve unpaired surrogates and, for tagged
+/// templates, the raw text the tag function observes.
+pub(crate) fn emit_template_segment(
+  out: &mut Vec<u8>,
+  value: &str,
+  index: usize,
+  assoc: &NodeAssocData,
+  tagged: bool,
+) {
+  let data = template_string_parts(assoc);
+  let cooked = data.and_then(|data| data.cooked.get(index));
+  let matches = cooked.is_some_and(|cooked| {
+    cooked
+      .as_ref()
+      .map_or(true, |units| String::from_utf16_lossy(units) == value)
+  });
+  if !matches {
+    return emit_template_literal_segment(out, value);
+  }
+  if tagged {
+    if let Some(raw) = data.and_then(|data| data.raw.get(index)) {
+      out.extend_from_slice(String::from_utf16_lossy(raw).as_bytes());
+      return;
+    }
+  }
+  let Some(Some(units)) = cooked else {
+    return emit_template_literal_segment(out, value);
+  };
+  let mut text = String::new();
+  for ch in char::decode_utf16(units.iter().copied()) {
+    match ch {
+      Ok(ch) => text.push(ch),
+      Err(err) => {
+        emit_template_literal_segment(out, &text);
+        text.clear();
+        out.extend_from_slice(format!("\\u{:04x}", err.unpaired_surrogate()).as_bytes());
+      }
+    }
+  }
+  emit_template_literal_segment(out, &text);
+}
+
 /// Remove leading/trailing template delimiters from a raw template part as
 /// stored by the parser, yielding the cooked segment value.
 pub fn cooked_template_segment<'a>(raw: &'a str, is_first: bool, is_last: bool) -> &'a str {
diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index e4c4eef..8c40d36 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -12,15 +12,15 @@ use parse_js::ast::expr::{
   UnaryPostfixExpr,
 };
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, NodeAssocData};
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::{OperatorName, OPERATORS};
 
 use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
-use crate::escape::emit_string_literal;
+use crate::escape::{emit_string_literal_with_assoc, emit_template_segment};
 use crate::precedence::{
-  child_min_prec_for_binary, expr_prec, needs_parens, starts_with_optional_chaining, Prec, Side,
-  CALL_MEMBER_PRECEDENCE,
+  chain_operand_needs_parens, child_min_prec_for_binary, expr_prec, is_parenthesized_call, left_type_needs_parens, right_type_needs_parens, needs_parens, new_callee_needs_parens, Prec, Side,
+  ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
 };
 use crate::Emitter;
 
@@ -95,7 +95,7 @@ where
       Expr::LitBigInt(lit) => self.emit_lit_big_int(lit),
       Expr::LitStr(lit) => self.emit_lit_str(lit),
       Expr::LitRegex(lit) => self.emit_lit_regex(lit),
-      Expr::LitTemplate(lit) => self.emit_template_literal(&lit.stx.parts),
+      Expr::LitTemplate(lit) => self.emit_template_literal(&lit.stx.parts, &lit.assoc, false),
       Expr::LitArr(arr) => self.emit_lit_arr(arr),
       Expr::LitObj(obj) => self.emit_lit_obj(obj),
       Expr::JsxElem(elem) => self.emit_jsx_elem(elem),
@@ -131,6 +131,7 @@ where
         write!(self.out, ")")?;
         Ok(())
       }
+      _ if chain_operand_needs_parens(expr) => self.emit_wrapped(expr, Prec::LOWEST),
       _ => self.emit_expr_with_min_prec(expr, CALL_MEMBER_PRECEDENCE),
     }
   }
@@ -193,9 +194,10 @@ where
   fn emit_lit_str(&mut self, lit: &Node<LitStrExpr>) -> EmitResult {
     with_node_context(lit.loc, || {
       let mut buf = Vec::new();
-      emit_string_literal(
+      emit_string_literal_with_assoc(
         &mut buf,
         &lit.stx.value,
+        &lit.assoc,
         self.opts.quote_style,
         self.opts.minify,
       );
@@ -262,10 +264,10 @@ where
           self.out.write_char(',')?;
         }
         match elem {
-          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, Prec::new(1))?,
+          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)?,
           LitArrElem::Rest(expr) => {
             self.out.write_str("...")?;
-            self.emit_expr_with_min_prec(expr, Prec::new(1))?;
+            self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
           LitArrElem::Empty => {}
         }
@@ -299,7 +301,7 @@ where
       }
       ObjMemberType::Rest { val } => {
         self.out.write_str("...")?;
-        self.emit_expr_with_min_prec(val, Prec::new(1))
+        self.emit_expr_with_min_prec(val, ASSIGNMENT_EXPR_PRECEDENCE)
       }
     })
   }
@@ -310,7 +312,7 @@ where
         self.emit_pattern_fragment(|em| crate::pat::emit_class_or_object_key(em, key))?;
         self.out.write_char(':')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(expr, Prec::new(1))
+        self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)
       }
       ClassOrObjVal::Prop(None) => Err(EmitError::unsupported("object property missing value")),
       _ => Err(EmitError::unsupported("object member kind not supported")),
@@ -403,7 +405,7 @@ where
 
       if let Some(extends) = &class.extends {
         self.out.write_str(" extends ")?;
-        self.emit_expr_with_min_prec(extends, Prec::new(1))?;
+        self.emit_expr_with_min_prec(extends, CALL_MEMBER_PRECEDENCE)?;
       }
       if !class.implements.is_empty() {
         self.out.write_str(" implements ")?;
@@ -427,11 +429,11 @@ where
   fn emit_import_expr(&mut self, import: &Node<ImportExpr>) -> EmitResult {
     with_node_context(import.loc, || {
       self.out.write_str("import(")?;
-      self.emit_expr_with_min_prec(&import.stx.module, Prec::new(1))?;
+      self.emit_expr_with_min_prec(&import.stx.module, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if let Some(attrs) = &import.stx.attributes {
         self.out.write_char(',')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(attrs, Prec::new(1))?;
+        self.emit_expr_with_min_prec(attrs, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       self.out.write_char(')')?;
       Ok(())
@@ -525,7 +527,7 @@ where
 
     match argument.stx.as_ref() {
       Expr::Call(call) => {
-        if call.stx.optional_chaining {
+        if call.stx.optional_chaining || is_parenthesized_call(argument) {
           write!(self.out, "(")?;
           self.emit_call(call)?;
           write!(self.out, ")")?;
@@ -533,7 +535,7 @@ where
         }
 
         let callee = &call.stx.callee;
-        if starts_with_optional_chaining(callee) {
+        if new_callee_needs_parens(callee) {
           write!(self.out, "(")?;
           self.emit_memberish_receiver(callee)?;
           write!(self.out, ")")?;
@@ -552,14 +554,14 @@ where
           if *spread {
             write!(self.out, "...")?;
           }
-          self.emit_expr_with_min_prec(value, Prec::new(1))?;
+          self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
         }
 
         write!(self.out, ")")?;
         Ok(())
       }
       _ => {
-        if starts_with_optional_chaining(argument) {
+        if new_callee_needs_parens(argument) {
           write!(self.out, "(")?;
           self.emit_expr_with_min_prec(argument, CALL_MEMBER_PRECEDENCE)?;
           write!(self.out, ")")?;
@@ -603,13 +605,15 @@ where
           && is_logical_and_or(&binary.stx.left))
         || ((binary.stx.operator == OperatorName::LogicalAnd
           || binary.stx.operator == OperatorName::LogicalOr)
-          && is_nullish(&binary.stx.left));
+          && is_nullish(&binary.stx.left))
+        || left_type_needs_parens(binary.stx.operator, &binary.stx.left);
 
       let force_right_parens = (binary.stx.operator == OperatorName::NullishCoalescing
         && is_logical_and_or(&binary.stx.right))
         || ((binary.stx.operator == OperatorName::LogicalAnd
           || binary.stx.operator == OperatorName::LogicalOr)
-          && is_nullish(&binary.stx.right));
+          && is_nullish(&binary.stx.right))
+    || right_type_needs_parens(binary.stx.operator, &binary.stx.right);
 
       if force_left_parens {
         self.emit_wrapped(&binary.stx.left, Prec::LOWEST)?;
@@ -677,7 +681,7 @@ where
             if *spread {
               write!(self.out, "...")?;
             }
-            self.emit_expr_with_min_prec(value, Prec::new(1))?;
+            self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
           write!(self.out, ")")?;
           return Ok(());
@@ -699,7 +703,7 @@ where
         if *spread {
           write!(self.out, "...")?;
         }
-        self.emit_expr_with_min_prec(value, Prec::new(1))?;
+        self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       write!(self.out, ")")?;
       Ok(())
@@ -744,7 +748,7 @@ where
   fn emit_tagged_template(&mut self, tagged: &Node<TaggedTemplateExpr>) -> EmitResult {
     with_node_context(tagged.loc, || {
       self.emit_memberish_receiver(&tagged.stx.function)?;
-      self.emit_template_literal(&tagged.stx.parts)
+      self.emit_template_literal(&tagged.stx.parts, &tagged.assoc, true)
     })
   }
 
@@ -764,17 +768,21 @@ where
     })
   }
 
-  fn emit_template_literal(&mut self, parts: &[LitTemplatePart]) -> EmitResult {
+  fn emit_template_literal(
+    &mut self,
+    parts: &[LitTemplatePart],
+    assoc: &NodeAssocData,
+    tagged: bool,
+  ) -> EmitResult {
     let mut raw = String::new();
     raw.push('`');
-    for (idx, part) in parts.iter().enumerate() {
+    let mut segment = 0;
+    for part in parts {
       match part {
-        LitTemplatePart::String(raw_part) => {
-          let is_first = idx == 0;
-          let is_last = idx == parts.len().saturating_sub(1);
-          let cooked = crate::cooked_template_segment(raw_part, is_first, is_last);
+        LitTemplatePart::String(value) => {
           let mut buf = Vec::new();
-          crate::emit_template_literal_segment(&mut buf, cooked);
+          emit_template_segment(&mut buf, value, segment, assoc, tagged);
+          segment += 1;
           raw.push_str(std::str::from_utf8(&buf).expect("template literal escape output is UTF-8"));
         }
         LitTemplatePart::Substitution(expr) => {
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4fc35ee..8664653 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,6 +1,8 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
-use crate::escape::{cooked_template_segment, emit_template_literal_segment};
-use crate::precedence::{child_min_prec_for_binary, starts_with_optional_chaining, Side};
+use crate::escape::emit_template_segment;
+use crate::precedence::{
+  chain_operand_needs_parens, child_min_prec_for_binary, is_parenthesized_call, left_type_needs_parens, right_type_needs_parens, new_callee_needs_parens, Side,
+};
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
 use parse_js::ast::class_or_object::{ClassOrObjKey, ClassOrObjVal, ObjMember, ObjMemberType};
@@ -10,7 +12,7 @@ use parse_js::ast::expr::lit::{
 use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, NodeAssocData};
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::ast::type_expr::{TypeExpr, TypeParameter};
 use parse_js::operator::{OperatorName, OPERATORS};
@@ -42,6 +44,29 @@ pub fn emit_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResul
   }
 }
 
+/// Emits an expression in a position that accepts an `AssignmentExpression`
+/// (arguments, elements, initializers, ...), where a comma expression needs
+/// parentheses.
+pub(crate) fn emit_assignment_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
+  if is_comma_expression(expr.stx.as_ref()) {
+    em.write_punct("(");
+    emit_expr(em, expr, ctx)?;
+    em.write_punct(")");
+    return Ok(());
+  }
+  emit_expr(em, expr, ctx)
+}
+
+/// Emits an expression in a position that accepts only a
+/// `LeftHandSideExpression` (class heritage).
+pub(crate) fn emit_left_hand_side_expr(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  ctx: ExprCtx,
+) -> EmitResult {
+  emit_expr_with_min_prec(em, expr, CALL_MEMBER_PRECEDENCE, ctx)
+}
+
 fn emit_expr_with_min_prec(
   em: &mut Emitter,
   expr: &Node<Expr>,
@@ -62,6 +87,14 @@ fn emit_expr_with_min_prec(
   Ok(())
 }
 
+/// Emits the object of a member access, the callee of a call, or a template tag.
+fn emit_chain_operand(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
+  if chain_operand_needs_parens(expr) {
+    return emit_wrapped(em, expr, ctx);
+  }
+  emit_expr_with_min_prec(em, expr, CALL_MEMBER_PRECEDENCE, ctx)
+}
+
 fn expr_precedence(expr: &Node<Expr>) -> Result<u8, EmitError> {
   match expr.stx.as_ref() {
     Expr::Id(_) | Expr::This(_) | Expr::Super(_) | Expr::NewTarget(_) | Expr::ImportMeta(_) => {
@@ -127,7 +160,7 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::LitBool(lit) => em.write_keyword(if lit.stx.value { "true" } else { "false" }),
     Expr::LitNull(_) => em.write_keyword("null"),
     Expr::LitBigInt(lit) => em.write_bigint_literal(&lit.stx.value),
-    Expr::LitStr(lit) => emit_string_literal(em, &lit.stx.value),
+    Expr::LitStr(lit) => em.write_string_literal_with_assoc(&lit.stx.value, &lit.assoc),
     Expr::LitRegex(lit) => {
       let mut buf = Vec::new();
       crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
@@ -149,7 +182,7 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::Unary(unary) => emit_unary(em, unary, ctx)?,
     Expr::UnaryPostfix(postfix) => emit_postfix(em, postfix, ctx)?,
     Expr::NonNullAssertion(non_null) => {
-      emit_expr_with_min_prec(em, &non_null.stx.expression, CALL_MEMBER_PRECEDENCE, ctx)?;
+      emit_chain_operand(em, &non_null.stx.expression, ctx)?;
       em.write_punct("!");
     }
     Expr::TypeAssertion(assertion) => emit_type_assertion(em, assertion, ctx)?,
@@ -181,13 +214,15 @@ fn emit_binary(em: &mut Emitter, binary: &Node<BinaryExpr>, ctx: ExprCtx) -> Emi
     || (binary.stx.operator == OperatorName::NullishCoalescing && is_logical_and_or(&binary.stx.left))
     || ((binary.stx.operator == OperatorName::LogicalAnd
       || binary.stx.operator == OperatorName::LogicalOr)
-      && is_nullish(&binary.stx.left));
+      && is_nullish(&binary.stx.left))
+    || left_type_needs_parens(binary.stx.operator, &binary.stx.left);
 
   let force_right_parens = (binary.stx.operator == OperatorName::NullishCoalescing
     && is_logical_and_or(&binary.stx.right))
     || ((binary.stx.operator == OperatorName::LogicalAnd
       || binary.stx.operator == OperatorName::LogicalOr)
-      && is_nullish(&binary.stx.right));
+      && is_nullish(&binary.stx.right))
+    || right_type_needs_parens(binary.stx.operator, &binary.stx.right);
 
   if force_left_parens {
     emit_wrapped(em, &binary.stx.left, ctx)?;
@@ -269,10 +304,9 @@ fn emit_wrapped(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResult
 fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResult {
   if call.stx.optional_chaining {
     if let Expr::Instantiation(instantiation) = call.stx.callee.stx.as_ref() {
-      emit_expr_with_min_prec(
+      emit_chain_operand(
         em,
         &instantiation.stx.expression,
-        CALL_MEMBER_PRECEDENCE,
         ctx,
       )?;
       em.write_str("?.");
@@ -296,14 +330,14 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_assignment_expr(em, value, ctx)?;
       }
       em.write_punct(")");
       return Ok(());
     }
   }
 
-  emit_expr_with_min_prec(em, &call.stx.callee, CALL_MEMBER_PRECEDENCE, ctx)?;
+  emit_chain_operand(em, &call.stx.callee, ctx)?;
   if call.stx.optional_chaining {
     em.write_str("?.(");
   } else {
@@ -317,7 +351,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
     if *spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, value, 1, ctx)?;
+    emit_assignment_expr(em, value, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -325,7 +359,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
 
 fn emit_member(em: &mut Emitter, member: &Node<MemberExpr>, ctx: ExprCtx) -> EmitResult {
   if member.stx.optional_chaining {
-    emit_expr_with_min_prec(em, &member.stx.left, CALL_MEMBER_PRECEDENCE, ctx)?;
+    emit_chain_operand(em, &member.stx.left, ctx)?;
     em.write_str("?.");
   } else if let Expr::LitNum(num) = member.stx.left.stx.as_ref() {
     let rendered = num.stx.value.to_string();
@@ -335,7 +369,7 @@ fn emit_member(em: &mut Emitter, member: &Node<MemberExpr>, ctx: ExprCtx) -> Emi
     }
     em.write_punct(".");
   } else {
-    emit_expr_with_min_prec(em, &member.stx.left, CALL_MEMBER_PRECEDENCE, ctx)?;
+    emit_chain_operand(em, &member.stx.left, ctx)?;
     em.write_punct(".");
   }
   em.write_identifier(&member.stx.right);
@@ -347,7 +381,7 @@ fn emit_computed_member(
   member: &Node<ComputedMemberExpr>,
   ctx: ExprCtx,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, &member.stx.object, CALL_MEMBER_PRECEDENCE, ctx)?;
+  emit_chain_operand(em, &member.stx.object, ctx)?;
   if member.stx.optional_chaining {
     em.write_str("?.[");
   } else {
@@ -363,10 +397,9 @@ fn emit_instantiation_expr(
   instantiation: &Node<InstantiationExpr>,
   ctx: ExprCtx,
 ) -> EmitResult {
-  emit_expr_with_min_prec(
+  emit_chain_operand(
     em,
     &instantiation.stx.expression,
-    CALL_MEMBER_PRECEDENCE,
     ctx,
   )?;
   em.write_punct("<");
@@ -418,7 +451,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
 
   match argument.stx.as_ref() {
     Expr::Call(call) => {
-      if call.stx.optional_chaining {
+      if call.stx.optional_chaining || is_parenthesized_call(argument) {
         em.write_punct("(");
         emit_call(em, call, ctx)?;
         em.write_punct(")");
@@ -426,7 +459,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
       }
 
       let callee = &call.stx.callee;
-      if starts_with_optional_chaining(callee) {
+      if new_callee_needs_parens(callee) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, callee, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
@@ -443,13 +476,13 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_assignment_expr(em, value, ctx)?;
       }
       em.write_punct(")");
       Ok(())
     }
     _ => {
-      if starts_with_optional_chaining(argument) {
+      if new_callee_needs_parens(argument) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, argument, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
@@ -479,10 +512,10 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
       em.write_punct(",");
     }
     match elem {
-      LitArrElem::Single(expr) => emit_expr(em, expr, ExprCtx::Default)?,
+      LitArrElem::Single(expr) => emit_assignment_expr(em, expr, ExprCtx::Default)?,
       LitArrElem::Rest(expr) => {
         em.write_punct("...");
-        emit_expr(em, expr, ExprCtx::Default)?;
+        emit_assignment_expr(em, expr, ExprCtx::Default)?;
       }
       LitArrElem::Empty => {}
     }
@@ -512,7 +545,7 @@ fn emit_obj_member(em: &mut Emitter, member: &Node<ObjMember>) -> EmitResult {
     }
     ObjMemberType::Rest { val } => {
       em.write_punct("...");
-      emit_expr(em, val, ExprCtx::Default)
+      emit_assignment_expr(em, val, ExprCtx::Default)
     }
   }
 }
@@ -527,7 +560,7 @@ fn emit_obj_valued_member(
       emit_class_or_object_key(em, key)?;
       if let Some(init) = init {
         em.write_punct(":");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       Ok(())
     }
@@ -576,7 +609,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_with_assoc(&name.stx.key, &name.assoc),
         TT::LiteralBigInt => em.write_bigint_literal(&name.stx.key),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
@@ -588,7 +621,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
     }
     ClassOrObjKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr(em, expr, ExprCtx::Default)?;
+      emit_assignment_expr(em, expr, ExprCtx::Default)?;
       em.write_punct("]");
       Ok(())
     }
@@ -636,7 +669,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -677,7 +710,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -719,7 +752,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -882,10 +915,10 @@ fn emit_class_expression(em: &mut Emitter, class: &Node<ClassExpr>) -> EmitResul
 fn emit_import_expr(em: &mut Emitter, import: &Node<ImportExpr>, ctx: ExprCtx) -> EmitResult {
   em.write_keyword("import");
   em.write_punct("(");
-  emit_expr(em, &import.stx.module, ctx)?;
+  emit_assignment_expr(em, &import.stx.module, ctx)?;
   if let Some(attrs) = &import.stx.attributes {
     em.write_punct(",");
-    emit_expr(em, attrs, ctx)?;
+    emit_assignment_expr(em, attrs, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -896,24 +929,28 @@ fn emit_tagged_template(
   tagged: &Node<TaggedTemplateExpr>,
   ctx: ExprCtx,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, &tagged.stx.function, CALL_MEMBER_PRECEDENCE, ctx)?;
-  emit_template_parts(em, &tagged.stx.parts)
+  emit_chain_operand(em, &tagged.stx.function, ctx)?;
+  emit_template_parts(em, &tagged.stx.parts, &tagged.assoc, true)
 }
 
 fn emit_template_literal(em: &mut Emitter, template: &Node<LitTemplateExpr>) -> EmitResult {
-  emit_template_parts(em, &template.stx.parts)
+  emit_template_parts(em, &template.stx.parts, &template.assoc, false)
 }
 
-fn emit_template_parts(em: &mut Emitter, parts: &[LitTemplatePart]) -> EmitResult {
+fn emit_template_parts(
+  em: &mut Emitter,
+  parts: &[LitTemplatePart],
+  assoc: &NodeAssocData,
+  tagged: bool,
+) -> EmitResult {
   em.write_raw_byte(b'`');
-  for (idx, part) in parts.iter().enumerate() {
+  let mut segment = 0;
+  for part in parts {
     match part {
-      LitTemplatePart::String(raw) => {
-        let is_first = idx == 0;
-        let is_last = idx + 1 == parts.len();
-        let cooked = cooked_template_segment(raw, is_first, is_last);
+      LitTemplatePart::String(value) => {
         let mut buf = Vec::new();
-        emit_template_literal_segment(&mut buf, cooked);
+        emit_template_segment(&mut buf, value, segment, assoc, tagged);
+        segment += 1;
         em.write_raw_str(std::str::from_utf8(&buf).expect("template literal segment is UTF-8"));
       }
       LitTemplatePart::Substitution(expr) => {
@@ -935,10 +972,6 @@ fn emit_expr_via_fmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   Ok(())
 }
 
-fn emit_string_literal(em: &mut Emitter, value: &str) {
-  em.write_string_literal(value);
-}
-
 fn binary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   match op {
     OperatorName::Addition => Ok("+"),
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 16afeb9..1bd7d8a 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -4,8 +4,8 @@ use crate::module_names::{
   is_module_binding_identifier_token,
 };
 use crate::precedence::{
-  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
-  PRIMARY_PRECEDENCE,
+  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE,
+  ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, PRIMARY_PRECEDENCE,
 };
 use crate::{EmitError, EmitOptions, EmitResult, Emitter};
 use diagnostics::Diagnostic;
@@ -201,7 +201,7 @@ fn emit_decorators(em: &mut Emitter, ctx: &HirContext<'_>, decorators: &[Decorat
     let deco_body = ctx
       .body(deco.body)
       .ok_or_else(|| EmitError::unsupported("decorator body not found"))?;
-    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
     em.write_space();
   }
   Ok(())
@@ -473,7 +473,7 @@ fn emit_export_default(
       if needs_parens {
         em.write_punct("(");
       }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if needs_parens {
         em.write_punct(")");
       }
@@ -566,7 +566,7 @@ fn emit_class_like(
 
   if let Some(extends) = class.extends {
     em.write_keyword("extends");
-    emit_expr_with_min_prec(em, ctx, body, extends, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, extends, CALL_MEMBER_PRECEDENCE)?;
   }
 
   em.write_punct("{");
@@ -703,7 +703,7 @@ fn emit_class_member_key(
     ClassMemberKey::Number(value) => em.write_number(value),
     ClassMemberKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_punct("]");
     }
   }
@@ -801,7 +801,7 @@ fn emit_jsx_attr(
     }
     JsxAttr::Spread { expr } => {
       em.write_str("{...");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_char('}')?;
       Ok(())
     }
@@ -836,7 +836,7 @@ fn emit_jsx_expr_container(
     em.write_str("...");
   }
   if let Some(expr) = container.expr {
-    emit_expr_with_min_prec(em, ctx, body, expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
   }
   em.write_char('}')?;
   Ok(())
@@ -915,7 +915,7 @@ fn emit_arrow_function(
   em.write_punct("=>");
   match &func.body {
     FunctionBody::Expr(expr) => {
-      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr));
+      let needs_parens = arrow_concise_body_needs_parens(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
       }
@@ -1225,12 +1225,14 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
         }
         hir_js::ForHead::Var(decl) => emit_var_decl(em, ctx, body, decl, false)?,
       }
-      if *is_for_of {
+      let right_min_prec = if *is_for_of {
         em.write_keyword("of");
+        ASSIGNMENT_EXPR_PRECEDENCE
       } else {
         em.write_keyword("in");
-      }
-      emit_expr_with_min_prec(em, ctx, body, *right, Prec::LOWEST)?;
+        Prec::LOWEST
+      };
+      emit_expr_with_min_prec(em, ctx, body, *right, right_min_prec)?;
       em.write_punct(")");
       emit_stmt_as_body(em, ctx, body, *inner)?;
     }
@@ -1675,10 +1677,10 @@ fn emit_expr_no_parens(
     } => {
       em.write_keyword("import");
       em.write_punct("(");
-      emit_expr_with_min_prec(em, ctx, body, *argument, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *argument, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if let Some(attrs) = attributes {
         em.write_punct(",");
-        emit_expr_with_min_prec(em, ctx, body, *attrs, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *attrs, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       em.write_punct(")");
     }
@@ -1695,7 +1697,7 @@ fn emit_call(
   body: &Body,
   call: &hir_js::CallExpr,
 ) -> EmitResult {
-  let callee_needs_parens = call.is_new && starts_with_optional_chaining(ctx, body, call.callee);
+  let callee_needs_parens = call.is_new && new_callee_needs_parens(ctx, body, call.callee);
   if call.is_new {
     em.write_keyword("new");
   }
@@ -1718,7 +1720,7 @@ fn emit_call(
     if arg.spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, ctx, body, arg.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, arg.expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
   }
   em.write_punct(")");
   Ok(())
@@ -1780,11 +1782,11 @@ fn emit_array_literal(
     }
     match element {
       hir_js::ArrayElement::Expr(expr) => {
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Empty => {}
     }
@@ -1835,13 +1837,13 @@ fn emit_object_literal(
           } else {
             emit_object_key(em, ctx, body, key)?;
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         } else {
           emit_object_key(em, ctx, body, key)?;
           if !*shorthand {
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         }
       }
@@ -1873,7 +1875,7 @@ fn emit_object_literal(
       }
       ObjectProperty::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
     }
   }
@@ -1893,7 +1895,7 @@ fn emit_object_key(
     ObjectKey::Number(num) => em.write_number(num),
     ObjectKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_punct("]");
     }
   }
@@ -2378,27 +2380,35 @@ fn token_from_identifier(name: &str) -> StmtStartToken {
   }
 }
 
-fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
+fn arrow_concise_body_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  // A concise body whose first token is `{` would be read as a function body.
   matches!(
-    expr.kind,
-    ExprKind::Object(_)
-      | ExprKind::Binary {
-        op: BinaryOp::Comma,
-        ..
-      }
+    ctx.expr(body, expr_id).kind,
+    ExprKind::Binary {
+      op: BinaryOp::Comma,
+      ..
+    }
+  ) || matches!(
+    expr_stmt_tokens(ctx, body, expr_id).first,
+    StmtStartToken::BraceOpen
   )
 }
 
-fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+/// Whether the callee of a `new` expression needs parentheses: an optional chain
+/// is not a valid callee, and a call's arguments would become the constructor
+/// arguments.
+fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
     ExprKind::Member(member) => {
-      member.optional || starts_with_optional_chaining(ctx, body, member.object)
+      member.optional || new_callee_needs_parens(ctx, body, member.object)
     }
-    ExprKind::Call(call) => call.optional || starts_with_optional_chaining(ctx, body, call.callee),
+    ExprKind::Call(call) => !call.is_new,
+    ExprKind::ImportCall { .. } => true,
+    ExprKind::TaggedTemplate { tag, .. } => new_callee_needs_parens(ctx, body, *tag),
     ExprKind::TypeAssertion { expr, .. }
     | ExprKind::NonNull { expr }
-    | ExprKind::Satisfies { expr, .. } => starts_with_optional_chaining(ctx, body, *expr),
+    | ExprKind::Satisfies { expr, .. } => new_callee_needs_parens(ctx, body, *expr),
     _ => false,
   }
 }
diff --git a/emit-js/src/pat.rs b/emit-js/src/pat.rs
index b9dbec0..f1bf865 100644
--- a/emit-js/src/pat.rs
+++ b/emit-js/src/pat.rs
@@ -3,6 +3,7 @@ use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::{Decorator, Expr};
 use parse_js::ast::node::Node;
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
+use parse_js::operator::OperatorName;
 use parse_js::token::TT;
 
 use crate::emitter::EmitResult;
@@ -13,6 +14,19 @@ fn emit_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   emit_expr_with_emitter(out, expr)
 }
 
+fn emit_assignment_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
+  let parens =
+    matches!(expr.stx.as_ref(), Expr::Binary(b) if b.stx.operator == OperatorName::Comma);
+  if parens {
+    out.write_punct("(");
+  }
+  emit_expr(out, expr)?;
+  if parens {
+    out.write_punct(")");
+  }
+  Ok(())
+}
+
 fn emit_decorators(out: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for decorator in decorators {
     out.write_punct("@");
@@ -67,7 +81,7 @@ pub fn emit_param_decl(out: &mut Emitter, decl: &Node<ParamDecl>) -> EmitResult
   }
   if let Some(default) = &decl.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
@@ -87,7 +101,7 @@ pub(crate) fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> EmitR
       emit_pat(out, &elem.target)?;
       if let Some(default) = &elem.default_value {
         out.write_punct("=");
-        emit_expr(out, default)?;
+        emit_assignment_expr(out, default)?;
       }
     }
   }
@@ -125,7 +139,7 @@ pub(crate) fn emit_class_or_object_key(out: &mut Emitter, key: &ClassOrObjKey) -
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => out.write_string_literal(&name.stx.key),
+        TT::LiteralString => out.write_string_literal_with_assoc(&name.stx.key, &name.assoc),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           out.write_number(&name.stx.key)
         }
@@ -136,7 +150,7 @@ pub(crate) fn emit_class_or_object_key(out: &mut Emitter, key: &ClassOrObjKey) -
     }
     ClassOrObjKey::Computed(expr) => {
       out.write_punct("[");
-      emit_expr(out, expr)?;
+      emit_assignment_expr(out, expr)?;
       out.write_punct("]");
       Ok(())
     }
@@ -151,7 +165,7 @@ fn emit_obj_pat_prop(out: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 8b3f46b..cb3caaf 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -1,5 +1,5 @@
 use parse_js::ast::expr::Expr;
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, ParenthesizedExpr};
 use parse_js::operator::{Associativity, OperatorName, OPERATORS};
 
 /// Wrapper around a precedence value with total ordering.
@@ -32,6 +32,9 @@ pub const SATISFIES_PRECEDENCE: Prec = TYPE_ASSERTION_PRECEDENCE;
 pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
+/// Lowest precedence accepted where the grammar requires an `AssignmentExpression`
+/// (everything except a bare comma expression).
+pub const ASSIGNMENT_EXPR_PRECEDENCE: Prec = Prec::new(2);
 /// Precedence for arrow functions (lower than assignment to force parentheses when
 /// used as operands).
 pub const ARROW_FUNCTION_PRECEDENCE: Prec = Prec::new(2);
@@ -63,6 +66,40 @@ pub fn child_min_prec_for_binary(op: OperatorName, side: Side) -> Prec {
   }
 }
 
+/// Whether the right operand of `operator` starts with a type assertion that would take
+/// the whole operation as its operand: `as` is a relational operator, so `a + b as T`
+/// reads as `(a + b) as T`.
+pub(crate) fn right_type_needs_parens(operator: OperatorName, right: &Node<Expr>) -> bool {
+  fn starts_with_type(expr: &Node<Expr>) -> bool {
+    match expr.stx.as_ref() {
+      Expr::TypeAssertion(_) | Expr::SatisfiesExpr(_) => true,
+      Expr::Binary(binary) => starts_with_type(&binary.stx.left),
+      _ => false,
+    }
+  }
+  child_min_prec_for_binary(operator, Side::Right)
+    > Prec::new(OPERATORS[&OperatorName::LessThan].precedence)
+    && starts_with_type(right)
+}
+
+/// Whether the left operand of `operator` ends in a type that the operator's token
+/// would continue (`a as T | b`) or that makes the target invalid (`a as T = b`).
+pub(crate) fn left_type_needs_parens(operator: OperatorName, left: &Node<Expr>) -> bool {
+  fn ends_with_type(expr: &Node<Expr>) -> bool {
+    match expr.stx.as_ref() {
+      Expr::TypeAssertion(_) | Expr::SatisfiesExpr(_) => true,
+      Expr::Binary(binary) => ends_with_type(&binary.stx.right),
+      _ => false,
+    }
+  }
+  (operator.is_assignment()
+    || matches!(
+      operator,
+      OperatorName::BitwiseAnd | OperatorName::BitwiseOr | OperatorName::LessThan
+    ))
+    && ends_with_type(left)
+}
+
 /// Returns the precedence of an expression kind. This is derived from the parser's
 /// precedence table so that emitting without explicit `parenthesised` flags
 /// re-parses to the same AST.
@@ -109,18 +146,56 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
   }
 }
 
-pub fn starts_with_optional_chaining(expr: &Node<Expr>) -> bool {
-  match expr.stx.as_ref() {
-    Expr::Instantiation(inst) => starts_with_optional_chaining(&inst.stx.expression),
+/// Whether the argument of a `new` expression was written as a parenthesized
+/// call: `new (f(x))` constructs the result of `f(x)`, `new f(x)` constructs `f`.
+pub fn is_parenthesized_call(argument: &Node<Expr>) -> bool {
+  matches!(argument.stx.as_ref(), Expr::Call(_))
+    && argument.assoc.get::<ParenthesizedExpr>().is_some()
+}
+
+/// Whether the callee of a `new` expression needs parentheses because its first
+/// call's arguments would otherwise become the constructor arguments.
+pub fn new_callee_needs_parens(callee: &Node<Expr>) -> bool {
+  match callee.stx.as_ref() {
+    Expr::Call(_) | Expr::Import(_) => true,
     Expr::Member(member) => {
-      member.stx.optional_chaining || starts_with_optional_chaining(&member.stx.left)
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.left)
     }
     Expr::ComputedMember(member) => {
-      member.stx.optional_chaining || starts_with_optional_chaining(&member.stx.object)
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.object)
     }
-    Expr::Call(call) => {
-      call.stx.optional_chaining || starts_with_optional_chaining(&call.stx.callee)
+    Expr::Instantiation(inst) => new_callee_needs_parens(&inst.stx.expression),
+    Expr::TaggedTemplate(tagged) => new_callee_needs_parens(&tagged.stx.function),
+    Expr::NonNullAssertion(expr) => new_callee_needs_parens(&expr.stx.expression),
+    Expr::Unary(unary) if unary.stx.operator == OperatorName::New => {
+      !matches!(unary.stx.argument.stx.as_ref(), Expr::Call(_))
+        || is_parenthesized_call(&unary.stx.argument)
     }
     _ => false,
   }
 }
+
+/// Whether an expression needs parentheses as the object of a member access, the
+/// callee of a call, or a template tag: `new a` without arguments would take what
+/// follows into its callee, and an optional chain written in parentheses ends there.
+pub fn chain_operand_needs_parens(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Unary(unary) if unary.stx.operator == OperatorName::New => {
+      !matches!(unary.stx.argument.stx.as_ref(), Expr::Call(_))
+        || is_parenthesized_call(&unary.stx.argument)
+    }
+    _ => expr.assoc.get::<ParenthesizedExpr>().is_some() && is_optional_chain(expr),
+  }
+}
+
+fn is_optional_chain(expr: &Node<Expr>) -> bool {
+  let (optional, inner): (bool, &Node<Expr>) = match expr.stx.as_ref() {
+    Expr::Call(call) => (call.stx.optional_chaining, &call.stx.callee),
+    Expr::Member(member) => (member.stx.optional_chaining, &member.stx.left),
+    Expr::ComputedMember(member) => (member.stx.optional_chaining, &member.stx.object),
+    Expr::NonNullAssertion(expr) => (false, &expr.stx.expression),
+    _ => return false,
+  };
+  // Parentheses end the inner chain.
+  optional || (inner.assoc.get::<ParenthesizedExpr>().is_none() && is_optional_chain(inner))
+}
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index e8f21b6..d5bf925 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -1,4 +1,5 @@
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_assignment_expr, emit_expr, emit_left_hand_side_expr, ExprCtx};
+use crate::stmt_start::expr_stmt_needs_parens;
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
@@ -13,7 +14,7 @@ use parse_js::ast::func::{Func, FuncBody};
 use parse_js::ast::import_export::{
   ExportName, ExportNames, ImportName, ImportNames, ModuleExportImportName,
 };
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, ParenthesizedExpr};
 use parse_js::ast::stmt::decl::{
   Accessibility, ClassDecl, FuncDecl, ParamDecl, PatDecl, VarDecl, VarDeclMode, VarDeclarator,
 };
@@ -107,7 +108,10 @@ fn expr_needs_paren_in_stmt(expr: &Node<Expr>) -> bool {
   matches!(
     expr.stx.as_ref(),
     Expr::LitObj(_) | Expr::Func(_) | Expr::Class(_) | Expr::ArrowFunc(_)
-  )
+  ) || expr_stmt_needs_parens(expr)
+    // A parenthesized string is not a directive.
+    || (matches!(expr.stx.as_ref(), Expr::LitStr(_))
+      && expr.assoc.get::<ParenthesizedExpr>().is_some())
 }
 
 fn emit_stmt_as_body(em: &mut Emitter, stmt: &Node<Stmt>) -> EmitResult {
@@ -183,7 +187,7 @@ fn emit_for_of(em: &mut Emitter, for_stmt: &Node<ForOfStmt>) -> EmitResult {
   em.write_punct("(");
   emit_for_in_of_lhs(em, &for_stmt.lhs)?;
   em.write_keyword("of");
-  emit_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
+  emit_assignment_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
   em.write_punct(")");
   emit_for_body(em, &for_stmt.body)
 }
@@ -209,7 +213,16 @@ fn emit_for_in_of_lhs(em: &mut Emitter, lhs: &ForInOfLhs) -> EmitResult {
 
 fn emit_for_body(em: &mut Emitter, body: &Node<ForBody>) -> EmitResult {
   let stmts = &body.stx.body;
-  if stmts.len() == 1 {
+  // A declaration is only allowed in a block.
+  let single_statement = stmts.len() == 1
+    && match stmts[0].stx.as_ref() {
+      Stmt::VarDecl(decl) => decl.stx.mode == VarDeclMode::Var,
+      Stmt::FunctionDecl(_) | Stmt::ClassDecl(_) => false,
+      Stmt::EnumDecl(_) | Stmt::NamespaceDecl(_) | Stmt::ModuleDecl(_) => false,
+      Stmt::InterfaceDecl(_) | Stmt::TypeAliasDecl(_) => false,
+      _ => true,
+    };
+  if single_statement {
     emit_stmt_as_body(em, &stmts[0])
   } else {
     em.write_punct("{");
@@ -390,7 +403,7 @@ fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
   }
   if let Some(init) = &decl.initializer {
     em.write_punct("=");
-    emit_expr(em, init, ExprCtx::Default)?;
+    emit_assignment_expr(em, init, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -486,7 +499,7 @@ pub(crate) fn emit_class_like<T>(
   emit_type_params(em, type_parameters);
   if let Some(extends) = extends {
     em.write_keyword("extends");
-    emit_expr(em, extends, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, extends, ExprCtx::Default)?;
   }
   if !implements.is_empty() {
     em.write_keyword("implements");
@@ -615,7 +628,7 @@ fn emit_class_member(em: &mut Emitter, member: &Node<ClassMember>) -> EmitResult
       }
       if let Some(init) = init {
         em.write_punct("=");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       em.write_punct(";");
       Ok(())
@@ -700,7 +713,7 @@ fn emit_import_stmt(em: &mut Emitter, import: &ImportStmt) -> EmitResult {
   emit_string_literal(em, &import.module);
   if let Some(attrs) = &import.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -798,7 +811,7 @@ fn emit_export_list_stmt(em: &mut Emitter, export: &ExportListStmt) -> EmitResul
   }
   if let Some(attrs) = &export.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -835,10 +848,10 @@ fn emit_export_default_expr(em: &mut Emitter, stmt: &Node<ExportDefaultExprStmt>
   em.write_keyword("default");
   if expr_needs_paren_in_stmt(&stmt.stx.expression) {
     em.write_punct("(");
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
     em.write_punct(")");
   } else {
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
   }
   em.write_punct(";");
   Ok(())
@@ -891,7 +904,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -933,7 +946,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -942,7 +955,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_with_assoc(&name.stx.key, &name.assoc),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
         }
@@ -953,7 +966,7 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
     }
     ClassOrObjKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr(em, expr, ExprCtx::Default)?;
+      emit_assignment_expr(em, expr, ExprCtx::Default)?;
       em.write_punct("]");
       Ok(())
     }
@@ -981,7 +994,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 3e08153..c08ef42 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -1971,7 +1971,13 @@ fn lower_expr(
         prefix: true,
       },
       OperatorName::New => {
-        if let AstExpr::Call(call) = unary.stx.argument.stx.as_ref() {
+        // `new (f(x))` constructs the result of `f(x)`; `new f(x)` constructs `f`.
+        let argument = &unary.stx.argument;
+        let parenthesized = argument
+          .assoc
+          .get::<parse_js::ast::node::ParenthesizedExpr>()
+          .is_some();
+        if let (AstExpr::Call(call), false) = (argument.stx.as_ref(), parenthesized) {
           lower_call_expr(call, builder, ctx, true)
         } else {
           let callee = lower_expr(&unary.stx.argument, builder, ctx);
diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 01cb075..846b930 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1436,6 +1436,10 @@ impl<'a> Parser<'a> {
         }
         // TypeScript: Type assertion: expr as Type or expr as const
         TT::KeywordAs if self.is_typescript() => {
+          if OPERATORS[&OperatorName::LessThan].precedence < min_prec {
+            self.restore_checkpoint(cp);
+            break;
+          }
           if asi_allowed && t.preceded_by_line_terminator {
             self.restore_checkpoint(cp);
             asi.did_end_with_asi = true;
@@ -1471,6 +1475,10 @@ impl<'a> Parser<'a> {
         }
         // TypeScript: Satisfies expression: expr satisfies Type
         TT::KeywordSatisfies if self.is_typescript() => {
+          if OPERATORS[&OperatorName::LessThan].precedence < min_prec {
+            self.restore_checkpoint(cp);
+            break;
+          }
           if asi_allowed && t.preceded_by_line_terminator {
             self.restore_checkpoint(cp);
             asi.did_end_with_asi = true;
-- 
2.43.0


From ec6a4a9d7465a7bd98b61569c2ccfd2a32fe2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 17/42] fix: emit anonymous default exports without a name

---
 emit-js/src/hir.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 1bd7d8a..ba995f0 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -531,7 +531,7 @@ fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) ->
     .function
     .as_ref()
     .ok_or_else(|| EmitError::unsupported("function metadata missing"))?;
-  emit_function_like(em, ctx, Some(ctx.name(def.name)), func, body)
+  emit_function_like(em, ctx, decl_name(ctx, def), func, body)
 }
 
 fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -541,7 +541,21 @@ fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> Emi
   let body = ctx
     .body(body_id)
     .ok_or_else(|| EmitError::unsupported("class body not found"))?;
-  emit_class_like(em, ctx, body, Some(ctx.name(def.name)), false)
+  emit_class_like(
+    em,
+    ctx,
+    body,
+    decl_name(ctx, def),
+    /*allow_anonymous=*/ def.is_default_export,
+  )
+}
+
+/// `export default function(){}` and `export default class{}` have no binding;
+/// lowering gives such definitions a placeholder name that is not an
+/// identifier.
+fn decl_name<'a>(ctx: &'a HirContext<'_>, def: &DefData) -> Option<&'a str> {
+  let name = ctx.name(def.name);
+  (!(def.is_default_export && name == "<anonymous>")).then_some(name)
 }
 
 fn emit_class_like(
-- 
2.43.0


From 67fd4853c4766a79c75f1f0197de7d8b7cf93281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 18/42] fix: emit object assignment patterns and number members
 that re-read as written

---
 emit-js/src/expr_js.rs |  2 +-
 emit-js/src/hir.rs     | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 8664653..58fb7f4 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1040,7 +1040,7 @@ fn unary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   }
 }
 
-fn requires_trailing_dot(rendered: &str) -> bool {
+pub(crate) fn requires_trailing_dot(rendered: &str) -> bool {
   let mut bytes = rendered.as_bytes();
   if bytes.starts_with(b"-") {
     bytes = &bytes[1..];
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index ba995f0..52997c5 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1,4 +1,5 @@
 use crate::escape::{emit_regex_literal, emit_string_literal, emit_template_literal_segment};
+use crate::expr_js::requires_trailing_dot;
 use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
   is_module_binding_identifier_token,
@@ -1447,9 +1448,6 @@ fn emit_pat(
       // comma operator as needing parentheses.
       let assignment_expr_min_prec =
         Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      if in_assignment {
-        em.write_punct("(");
-      }
       em.write_punct("{");
       for (idx, prop) in obj.props.iter().enumerate() {
         if idx > 0 {
@@ -1473,9 +1471,6 @@ fn emit_pat(
         emit_pat(em, ctx, body, rest, in_assignment)?;
       }
       em.write_punct("}");
-      if in_assignment {
-        em.write_punct(")");
-      }
     }
     PatKind::Assign {
       target,
@@ -1762,6 +1757,12 @@ fn emit_member(
     emit_member_property(em, ctx, body, &member.property)?;
     em.write_punct("]");
   } else if let ObjectKey::Ident(name) = &member.property {
+    // `1.a` would read the dot as part of the number.
+    if let ExprKind::Literal(Literal::Number(num)) = &ctx.expr(body, member.object).kind {
+      if requires_trailing_dot(num) {
+        em.write_punct(".");
+      }
+    }
     em.write_punct(".");
     em.write_identifier(ctx.name(*name));
   }
-- 
2.43.0


From 1bc3d7789a849668d21ba9f86ba01fcc03e13de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 19/42] fix: lower functions and classes nested in loop heads,
 patterns and computed keys

---
 hir-js/src/lower.rs | 160 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 148 insertions(+), 12 deletions(-)

diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index c08ef42..3e8b886 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -3904,21 +3904,27 @@ fn collect_var_decl<'a>(
 
 fn collect_for_lhs<'a>(
   lhs: &'a ForInOfLhs,
-  _descriptors: &mut Vec<DefDescriptor<'a>>,
-  _module_items: &mut Vec<ModuleItem<'a>>,
+  descriptors: &mut Vec<DefDescriptor<'a>>,
+  module_items: &mut Vec<ModuleItem<'a>>,
   names: &mut NameInterner,
-  _ambient: bool,
-  _in_global: bool,
+  ambient: bool,
+  in_global: bool,
   ctx: &mut LoweringContext,
 ) {
-  match lhs {
-    ForInOfLhs::Assign(pat) => {
-      let _ = collect_pat_names(pat, names, ctx);
-    }
-    ForInOfLhs::Decl((_, pat_decl)) => {
-      let _ = collect_pat_names(&pat_decl.stx.pat, names, ctx);
-    }
-  }
+  let pat = match lhs {
+    ForInOfLhs::Assign(pat) => pat,
+    ForInOfLhs::Decl((_, pat_decl)) => &pat_decl.stx.pat,
+  };
+  let _ = collect_pat_names(pat, names, ctx);
+  collect_exprs_from_pat(
+    pat,
+    descriptors,
+    module_items,
+    names,
+    ambient,
+    in_global,
+    ctx,
+  );
 }
 
 fn walk_stmt_children<'a>(
@@ -4202,6 +4208,15 @@ fn walk_stmt_children<'a>(
       if let Some(catch) = &tr.stx.catch {
         if let Some(param) = &catch.stx.parameter {
           let _ = collect_pat_names(&param.stx.pat, names, ctx);
+          collect_exprs_from_pat(
+            &param.stx.pat,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
         }
         for stmt in catch.stx.body.iter() {
           collect_stmt(
@@ -4252,6 +4267,26 @@ fn walk_stmt_children<'a>(
         ctx,
       );
     }
+    AstStmt::Throw(th) => collect_expr(
+      &th.stx.value,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    ),
+    AstStmt::Label(label) => collect_stmt(
+      &label.stx.statement,
+      descriptors,
+      module_items,
+      names,
+      false,
+      false,
+      ambient,
+      in_global,
+      ctx,
+    ),
     _ => {}
   }
 }
@@ -4588,6 +4623,21 @@ fn collect_expr<'a>(
       use parse_js::ast::class_or_object::ClassOrObjVal;
       use parse_js::ast::class_or_object::ObjMemberType;
       for member in obj.stx.members.iter() {
+        if let ObjMemberType::Valued {
+          key: ClassOrObjKey::Computed(key),
+          ..
+        } = &member.stx.typ
+        {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         match &member.stx.typ {
           ObjMemberType::Valued { key, val } => match val {
             ClassOrObjVal::Prop(Some(expr)) => collect_expr(
@@ -4774,6 +4824,17 @@ fn collect_expr<'a>(
     }
     AstExpr::ObjPat(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -4851,6 +4912,61 @@ fn collect_expr<'a>(
         ctx,
       );
     }
+    AstExpr::Unary(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::UnaryPostfix(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::Instantiation(inst) => {
+      collect_expr(
+        &inst.stx.expression,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::Import(import) => {
+      collect_expr(
+        &import.stx.module,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+      if let Some(attributes) = &import.stx.attributes {
+        collect_expr(
+          attributes,
+          descriptors,
+          module_items,
+          names,
+          ambient,
+          in_global,
+          ctx,
+        );
+      }
+    }
     _ => {}
   }
 }
@@ -5009,6 +5125,17 @@ fn collect_exprs_from_pat<'a>(
     }
     AstPat::Obj(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -5101,6 +5228,15 @@ fn collect_func_params<'a>(
       in_global,
       ctx,
     );
+    collect_exprs_from_pat(
+      &param.stx.pattern.stx.pat,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    );
     if let Some(default) = &param.stx.default_value {
       collect_expr(
         default,
-- 
2.43.0


From e50e9606c7a612443f6539584a0d8d4bfa4e8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 20/42] fix: keep undefined where an operand must stay a
 reference

---
 minify-js/src/opt/sem_rewrite.rs | 37 +++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/minify-js/src/opt/sem_rewrite.rs b/minify-js/src/opt/sem_rewrite.rs
index 239b25f..04271d7 100644
--- a/minify-js/src/opt/sem_rewrite.rs
+++ b/minify-js/src/opt/sem_rewrite.rs
@@ -102,15 +102,40 @@ impl<'a> SemanticRewriteVisitor<'a> {
 }
 
 #[derive(VisitorMut)]
-#[visitor(ExprNode(exit))]
+#[visitor(ExprNode)]
 struct GlobalUndefinedToVoidZeroVisitor<'a> {
   cx: &'a OptCtx,
   changed: bool,
+  // Operands that must stay references (`++undefined`, `delete undefined`).
+  references: Vec<Loc>,
 }
 
 impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
   fn new(cx: &'a OptCtx) -> Self {
-    Self { cx, changed: false }
+    Self {
+      cx,
+      changed: false,
+      references: Vec::new(),
+    }
+  }
+
+  fn reference_operand(expr: &Expr) -> Option<Loc> {
+    match expr {
+      Expr::Unary(unary)
+        if matches!(
+          unary.stx.operator,
+          OperatorName::PrefixIncrement | OperatorName::PrefixDecrement | OperatorName::Delete
+        ) =>
+      {
+        Some(unary.stx.argument.loc)
+      }
+      Expr::UnaryPostfix(unary) => Some(unary.stx.argument.loc),
+      _ => None,
+    }
+  }
+
+  fn enter_expr_node(&mut self, node: &mut ExprNode) {
+    self.references.extend(Self::reference_operand(&node.stx));
   }
 
   fn is_disabled(&self, assoc: &parse_js::ast::node::NodeAssocData) -> bool {
@@ -135,6 +160,9 @@ impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
   }
 
   fn exit_expr_node(&mut self, node: &mut ExprNode) {
+    if Self::reference_operand(&node.stx).is_some() {
+      self.references.pop();
+    }
     if self.is_disabled(&node.assoc) {
       return;
     }
@@ -142,7 +170,10 @@ impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
     let Expr::Id(id) = node.stx.as_ref() else {
       return;
     };
-    if id.stx.name == "undefined" && resolved_symbol(&id.assoc).is_none() {
+    if id.stx.name == "undefined"
+      && resolved_symbol(&id.assoc).is_none()
+      && self.references.last() != Some(&node.loc)
+    {
       self.changed = true;
       *node.stx = build_void_zero(node.loc);
     }
-- 
2.43.0


From aa1c674bd9193d4d1bf14913d80b6f5e791b4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 21/42] fix: function and class bodies inside a for header
 allow semicolon insertion

---
 parse-js/src/parse/class_or_object.rs | 2 ++
 parse-js/src/parse/func.rs            | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 943ec33..b1ac47d 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -1,5 +1,6 @@
 use super::expr::pat::ParsePatternRules;
 use super::expr::Asi;
+use super::AsiContext;
 use super::ParseCtx;
 use super::Parser;
 use crate::ast::class_or_object::ClassIndexSignature;
@@ -142,6 +143,7 @@ impl<'a> Parser<'a> {
     ctx: ParseCtx,
     ambient: bool,
   ) -> SyntaxResult<Vec<Node<ClassMember>>> {
+    let ctx = ctx.with_asi(AsiContext::Statements);
     self.require(TT::BraceOpen)?;
     let mut members = Vec::new();
     let mut seen_constructor = false;
diff --git a/parse-js/src/parse/func.rs b/parse-js/src/parse/func.rs
index ba7ff1d..a28ffb4 100644
--- a/parse-js/src/parse/func.rs
+++ b/parse-js/src/parse/func.rs
@@ -1,3 +1,4 @@
+use super::AsiContext;
 use super::ParseCtx;
 use super::Parser;
 use crate::ast::expr::pat::ClassOrFuncName;
@@ -147,7 +148,10 @@ impl<'a> Parser<'a> {
     self.in_switch = 0;
     let res = (|| {
       self.require(TT::BraceOpen)?;
-      let body = self.stmts(ctx.non_top_level(), TT::BraceClose)?;
+      let body = self.stmts(
+        ctx.non_top_level().with_asi(AsiContext::Statements),
+        TT::BraceClose,
+      )?;
       self.require(TT::BraceClose)?;
       Ok(body)
     })();
-- 
2.43.0


From af767a872fc15db34de45d5b1754daa0a5e1a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 22/42] fix: loop subjects count as uses in the loop scope;
 keep exported class names

---
 minify-js/src/rename/mod.rs | 73 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index 53ceeda..b65b1de 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -10,7 +10,7 @@ use parse_js::ast::expr::IdExpr;
 use parse_js::ast::import_export::{ExportName, ModuleExportImportName};
 use parse_js::ast::node::Node;
 use parse_js::ast::stmt::decl::{ClassDecl, FuncDecl, VarDecl};
-use parse_js::ast::stmt::ExportListStmt;
+use parse_js::ast::stmt::{ExportListStmt, ForInStmt, ForOfStmt};
 use parse_js::ast::stx::TopLevel;
 use parse_js::lex::KEYWORDS_MAPPING;
 use parse_js::lex::{lex_next, LexMode, Lexer};
@@ -67,6 +67,8 @@ type ClassDeclNode = Node<ClassDecl>;
 type ClassOrFuncNameNode = Node<ClassOrFuncName>;
 type ExportNameNode = Node<ExportName>;
 type ExportListStmtNode = Node<ExportListStmt>;
+type ForInStmtNode = Node<ForInStmt>;
+type ForOfStmtNode = Node<ForOfStmt>;
 type FuncDeclNode = Node<FuncDecl>;
 type IdExprNode = Node<IdExpr>;
 type IdPatNode = Node<IdPat>;
@@ -81,6 +83,8 @@ type VarDeclNode = Node<VarDecl>;
   ClassOrFuncNameNode(enter),
   ExportListStmtNode(enter, exit),
   ExportNameNode(enter, exit),
+  ForInStmtNode(enter),
+  ForOfStmtNode(enter),
   FuncDeclNode(enter, exit),
   IdExprNode(enter),
   IdPatNode(enter),
@@ -153,7 +157,70 @@ impl<'a> SymbolCollector<'a> {
   }
 }
 
+/// Records the names a `for-in`/`for-of` subject refers to as used in the scope of
+/// the loop's bindings: the subject is evaluated where they are visible (in TDZ).
+#[derive(VisitorMut)]
+#[visitor(IdExprNode(enter), IdPatNode(enter))]
+struct LoopSubjectVisitor<'a, 'b> {
+  inner: &'b mut SymbolCollector<'a>,
+  loop_scope: ScopeId,
+}
+
+impl LoopSubjectVisitor<'_, '_> {
+  fn record(&mut self, sym: Option<SymbolId>, name: &str) {
+    let Some(sym) = sym else {
+      self.inner.record_unknown(self.loop_scope, name);
+      return;
+    };
+    let decl_scope = self.inner.sem.symbol(sym).decl_scope;
+    let mut current = Some(self.loop_scope);
+    while let Some(scope) = current {
+      if scope == decl_scope {
+        self.inner.record_symbol_usage(self.loop_scope, sym);
+        return;
+      }
+      current = self.inner.sem.scope(scope).parent;
+    }
+  }
+
+  fn enter_id_expr_node(&mut self, node: &mut IdExprNode) {
+    self.record(resolved_symbol(&node.assoc), &node.stx.name);
+  }
+
+  fn enter_id_pat_node(&mut self, node: &mut IdPatNode) {
+    self.record(resolved_symbol(&node.assoc), &node.stx.name);
+  }
+}
+
 impl SymbolCollectorVisitor<'_> {
+  fn record_loop_subject(
+    &mut self,
+    outer: Option<ScopeId>,
+    body: Option<ScopeId>,
+    subject: &mut Node<Expr>,
+  ) {
+    let Some(loop_scope) = body.and_then(|body| self.inner.sem.scope(body).parent) else {
+      return;
+    };
+    if outer == Some(loop_scope) {
+      return;
+    }
+    subject.drive_mut(&mut LoopSubjectVisitor {
+      inner: &mut self.inner,
+      loop_scope,
+    });
+  }
+
+  fn enter_for_in_stmt_node(&mut self, node: &mut ForInStmtNode) {
+    let body = scope_id(&node.stx.body.assoc);
+    self.record_loop_subject(scope_id(&node.assoc), body, &mut node.stx.rhs);
+  }
+
+  fn enter_for_of_stmt_node(&mut self, node: &mut ForOfStmtNode) {
+    let body = scope_id(&node.stx.body.assoc);
+    self.record_loop_subject(scope_id(&node.assoc), body, &mut node.stx.rhs);
+  }
+
   fn enter_export_list_stmt_node(&mut self, node: &mut ExportListStmtNode) {
     self
       .inner
@@ -225,7 +292,9 @@ impl SymbolCollectorVisitor<'_> {
     };
     let mark_export = *self.inner.export_decl_stack.last().unwrap_or(&false);
     if let Some(sym) = declared_symbol(&node.assoc) {
-      self.inner.maybe_mark_export(scope, sym, mark_export);
+      // The name node of a class lies in the class scope; its binding does not.
+      let decl_scope = self.inner.sem.symbol(sym).decl_scope;
+      self.inner.maybe_mark_export(decl_scope, sym, mark_export);
       self.inner.record_symbol_usage(scope, sym);
     } else {
       self.inner.record_unknown(scope, &node.stx.name);
-- 
2.43.0


From ab11fcedf19d7e296468d3651d403277f2854554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 23/42] fix: negative numbers are emitted as a sign and a
 literal

---
 emit-js/src/emitter.rs    |  8 ++++++++
 emit-js/src/expr_js.rs    | 21 +++++++++------------
 emit-js/src/hir.rs        | 17 +++++++++++++----
 emit-js/src/precedence.rs |  4 ++++
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 360a046..39b969c 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -356,6 +356,14 @@ impl Emitter {
 
   /// Emits a numeric literal.
   pub fn write_number(&mut self, number: &str) {
+    // A negative value (from constant folding) is a sign and a literal.
+    let number = match number.strip_prefix('-') {
+      Some(magnitude) => {
+        self.write_punct("-");
+        magnitude
+      }
+      None => number,
+    };
     self.write_with_kind(number, TokenKind::Number);
   }
 
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 58fb7f4..b3b8e41 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -206,10 +206,11 @@ fn emit_binary(em: &mut Emitter, binary: &Node<BinaryExpr>, ctx: ExprCtx) -> Emi
   let right_min_prec = child_min_prec_for_binary(binary.stx.operator, Side::Right).value();
 
   let force_left_parens = binary.stx.operator == OperatorName::Exponentiation
-    && matches!(
-      binary.stx.left.stx.as_ref(),
-      Expr::Unary(_) | Expr::UnaryPostfix(_)
-    );
+    && match binary.stx.left.stx.as_ref() {
+      Expr::Unary(_) | Expr::UnaryPostfix(_) => true,
+      Expr::LitNum(num) => num.stx.value.0.is_sign_negative(),
+      _ => false,
+    };
   let force_left_parens = force_left_parens
     || (binary.stx.operator == OperatorName::NullishCoalescing && is_logical_and_or(&binary.stx.left))
     || ((binary.stx.operator == OperatorName::LogicalAnd
@@ -362,9 +363,9 @@ fn emit_member(em: &mut Emitter, member: &Node<MemberExpr>, ctx: ExprCtx) -> Emi
     emit_chain_operand(em, &member.stx.left, ctx)?;
     em.write_str("?.");
   } else if let Expr::LitNum(num) = member.stx.left.stx.as_ref() {
-    let rendered = num.stx.value.to_string();
-    em.write_str(&rendered);
-    if requires_trailing_dot(&rendered) {
+    emit_chain_operand(em, &member.stx.left, ctx)?;
+    // `1.a` would read the dot as part of the number.
+    if requires_trailing_dot(&num.stx.value.to_string()) {
       em.write_punct(".");
     }
     em.write_punct(".");
@@ -1041,11 +1042,7 @@ fn unary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
 }
 
 pub(crate) fn requires_trailing_dot(rendered: &str) -> bool {
-  let mut bytes = rendered.as_bytes();
-  if bytes.starts_with(b"-") {
-    bytes = &bytes[1..];
-  }
-  bytes.iter().all(|b| b.is_ascii_digit())
+  rendered.as_bytes().iter().all(|b| b.is_ascii_digit())
 }
 
 fn is_comma_expression(expr: &Expr) -> bool {
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 52997c5..65314b1 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1548,6 +1548,9 @@ fn expr_prec(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> Result<Prec,
     }
     ExprKind::ClassExpr { .. } => PRIMARY_PRECEDENCE,
     ExprKind::Literal(Literal::Undefined) => Prec::new(OPERATORS[&OperatorName::Void].precedence),
+    ExprKind::Literal(lit) if is_negative_number(lit) => {
+      Prec::new(OPERATORS[&OperatorName::UnaryNegation].precedence)
+    }
     ExprKind::Literal(_) => PRIMARY_PRECEDENCE,
     ExprKind::ImportCall { .. } => CALL_MEMBER_PRECEDENCE,
     ExprKind::This
@@ -2026,10 +2029,11 @@ fn emit_binary(
 ) -> EmitResult {
   let op_name = binary_operator(op);
   let left_needs_paren = op_name == OperatorName::Exponentiation
-    && matches!(
-      ctx.expr(body, left).kind,
-      ExprKind::Unary { .. } | ExprKind::Update { .. }
-    );
+    && match &ctx.expr(body, left).kind {
+      ExprKind::Unary { .. } | ExprKind::Update { .. } => true,
+      ExprKind::Literal(lit) => matches!(lit, Literal::Undefined) || is_negative_number(lit),
+      _ => false,
+    };
   if left_needs_paren {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, left)?;
@@ -2051,6 +2055,11 @@ fn emit_binary(
   Ok(())
 }
 
+/// Constant folding leaves negative values, which are emitted with a sign.
+fn is_negative_number(lit: &Literal) -> bool {
+  matches!(lit, Literal::Number(value) if value.starts_with('-'))
+}
+
 fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
   match op {
     OperatorName::LogicalNot => em.write_punct("!"),
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index cb3caaf..3dd0eb7 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -108,6 +108,10 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
     Expr::Binary(binary) => Prec::new(OPERATORS[&binary.stx.operator].precedence),
     Expr::Cond(_) => Prec::new(OPERATORS[&OperatorName::Conditional].precedence),
     Expr::Unary(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
+    // Emitted with a sign.
+    Expr::LitNum(num) if num.stx.value.0.is_sign_negative() => {
+      Prec::new(OPERATORS[&OperatorName::UnaryNegation].precedence)
+    }
     Expr::UnaryPostfix(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::Call(_) | Expr::Member(_) | Expr::ComputedMember(_) | Expr::Instantiation(_) => {
       CALL_MEMBER_PRECEDENCE
-- 
2.43.0


From 81ee318d4e2a3852ee1fe55820521fd6dc1e187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 24/42] fix: synthesized module statements keep their place

---
 emit-js/src/hir.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 65314b1..ce2790d 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -108,10 +108,13 @@ pub fn emit_hir_file(em: &mut Emitter, lowered: &LowerResult) -> EmitResult {
     });
     seq += 1;
   }
+  // Statements keep their order; a synthesized statement may have no position.
+  let mut stmt_start = 0;
   for stmt_id in root_body.root_stmts.iter().copied() {
     let stmt = ctx.stmt(root_body, stmt_id);
+    stmt_start = stmt_start.max(stmt.span.start);
     items.push(ItemWithSpan {
-      start: stmt.span.start,
+      start: stmt_start,
       kind: 2,
       seq,
       item: ModuleItem::Stmt(stmt_id),
-- 
2.43.0


From 4243ba97a8d7fe7b63d21d26252b5b63c47ba3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 25/42] fix: no lexical binding between a block function and
 its hoisted var takes its name

---
 minify-js/src/rename/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index b65b1de..bd5898c 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -296,6 +296,11 @@ impl SymbolCollectorVisitor<'_> {
       let decl_scope = self.inner.sem.symbol(sym).decl_scope;
       self.inner.maybe_mark_export(decl_scope, sym, mark_export);
       self.inner.record_symbol_usage(scope, sym);
+      // A block function also assigns its hoisted `var`: a lexical binding of
+      // that name in between would stop the hoisting.
+      if let Some(var_sym) = self.inner.sem.annex_b_function_decls.get(&sym).copied() {
+        self.inner.record_symbol_usage(decl_scope, var_sym);
+      }
     } else {
       self.inner.record_unknown(scope, &node.stx.name);
     }
-- 
2.43.0


From 3ef36f64600adc0b7906a61c54ce713252cc5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 26/42] fix: a word, slash or equals sign is kept apart from
 the token it would join

---
 emit-js/src/emitter.rs | 17 ++++++++++++++++-
 emit-js/src/expr_js.rs |  4 +++-
 emit-js/src/hir.rs     |  2 +-
 emit-js/src/js_expr.rs |  2 +-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 39b969c..ec61fc2 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -196,6 +196,7 @@ enum Boundary {
   Minus,
   MinusMinus,
   Slash,
+  Regex,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -382,6 +383,15 @@ impl Emitter {
     self.state.trailing = Boundary::Word;
   }
 
+  /// Emits a regular expression literal. A word written directly after it would
+  /// be read as its flags.
+  pub fn write_regex_literal(&mut self, literal: &str) {
+    self.write_str(literal);
+    if literal.ends_with('/') {
+      self.state.trailing = Boundary::Regex;
+    }
+  }
+
   /// Emits punctuation or operators.
   pub fn write_punct(&mut self, punct: &str) {
     let kind = match punct {
@@ -391,6 +401,10 @@ impl Emitter {
       "--" => TokenKind::MinusMinus,
       _ => TokenKind::Other,
     };
+    // `a! = b` and `a! == b` are not `a != b` and `a !== b`.
+    if punct.starts_with('=') && self.out.last() == Some(&b'!') {
+      self.write_space();
+    }
     self.write_with_kind(punct, kind);
   }
 
@@ -519,7 +533,8 @@ fn needs_space(prev: Boundary, next: Leading) -> bool {
     | (Boundary::Minus, Leading::Minus)
     | (Boundary::MinusMinus, Leading::Minus)
     | (Boundary::Slash, Leading::Slash)
-    | (Boundary::Slash, Leading::Star) => true,
+    | (Boundary::Slash, Leading::Star)
+    | (Boundary::Regex, Leading::Word | Leading::Slash) => true,
     _ => false,
   }
 }
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index b3b8e41..deff7e1 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -164,7 +164,9 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::LitRegex(lit) => {
       let mut buf = Vec::new();
       crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
+      em.write_regex_literal(
+        std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"),
+      );
     }
     Expr::LitArr(arr) => emit_array_literal(em, arr)?,
     Expr::LitObj(obj) => emit_object_literal(em, obj)?,
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index ce2790d..2216a27 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1957,7 +1957,7 @@ fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
     Literal::Regex(regex) => {
       let mut buf = Vec::new();
       emit_regex_literal(&mut buf, regex);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal is UTF-8"));
+      em.write_regex_literal(std::str::from_utf8(&buf).expect("regex literal is UTF-8"));
     }
   }
   Ok(())
diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index e709012..d053416 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -257,7 +257,7 @@ impl<'a> JsExprEmitter<'a> {
     crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
     self
       .out
-      .write_str(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
+      .write_regex_literal(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
     Ok(())
   }
 
-- 
2.43.0


From e4cdbb9ef6cc52ca9ff01497e6d151b0972e3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 27/42] fix: statements starting with 'namespace as' are
 parenthesised

---
 emit-js/src/stmt_start.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/stmt_start.rs b/emit-js/src/stmt_start.rs
index 2c3255f..1c80bc4 100644
--- a/emit-js/src/stmt_start.rs
+++ b/emit-js/src/stmt_start.rs
@@ -164,9 +164,17 @@ fn expr_tokens(expr: &Node<Expr>) -> TokenPrefix {
     Expr::TaggedTemplate(tagged) => {
       prefix_with_fallback(&tagged.stx.function, TokenKind::TemplateStart)
     }
-    Expr::TypeAssertion(assertion) => expr_tokens(&assertion.stx.expression),
-    Expr::NonNullAssertion(non_null) => expr_tokens(&non_null.stx.expression),
-    Expr::SatisfiesExpr(satisfies) => expr_tokens(&satisfies.stx.expression),
+    Expr::TypeAssertion(assertion) => prefix_with_fallback(
+      &assertion.stx.expression,
+      TokenKind::Identifier("as".to_string()),
+    ),
+    Expr::NonNullAssertion(non_null) => {
+      prefix_with_fallback(&non_null.stx.expression, TokenKind::Other)
+    }
+    Expr::SatisfiesExpr(satisfies) => prefix_with_fallback(
+      &satisfies.stx.expression,
+      TokenKind::Identifier("satisfies".to_string()),
+    ),
     Expr::Unary(unary) => unary_tokens(unary),
     Expr::UnaryPostfix(postfix) => prefix_with_fallback(&postfix.stx.argument, TokenKind::Other),
     Expr::ArrowFunc(_) => prefix(TokenKind::ParenthesisOpen, None),
-- 
2.43.0


From fc0f258f26267df29830b2086a9cc52630b24cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 28/42] fix: a getter signature without a type is emitted
 without one

---
 emit-js/src/ts_type.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/ts_type.rs b/emit-js/src/ts_type.rs
index 560c2fd..aa7e2d4 100644
--- a/emit-js/src/ts_type.rs
+++ b/emit-js/src/ts_type.rs
@@ -558,12 +558,10 @@ impl<'a> TypeEmitter<'a> {
     self.emit_property_key(&get.key)?;
     self.em.write_punct("(");
     self.em.write_punct(")");
-    self.em.write_punct(":");
-    self.space();
     if let Some(ret) = &get.return_type {
+      self.em.write_punct(":");
+      self.space();
       self.emit_type_expr_with_prec(ret, TypePrec::ArrowOrConditional)?;
-    } else {
-      self.em.write_keyword("void");
     }
     Ok(())
   }
-- 
2.43.0


From d88d033c57b67e8a907e0b215e022a1f7cac1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 29/42] fix: non-null assertions before '=', in constructor
 targets, and calls after updates

---
 parse-js/src/parse/expr/mod.rs | 141 +++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 61 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 846b930..0f8c2e3 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -17,6 +17,7 @@ use crate::ast::expr::Expr;
 use crate::ast::expr::FuncExpr;
 use crate::ast::expr::IdExpr;
 use crate::ast::expr::InstantiationExpr;
+use crate::ast::expr::NonNullAssertionExpr;
 use crate::ast::expr::MemberExpr;
 use crate::ast::expr::NewTarget;
 use crate::ast::expr::SuperExpr;
@@ -1018,6 +1019,20 @@ impl<'a> Parser<'a> {
                       .into_wrapped();
                       continue;
                     }
+                    // A non-null assertion is part of the constructor target (`new a!()`).
+                    TT::Exclamation
+                      if p.is_typescript() && !p.peek().preceded_by_line_terminator =>
+                    {
+                      let end = p.consume();
+                      callee = Node::new(
+                        callee.loc + end.loc,
+                        NonNullAssertionExpr {
+                          expression: Box::new(callee),
+                        },
+                      )
+                      .into_wrapped();
+                      continue;
+                    }
                     // A tagged template is a MemberExpression (`new tag`x`()`).
                     TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
                       let loc = p.peek().loc;
@@ -1034,48 +1049,46 @@ impl<'a> Parser<'a> {
                       callee = node.into_wrapped();
                       continue;
                     }
-                    _ => break,
-                  }
-                }
-
-                // TypeScript: Allow explicit type arguments on constructor targets
-                // (`new Foo<T>()`, `new Foo.Bar<T>()`).
-                if p.is_typescript()
-                  && p.peek().typ == TT::ChevronLeft
-                  && p.is_start_of_type_arguments()
-                {
-                  if let Some((type_arguments, close_loc)) = p.rewindable(|p| {
-                    p.require(TT::ChevronLeft)?;
-                    let (type_arguments, close_loc) =
-                      match p.ts_type_arguments_after_chevron_left(ctx) {
-                      Ok(res) => res,
-                      Err(_) => return Ok(None),
-                    };
-
-                    let next = p.peek();
-                    let tagged_template = !next.preceded_by_line_terminator
-                      && matches!(
-                        next.typ,
-                        TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd
-                      );
-
-                    if p.allow_bare_ts_type_args
-                      || tagged_template
-                      || Self::can_follow_type_arguments_in_expression(next.typ)
-                    {
-                      Ok(Some((type_arguments, close_loc)))
-                    } else {
-                      Ok(None)
+                    // TypeScript: Allow explicit type arguments on constructor targets
+                    // (`new Foo<T>()`, `new Foo.Bar<T>()`).
+                    TT::ChevronLeft if p.is_typescript() && p.is_start_of_type_arguments() => {
+                      if let Some((type_arguments, close_loc)) = p.rewindable(|p| {
+                        p.require(TT::ChevronLeft)?;
+                        let (type_arguments, close_loc) =
+                          match p.ts_type_arguments_after_chevron_left(ctx) {
+                          Ok(res) => res,
+                          Err(_) => return Ok(None),
+                        };
+
+                        let next = p.peek();
+                        let tagged_template = !next.preceded_by_line_terminator
+                          && matches!(
+                            next.typ,
+                            TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd
+                          );
+
+                        if p.allow_bare_ts_type_args
+                          || tagged_template
+                          || Self::can_follow_type_arguments_in_expression(next.typ)
+                        {
+                          Ok(Some((type_arguments, close_loc)))
+                        } else {
+                          Ok(None)
+                        }
+                      })? {
+                        callee = Node::new(
+                          callee.loc + close_loc,
+                          InstantiationExpr {
+                            expression: Box::new(callee),
+                            type_arguments,
+                          },
+                        )
+                        .into_wrapped();
+                        continue;
+                      }
+                      break;
                     }
-                  })? {
-                    callee = Node::new(
-                      callee.loc + close_loc,
-                      InstantiationExpr {
-                        expression: Box::new(callee),
-                        type_arguments,
-                      },
-                    )
-                    .into_wrapped();
+                    _ => break,
                   }
                 }
 
@@ -1348,8 +1361,19 @@ impl<'a> Parser<'a> {
       if asi_allowed
         && t.preceded_by_line_terminator
         && t.typ != TT::Comma
-        && matches!(left.stx.as_ref(), Expr::ArrowFunc(_))
         && left.assoc.get::<ParenthesizedExpr>().is_none()
+        && match left.stx.as_ref() {
+          Expr::ArrowFunc(_) => true,
+          // An update expression cannot be called, indexed or used as a tag.
+          Expr::UnaryPostfix(_) => matches!(
+            t.typ,
+            TT::ParenthesisOpen
+              | TT::BracketOpen
+              | TT::LiteralTemplatePartString
+              | TT::LiteralTemplatePartStringEnd
+          ),
+          _ => false,
+        }
       {
         self.restore_checkpoint(cp);
         asi.did_end_with_asi = true;
@@ -1381,26 +1405,16 @@ impl<'a> Parser<'a> {
           continue;
         }
         // TypeScript: Non-null assertion: expr!
-        // We need to distinguish between non-null assertion (expr!) and
-        // inequality operators (!= and !==).
+        // The inequality operators are tokens of their own, so `a! = b` is an assignment.
         TT::Exclamation if self.is_typescript() && !t.preceded_by_line_terminator => {
-          let next = self.peek();
-          if next.typ != TT::Equals && next.typ != TT::EqualsEquals {
-            // This is a non-null assertion: expr!
-            use crate::ast::expr::NonNullAssertionExpr;
-            left = Node::new(
-              left.loc + t.loc,
-              NonNullAssertionExpr {
-                expression: Box::new(left),
-              },
-            )
-            .into_wrapped();
-            continue;
-          }
-          // Otherwise it's != or !==, so restore checkpoint and continue loop to re-process
-          // We restore so the binary operator handling code below can process != or !==
-          self.restore_checkpoint(cp);
-          continue; // Restart loop to re-process the ! token as part of != or !==
+          left = Node::new(
+            left.loc + t.loc,
+            NonNullAssertionExpr {
+              expression: Box::new(left),
+            },
+          )
+          .into_wrapped();
+          continue;
         }
         // Tagged templates allow line terminators between the tag expression and
         // the template literal (`tag\n\`x\``). ASI must not split in that case.
@@ -1552,7 +1566,12 @@ impl<'a> Parser<'a> {
                 | Expr::ComputedMember(_)
                 | Expr::Call(_)
                 | Expr::Instantiation(_)
+                | Expr::NonNullAssertion(_)
+                | Expr::TaggedTemplate(_)
+                | Expr::This(_)
             )
+            || self.is_typescript()
+              && matches!(&*left.stx, Expr::Unary(unary) if unary.stx.operator == OperatorName::New)
           {
             if let Some((type_arguments, close_loc)) = self.rewindable(|p| {
               let (type_arguments, close_loc) = match p.ts_type_arguments_after_chevron_left(ctx) {
-- 
2.43.0


From 66c6fb9fbff5d0b7ae7ecc50a21f71be7d220be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 30/42] fix: interface and namespace are identifiers where they
 start no declaration

---
 parse-js/src/parse/stmt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 3e1e3d3..2d0cf7a 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -145,14 +145,14 @@ impl<'a> Parser<'a> {
       TT::Semicolon => self.empty_stmt()?.into_wrapped(),
 
       // TypeScript declarations
-      TT::KeywordInterface => self.interface_decl(ctx, false, false)?.into_wrapped(),
+      TT::KeywordInterface if self.is_strict_ecmascript() || (!t1.preceded_by_line_terminator && is_valid_pattern_identifier(t1.typ, ctx.rules)) => self.interface_decl(ctx, false, false)?.into_wrapped(),
       TT::KeywordType if self.starts_with_type_alias_decl(ctx) => self.type_alias_decl(ctx, false, false)?.into_wrapped(),
       TT::KeywordEnum if !self.is_strict_ecmascript() => {
         self.enum_decl(ctx, false, false, false)?.into_wrapped()
       }
       // `module` and `namespace` are contextual keywords - only treat as declarations if followed by identifier/string
       // Allow `module.exports` and `namespace.something` to be parsed as expressions
-      TT::KeywordNamespace | TT::KeywordModule if matches!(t1.typ, TT::Identifier | TT::LiteralString) => self.namespace_or_module_decl(ctx, false, false)?,
+      TT::KeywordNamespace | TT::KeywordModule if !t1.preceded_by_line_terminator && (t1.typ == TT::LiteralString || is_valid_pattern_identifier(t1.typ, ctx.rules)) => self.namespace_or_module_decl(ctx, false, false)?,
       // TypeScript: `declare` keyword - but check if it's being used as an identifier
       // Error recovery: `declare \`template\`` is a tagged template, not a declare statement
       TT::KeywordDeclare if !t1.preceded_by_line_terminator && t1.typ != TT::LiteralTemplatePartString && t1.typ != TT::LiteralTemplatePartStringEnd => self.declare_stmt(ctx)?,
-- 
2.43.0


From 99cb81d20231058a5647d2a11c5be3bc9aef1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 31/42] fix: conditional types bind looser than unions; members
 end at line terminators

---
 parse-js/src/parse/type_expr.rs | 44 ++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index 86cf085..e976784 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -49,7 +49,7 @@ impl<'a> Parser<'a> {
 
   /// Main entry point for parsing type expressions
   pub fn type_expr(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
-    self.type_union_or_intersection(ctx)
+    self.type_conditional(ctx)
   }
 
   /// Parse type expression or type predicate for function return type
@@ -121,7 +121,7 @@ impl<'a> Parser<'a> {
     if asserts {
       self.restore_checkpoint(checkpoint);
     }
-    self.type_union_or_intersection(ctx)
+    self.type_conditional(ctx)
   }
 
   /// Parse union types (lowest precedence): T | U | V
@@ -159,7 +159,7 @@ impl<'a> Parser<'a> {
     // TypeScript allows leading & in intersection types: type A = & B & C
     let has_leading_amp = self.consume_if(TT::Ampersand).is_match();
 
-    let first = self.type_conditional(ctx)?;
+    let first = self.type_array_or_postfix(ctx)?;
 
     // Check if there are more intersection members
     if !has_leading_amp && self.peek().typ != TT::Ampersand {
@@ -168,7 +168,7 @@ impl<'a> Parser<'a> {
 
     let mut types = vec![first];
     while self.consume_if(TT::Ampersand).is_match() {
-      types.push(self.type_conditional(ctx)?);
+      types.push(self.type_array_or_postfix(ctx)?);
     }
 
     if types.len() == 1 {
@@ -189,11 +189,14 @@ impl<'a> Parser<'a> {
   /// Parse conditional types: T extends U ? X : Y
   fn type_conditional(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
-    let check_type = self.type_array_or_postfix(ctx)?;
+    // `extends` binds looser than `|` and `&`: `A | B extends C ? D : E` checks the union.
+    let check_type = self.type_union_or_intersection(ctx)?;
 
-    if !self.consume_if(TT::KeywordExtends).is_match() {
+    let next = self.peek();
+    if next.typ != TT::KeywordExtends || next.preceded_by_line_terminator {
       return Ok(check_type);
     }
+    self.consume();
 
     // The `extends` clause can contain unions/intersections (e.g. `T extends null | undefined ? ...`)
     // so parse it as a full type expression rather than a postfix-only type.
@@ -583,7 +586,11 @@ impl<'a> Parser<'a> {
   fn type_reference(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
     let name = self.parse_type_entity_name()?;
-    let type_arguments = if self.is_start_of_type_arguments() {
+    // Type arguments stay on the line of the name: in a list of members, `<` on the
+    // next line starts a call signature.
+    let type_arguments = if !self.peek().preceded_by_line_terminator
+      && self.is_start_of_type_arguments()
+    {
       Some(self.type_arguments(ctx)?)
     } else {
       None
@@ -951,16 +958,19 @@ impl<'a> Parser<'a> {
   fn type_member(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeMember>> {
     let checkpoint = self.checkpoint();
     // `readonly` may also be the name of the member.
-    let readonly = !matches!(
-      self.peek_n::<2>()[1].typ,
-      TT::Colon
-        | TT::Question
-        | TT::ParenthesisOpen
-        | TT::ChevronLeft
-        | TT::Comma
-        | TT::Semicolon
-        | TT::BraceClose
-    ) && self.consume_if(TT::KeywordReadonly).is_match();
+    let [_, after_readonly] = self.peek_n::<2>();
+    let readonly = !after_readonly.preceded_by_line_terminator
+      && !matches!(
+        after_readonly.typ,
+        TT::Colon
+          | TT::Question
+          | TT::ParenthesisOpen
+          | TT::ChevronLeft
+          | TT::Comma
+          | TT::Semicolon
+          | TT::BraceClose
+      )
+      && self.consume_if(TT::KeywordReadonly).is_match();
 
     // Check for index signature vs mapped property vs computed property
     // [key: string]: T vs [K in T]: V vs [Symbol.iterator]?: T
-- 
2.43.0


From e64bbaf9998e9a988bfaf64615e5c070fbdad279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 32/42] fix: a postfix update keeps the parentheses of its head
 when emitted from HIR

---
 emit-js/src/hir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 2216a27..961b676 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2314,6 +2314,11 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
       }
     }
     ExprKind::Binary { left, .. } => prefix_with_fallback(ctx, body, *left, StmtStartToken::Other),
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => prefix_with_fallback(ctx, body, *expr, StmtStartToken::Other),
     ExprKind::Conditional { test, .. } => {
       prefix_with_fallback(ctx, body, *test, StmtStartToken::Other)
     }
-- 
2.43.0


From f95bde93363e1454bfe7d8d89fef9ba9fa8e1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 33/42] fix: propagate dataflow states through every block
 reachable from the boundary

---
 optimize-js/src/analysis/dataflow.rs | 49 ++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index d18cf1c..f1b943b 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -141,21 +141,26 @@ fn run_dataflow<A: DataFlowAnalysis>(
 
   let boundary_label = resolved_boundary.label();
   let boundary_state = analysis.boundary_state(&resolved_boundary, cfg);
-  let mut worklist = VecDeque::from([boundary_label]);
-  let mut queued = HashSet::from_iter([boundary_label]);
+  // Every block the boundary flows to has to be visited at least once, even when the states
+  // before it never move away from bottom.
+  let mut worklist = flow_graph.reachable_from(boundary_label);
+  let mut queued = HashSet::from_iter(worklist.iter().copied());
   while let Some(label) = worklist.pop_front() {
     queued.remove(&label);
-    let incoming = if label == boundary_label {
+    let predecessors = flow_graph.predecessors(label);
+    let incoming = if label == boundary_label && predecessors.is_empty() {
       boundary_state.clone()
     } else {
-      let merged_inputs = flow_graph
-        .predecessors(label)
+      let mut merged_inputs = predecessors
         .into_iter()
         .map(|pred| match A::DIRECTION {
           Direction::Forward => (pred, &blocks[&pred].exit),
           Direction::Backward => (pred, &blocks[&pred].entry),
         })
         .collect_vec();
+      if label == boundary_label {
+        merged_inputs.push((label, &boundary_state));
+      }
       analysis.meet(&merged_inputs)
     };
 
@@ -232,6 +237,22 @@ impl<'cfg> FlowGraph<'cfg> {
     self.virtual_exit.as_ref().map(|v| v.label)
   }
 
+  /// The blocks that control flow (in the analysis direction) takes `start` to, nearest first.
+  fn reachable_from(&self, start: u32) -> VecDeque<u32> {
+    let mut order = vec![start];
+    let mut seen = HashSet::from_iter([start]);
+    let mut next = 0;
+    while next < order.len() {
+      for succ in self.successors(order[next]) {
+        if seen.insert(succ) {
+          order.push(succ);
+        }
+      }
+      next += 1;
+    }
+    order.into()
+  }
+
   fn predecessors(&self, label: u32) -> Vec<u32> {
     if Some(label) == self.virtual_exit_label() {
       return Vec::new();
@@ -279,21 +300,9 @@ impl<'cfg> FlowGraph<'cfg> {
 }
 
 fn calculate_virtual_exit(cfg: &Cfg) -> VirtualExit {
-  // Connect the virtual exit to every natural exit, or to every node in a sink
-  // SCC if the graph has no terminal nodes (e.g. infinite loops).
-  let predecessors = {
-    let mut terminals = cfg
-      .graph
-      .labels()
-      .filter(|&l| cfg.graph.children(l).next().is_none())
-      .collect_vec();
-    terminals.sort_unstable();
-    if !terminals.is_empty() {
-      terminals
-    } else {
-      sink_scc_nodes(cfg)
-    }
-  };
+  // Connect the virtual exit to every node in a sink SCC: every natural exit, and every loop that
+  // is never left. Otherwise such a loop would not be part of the flow at all.
+  let predecessors = sink_scc_nodes(cfg);
   VirtualExit {
     label: next_unused_label(cfg),
     predecessors,
-- 
2.43.0


From 13b8b576ad8d136f3eab13a71b607810de29a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 34/42] fix: resolve chains of removed copies when rewriting
 their uses

---
 optimize-js/src/opt/optpass_redundant_assigns.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optimize-js/src/opt/optpass_redundant_assigns.rs b/optimize-js/src/opt/optpass_redundant_assigns.rs
index 89886a7..61053ed 100644
--- a/optimize-js/src/opt/optpass_redundant_assigns.rs
+++ b/optimize-js/src/opt/optpass_redundant_assigns.rs
@@ -33,10 +33,17 @@ pub fn optpass_redundant_assigns(cfg: &mut Cfg) -> PassResult {
         let Arg::Var(t) = arg else {
           continue;
         };
-        let Some(new_arg) = tgt_to_arg.get(t) else {
-          continue;
+        // The assigned value may itself be the target of another removed VarAssign.
+        let mut resolved = tgt_to_arg.get(t);
+        while let Some(Arg::Var(next)) = resolved {
+          match tgt_to_arg.get(next) {
+            Some(further) => resolved = Some(further),
+            None => break,
+          }
+        }
+        if let Some(new_arg) = resolved {
+          *arg = new_arg.clone();
         };
-        *arg = new_arg.clone();
       }
     }
   }
-- 
2.43.0


From 539905aff19b2546f9cbe836c3f7ae2d5e145efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 35/42] fix: keep phi values apart when pruning control flow
 blocks

---
 optimize-js/src/opt/optpass_cfg_prune.rs | 68 +++++++++++++++++-------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/optimize-js/src/opt/optpass_cfg_prune.rs b/optimize-js/src/opt/optpass_cfg_prune.rs
index 384bc5d..ec5b44a 100644
--- a/optimize-js/src/opt/optpass_cfg_prune.rs
+++ b/optimize-js/src/opt/optpass_cfg_prune.rs
@@ -1,4 +1,7 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Arg;
+use crate::il::inst::Const;
+use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::opt::PassResult;
 use crate::ssa::phi_simplify::simplify_phis;
@@ -29,6 +32,33 @@ fn can_prune_bblock(
   false
 }
 
+/// Whether pruning `cur` would make a Phi inst in a child need two different values for the same
+/// parent: one for its existing edge, one for the edge through `cur`. A parent has both edges only
+/// if it chooses between them using a CondGoto.
+fn has_conflicting_phi(cfg: &Cfg, cur: u32, parents: &[u32], children: &[u32]) -> bool {
+  children.iter().any(|&c| {
+    cfg
+      .bblocks
+      .get(c)
+      .iter()
+      .take_while(|inst| inst.t == InstTyp::Phi)
+      .any(|inst| {
+        let arg_for = |label: u32| {
+          let i = inst.labels.iter().position(|&l| l == label)?;
+          Some(&inst.args[i])
+        };
+        let ours = arg_for(cur);
+        parents
+          .iter()
+          .filter(|&&parent| {
+            let last = cfg.bblocks.get(parent).last();
+            last.is_some_and(|inst| inst.t == InstTyp::CondGoto)
+          })
+          .any(|&parent| arg_for(parent).is_some_and(|theirs| Some(theirs) != ours))
+      })
+  })
+}
+
 fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
   if cfg.entry != 0 {
     return false;
@@ -51,24 +81,11 @@ fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
   if new_entry == 0 {
     return false;
   }
-  {
-    let new_entry_block = cfg.bblocks.get(new_entry);
-    for inst in new_entry_block.iter() {
-      if inst.t != InstTyp::Phi {
-        break;
-      }
-      if inst.labels.contains(&0) && inst.labels.len() == 1 {
-        // Removing the old entry would leave this Phi without any sources.
-        return false;
-      }
-    }
-  }
-
-  for inst in cfg.bblocks.get_mut(new_entry).iter_mut() {
-    if inst.t != InstTyp::Phi {
-      break;
-    }
-    inst.remove_phi(0);
+  // A Phi distinguishes entering from elsewhere; without the old entry block there is no label for
+  // the value it has on function entry.
+  let new_entry_block = cfg.bblocks.get(new_entry);
+  if new_entry_block.iter().any(|inst| inst.t == InstTyp::Phi) {
+    return false;
   }
 
   cfg.graph.delete_many([0]);
@@ -115,6 +132,12 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
         continue;
       }
 
+      // Phi insts in a child must not already pick another value when coming directly from one of
+      // our parents.
+      if has_conflicting_phi(cfg, cur, &parents, &children) {
+        continue;
+      }
+
       for &c in children.iter() {
         // Detach from children.
         cfg.graph.disconnect(cur, c);
@@ -129,7 +152,14 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
       }
 
       // Pop from graph and bblocks.
-      let insts = cfg.pop(cur);
+      let mut insts = cfg.pop(cur);
+      // Only a bblock with one parent can still have Phi insts here; they simply pick that value.
+      for inst in insts.iter_mut().take_while(|inst| inst.t == InstTyp::Phi) {
+        let value = inst
+          .remove_phi(parents[0])
+          .unwrap_or(Arg::Const(Const::Undefined));
+        *inst = Inst::var_assign(inst.tgts[0], value);
+      }
       result.mark_cfg_changed();
       // Move insts to parents, before any CondGoto, and update that CondGoto.
       for &parent in parents.iter() {
-- 
2.43.0


From f290d39796c13fb8820b103dccda8e469ee12f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 36/42] fix: perform the copies of phi nodes in parallel

---
 optimize-js/src/ssa/ssa_deconstruct.rs | 54 +++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/optimize-js/src/ssa/ssa_deconstruct.rs b/optimize-js/src/ssa/ssa_deconstruct.rs
index c2e73cd..3c22d71 100644
--- a/optimize-js/src/ssa/ssa_deconstruct.rs
+++ b/optimize-js/src/ssa/ssa_deconstruct.rs
@@ -1,17 +1,59 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Arg;
 use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::util::counter::Counter;
 use std::collections::BTreeMap;
 use std::iter::zip;
 
+/// Phi insts at the head of a bblock all read their operands before any of them assigns. Order the
+/// assignments that replace them so that no operand is overwritten before it's read, breaking
+/// cycles (e.g. swaps) using new temporaries from `next_var`.
+fn sequentialise_copies(mut copies: Vec<(u32, Arg)>, next_var: &mut u32) -> Vec<Inst> {
+  let mut insts = Vec::new();
+  while !copies.is_empty() {
+    let is_read = |var: u32, except: usize| {
+      copies
+        .iter()
+        .enumerate()
+        .any(|(i, (_, value))| i != except && *value == Arg::Var(var))
+    };
+    if let Some(i) = (0..copies.len()).find(|&i| !is_read(copies[i].0, i)) {
+      let (tgt, value) = copies.remove(i);
+      insts.push(Inst::var_assign(tgt, value));
+      continue;
+    }
+    // Every remaining target is still to be read by another copy.
+    let saved = copies[0].0;
+    let temp = *next_var;
+    *next_var += 1;
+    insts.push(Inst::var_assign(temp, Arg::Var(saved)));
+    for (_, value) in copies.iter_mut() {
+      if *value == Arg::Var(saved) {
+        *value = Arg::Var(temp);
+      }
+    }
+  }
+  insts
+}
+
 pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
   struct NewBblock {
     label: u32,
     parent: u32,
     child: u32,
-    insts: Vec<Inst>,
+    copies: Vec<(u32, Arg)>,
   }
+  let mut next_var = cfg
+    .bblocks
+    .all()
+    .flat_map(|(_, bblock)| bblock.iter())
+    .flat_map(|inst| {
+      let args = inst.args.iter().filter_map(|arg| arg.maybe_var());
+      inst.tgts.iter().copied().chain(args)
+    })
+    .max()
+    .map_or(0, |var| var + 1);
   let mut new_bblocks = Vec::<NewBblock>::new();
   let mut labels: Vec<u32> = cfg.bblocks.all().map(|(label, _)| label).collect();
   labels.sort_unstable();
@@ -28,10 +70,10 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
             label: c_label.bump(),
             parent,
             child: label,
-            insts: Vec::new(),
+            copies: Vec::new(),
           })
-          .insts
-          .push(Inst::var_assign(tgt, value));
+          .copies
+          .push((tgt, value));
       }
     }
     new_bblocks.extend(new_bblocks_by_parent.into_values());
@@ -54,6 +96,8 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
     cfg.graph.connect(b.parent, b.label);
     cfg.graph.connect(b.label, b.child);
     // Insert new bblock.
-    cfg.bblocks.add(b.label, b.insts);
+    cfg
+      .bblocks
+      .add(b.label, sequentialise_copies(b.copies, &mut next_var));
   }
 }
-- 
2.43.0


From 1c72914d6e4694fe7073aff06654f4ea9d99a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 37/42] fix: evaluate constants as ECMAScript specifies

---
 optimize-js/src/eval/consteval.rs | 107 ++++++++++++++++++++++++++----
 1 file changed, 94 insertions(+), 13 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 97e426b..ac7c698 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -5,7 +5,7 @@ use crate::il::inst::Const::*;
 use crate::il::inst::UnOp;
 use crate::il::inst::UnOp::*;
 use num_bigint::{BigInt, Sign};
-use num_traits::ToPrimitive;
+use num_traits::{FromPrimitive, ToPrimitive};
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
 use parse_js::num::JsNumber as JN;
 use std::cmp::Ordering;
@@ -54,7 +54,7 @@ fn parse_int_digits_to_bigint(digits: &str, radix: u32) -> Option<BigInt> {
 pub fn parse_bigint(raw: &str) -> Option<BigInt> {
   let trimmed = trim_js_whitespace(raw);
   if trimmed.is_empty() {
-    return None;
+    return Some(BigInt::from(0));
   }
   let (sign, body) = match trimmed.strip_prefix('+') {
     Some(rest) => (1, rest),
@@ -72,6 +72,10 @@ pub fn parse_bigint(raw: &str) -> Option<BigInt> {
     s if s.starts_with("0x") || s.starts_with("0X") => (16, &s[2..]),
     s => (10, s),
   };
+  // Only decimal literals may carry a sign.
+  if radix != 10 && body.len() != trimmed.len() {
+    return None;
+  }
   let mut value = parse_int_digits_to_bigint(digits, radix)?;
   if sign == -1 {
     value = -value;
@@ -83,6 +87,80 @@ pub fn coerce_bigint_to_num(v: &BigInt) -> f64 {
   bigint_to_f64(v)
 }
 
+/// Compare a BigInt with a Number by mathematical value; `None` if the number is NaN.
+fn cmp_bigint_num(a: &BigInt, b: f64) -> Option<Ordering> {
+  if b.is_nan() {
+    return None;
+  }
+  let Some(int) = BigInt::from_f64(b.trunc()) else {
+    // Only infinities have no integer part.
+    return Some(if b < 0.0 {
+      Ordering::Greater
+    } else {
+      Ordering::Less
+    });
+  };
+  Some(a.cmp(&int).then_with(|| {
+    let fract = b - b.trunc();
+    0.0_f64.partial_cmp(&fract).unwrap()
+  }))
+}
+
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-tostring
+fn num_to_str(n: f64) -> String {
+  if n.is_nan() {
+    return "NaN".to_string();
+  }
+  if n == 0.0 {
+    // Covers both +0 and -0.
+    return "0".to_string();
+  }
+  let sign = if n < 0.0 { "-" } else { "" };
+  if n.is_infinite() {
+    return format!("{sign}Infinity");
+  }
+  // `{:e}` gives the shortest round-tripping decimal digits as `d.ddde<exp>`.
+  let raw = format!("{:e}", n.abs());
+  let (mantissa, exp) = raw.split_once('e').unwrap();
+  let digits = mantissa.replace('.', "");
+  let exp: i32 = exp.parse().unwrap();
+  let len = digits.len() as i32;
+  // The decimal point comes after the `point`th digit.
+  let point = exp + 1;
+  if len <= point && point <= 21 {
+    format!("{sign}{digits}{}", "0".repeat((point - len) as usize))
+  } else if 0 < point && point <= 21 {
+    let (int, fract) = digits.split_at(point as usize);
+    format!("{sign}{int}.{fract}")
+  } else if -6 < point && point <= 0 {
+    format!("{sign}0.{}{digits}", "0".repeat(-point as usize))
+  } else {
+    let exp_sign = if exp < 0 { '-' } else { '+' };
+    format!("{sign}{mantissa}e{exp_sign}{}", exp.abs())
+  }
+}
+
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-exponentiate
+fn js_exp(base: f64, exponent: f64) -> f64 {
+  if exponent.is_nan() || (base.abs() == 1.0 && exponent.is_infinite()) {
+    f64::NAN
+  } else {
+    base.powf(exponent)
+  }
+}
+
+// Unlike `f64::round`, halves are rounded towards +Infinity.
+fn js_round(n: f64) -> f64 {
+  let floor = n.floor();
+  let rounded = if n - floor >= 0.5 { floor + 1.0 } else { floor };
+  // Results that round to zero keep the sign of the argument.
+  if rounded == 0.0 {
+    rounded.copysign(n)
+  } else {
+    rounded
+  }
+}
+
 // https://developer.mozilla.org/en-US/docs/Web/JavaScript/Reference/Global_Objects/Number#number_coercion
 pub fn coerce_str_to_num(raw: &str) -> f64 {
   let raw = trim_js_whitespace(raw);
@@ -211,7 +289,7 @@ fn coerce_to_int32(v: &Const) -> Option<i32> {
 // https://developer.mozilla.org/en-US/docs/Glossary/Falsy
 pub fn coerce_to_bool(v: &Const) -> bool {
   match v {
-    BigInt(v) => v == &BigInt::from(0),
+    BigInt(v) => v.sign() != Sign::NoSign,
     Bool(b) => *b,
     Null => false,
     Num(JN(v)) => !v.is_nan() && *v != 0.0,
@@ -224,10 +302,13 @@ pub fn coerce_to_bool(v: &Const) -> bool {
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   match (a, b) {
-    (Str(a), Str(b)) => Some(a.cmp(b)),
+    // Strings are compared by UTF-16 code units.
+    (Str(a), Str(b)) => Some(a.encode_utf16().cmp(b.encode_utf16())),
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
+    (BigInt(a), b) => cmp_bigint_num(a, coerce_to_num(b)),
+    (a, BigInt(b)) => cmp_bigint_num(b, coerce_to_num(a)).map(Ordering::reverse),
     (a, b) => {
       // https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-lessThan
       let a = coerce_to_num(a);
@@ -267,8 +348,8 @@ pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
     (Str(l), BigInt(r)) => parse_bigint(l).is_some_and(|l| &l == r),
     (Bool(l), r) => js_loose_eq(&Num(JN(*l as u8 as f64)), r),
     (l, Bool(r)) => js_loose_eq(l, &Num(JN(*r as u8 as f64))),
-    (BigInt(l), Num(r)) => r.0.is_finite() && coerce_bigint_to_num(l) == r.0,
-    (Num(l), BigInt(r)) => l.0.is_finite() && l.0 == coerce_bigint_to_num(r),
+    (BigInt(l), Num(r)) => cmp_bigint_num(l, r.0) == Some(Ordering::Equal),
+    (Num(l), BigInt(r)) => cmp_bigint_num(r, l.0) == Some(Ordering::Equal),
     _ => false,
   }
 }
@@ -285,8 +366,8 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
   #[rustfmt::skip]
   let res = match (op, a, b) {
     (Add, Num(l), Num(r)) => Num(JN(l.0 + r.0)),
-    (Add, Num(l), Str(r)) => Str(format!("{l}{r}")),
-    (Add, Str(l), Num(r)) => Str(format!("{l}{r}")),
+    (Add, Num(l), Str(r)) => Str(format!("{}{r}", num_to_str(l.0))),
+    (Add, Str(l), Num(r)) => Str(format!("{l}{}", num_to_str(r.0))),
     (Add, Str(l), Str(r)) => Str(format!("{l}{r}")),
     (Div, Num(l), Num(r)) => Num(JN(js_div(l.0, r.0))),
     (Div, Num(l), Str(r)) => Num(JN(js_div(l.0, coerce_str_to_num(r)))),
@@ -295,10 +376,10 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
     (BitAnd, l, r) => Num(JN((coerce_to_int32(l)? & coerce_to_int32(r)?) as f64)),
     (BitOr, l, r) => Num(JN((coerce_to_int32(l)? | coerce_to_int32(r)?) as f64)),
     (BitXor, l, r) => Num(JN((coerce_to_int32(l)? ^ coerce_to_int32(r)?) as f64)),
-    (Exp, Num(l), Num(r)) => Num(JN(l.0.powf(r.0))),
-    (Exp, Num(l), Str(r)) => Num(JN(l.0.powf(coerce_str_to_num(r)))),
-    (Exp, Str(l), Num(r)) => Num(JN(coerce_str_to_num(l).powf(r.0))),
-    (Exp, Str(l), Str(r)) => Num(JN(coerce_str_to_num(l).powf(coerce_str_to_num(r)))),
+    (Exp, Num(l), Num(r)) => Num(JN(js_exp(l.0, r.0))),
+    (Exp, Num(l), Str(r)) => Num(JN(js_exp(l.0, coerce_str_to_num(r)))),
+    (Exp, Str(l), Num(r)) => Num(JN(js_exp(coerce_str_to_num(l), r.0))),
+    (Exp, Str(l), Str(r)) => Num(JN(js_exp(coerce_str_to_num(l), coerce_str_to_num(r)))),
     (Geq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_ge())),
     (Gt, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_gt())),
     (Leq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_le())),
@@ -371,7 +452,7 @@ pub fn maybe_eval_const_builtin_call(func: &str, args: &[Const]) -> Option<Const
       ("Math.log10", Num(a)) => Num(JN(a.0.log10())),
       ("Math.log1p", Num(a)) => Num(JN(a.0.ln_1p())),
       ("Math.log2", Num(a)) => Num(JN(a.0.log2())),
-      ("Math.round", Num(a)) => Num(JN(a.0.round())),
+      ("Math.round", Num(a)) => Num(JN(js_round(a.0))),
       ("Math.sin", Num(a)) => Num(JN(a.0.sin())),
       ("Math.sqrt", Num(a)) => Num(JN(a.0.sqrt())),
       ("Math.tan", Num(a)) => Num(JN(a.0.tan())),
-- 
2.43.0


From da892ac3f9359d5c109eafbb187ff22fc2a663e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 38/42] fix: decompile loops whose guard exits when it is true

---
 optimize-js/src/decompile/structurer.rs | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/optimize-js/src/decompile/structurer.rs b/optimize-js/src/decompile/structurer.rs
index 297164f..f36b0bf 100644
--- a/optimize-js/src/decompile/structurer.rs
+++ b/optimize-js/src/decompile/structurer.rs
@@ -550,14 +550,20 @@ impl<'a> StructCtx<'a> {
           .structure_seq(guard.inside, None, &info.nodes, Some(loop_label))
           .map_err(|_| ())?
       };
+      let break_tree = ControlTree::Break {
+        target: BreakTarget::Loop(loop_label),
+      };
+      let (then_t, else_t) = if guard.stays_when {
+        (then_tree, break_tree)
+      } else {
+        (break_tree, then_tree)
+      };
       let guard_if = ControlTree::If {
         cond_block: info.header,
         insts: guard.insts,
         cond: guard.cond,
-        then_t: Box::new(then_tree),
-        else_t: Box::new(ControlTree::Break {
-          target: BreakTarget::Loop(loop_label),
-        }),
+        then_t: Box::new(then_t),
+        else_t: Box::new(else_t),
         join: guard.outside,
       };
       let body = ControlTree::Seq(vec![guard_if]);
@@ -598,6 +604,8 @@ enum SuccessorResolution {
 struct GuardInfo {
   insts: Vec<Inst>,
   cond: Arg,
+  /// The truthiness of the condition that stays in the loop.
+  stays_when: bool,
   inside: u32,
   outside: u32,
 }
@@ -608,11 +616,11 @@ fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
   if last.t != InstTyp::CondGoto || last.labels.len() != 2 {
     return None;
   }
-  let (inside, outside) =
+  let (stays_when, inside, outside) =
     if info.nodes.contains(&last.labels[0]) && !info.nodes.contains(&last.labels[1]) {
-      (last.labels[0], last.labels[1])
+      (true, last.labels[0], last.labels[1])
     } else if info.nodes.contains(&last.labels[1]) && !info.nodes.contains(&last.labels[0]) {
-      (last.labels[1], last.labels[0])
+      (false, last.labels[1], last.labels[0])
     } else {
       return None;
     };
@@ -622,6 +630,7 @@ fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
   Some(GuardInfo {
     insts: block[..block.len() - 1].to_vec(),
     cond: last.args[0].clone(),
+    stays_when,
     inside,
     outside,
   })
@@ -636,7 +645,10 @@ fn build_state_machine(cfg: &Cfg) -> ControlTree {
     let (insts, term) = build_terminator(block, cfg.graph.children(label));
     blocks.push(StateBlock { label, insts, term });
   }
-  ControlTree::StateMachine { entry: 0, blocks }
+  ControlTree::StateMachine {
+    entry: cfg.entry,
+    blocks,
+  }
 }
 
 fn build_terminator(
-- 
2.43.0


From 4c75a0f33813a419fc6114c1cd522e2ab2c456a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 39/42] fix: declare decompiled temporaries wherever they are
 visible

---
 optimize-js/src/decompile/mod.rs | 108 +++++++++++++++++++++++++++++--
 1 file changed, 103 insertions(+), 5 deletions(-)

diff --git a/optimize-js/src/decompile/mod.rs b/optimize-js/src/decompile/mod.rs
index 38bc4d2..595143d 100644
--- a/optimize-js/src/decompile/mod.rs
+++ b/optimize-js/src/decompile/mod.rs
@@ -22,6 +22,7 @@ use parse_js::ast::stx::TopLevel;
 use parse_js::loc::Loc;
 use parse_js::num::JsNumber;
 use parse_js::operator::OperatorName;
+use itertools::Itertools;
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 
@@ -79,7 +80,11 @@ pub fn program_to_ast(
     labeled_loops,
   );
 
-  let temps: Vec<u32> = collect_temps(&program.top_level);
+  let temps = if opts.declare_registers {
+    collect_temps(&program.top_level)
+  } else {
+    collect_undeclarable_temps(&control, decompiler.resolved_style)
+  };
   let mut body = Vec::new();
   if let Some(decl) = decompiler.prepare_temp_decls(&temps) {
     body.push(decl);
@@ -125,6 +130,102 @@ fn collect_temps(func: &ProgramFunction) -> Vec<u32> {
   temps
 }
 
+/// Temporaries are declared where they are first assigned unless they are declared up front.
+/// Collects those for which that doesn't work: they are never assigned, or their declaration
+/// would be scoped to a block that doesn't enclose everything that refers to them.
+fn collect_undeclarable_temps(control: &ControlTree, style: ResolvedTempDeclStyle) -> Vec<u32> {
+  #[derive(Default)]
+  struct Walker {
+    block_scoped: bool,
+    /// Temporaries declared so far in each of the enclosing blocks.
+    scopes: Vec<HashSet<u32>>,
+    used: HashSet<u32>,
+    assigned: HashSet<u32>,
+    undeclarable: HashSet<u32>,
+  }
+
+  impl Walker {
+    fn visible(&self, temp: u32) -> bool {
+      self.scopes.iter().any(|scope| scope.contains(&temp))
+    }
+
+    fn arg(&mut self, arg: &Arg) {
+      if let Arg::Var(temp) = arg {
+        self.used.insert(*temp);
+        if self.block_scoped && !self.visible(*temp) {
+          self.undeclarable.insert(*temp);
+        }
+      }
+    }
+
+    fn insts(&mut self, insts: &[crate::il::inst::Inst]) {
+      for inst in insts {
+        for arg in &inst.args {
+          self.arg(arg);
+        }
+        for &tgt in &inst.tgts {
+          let first = self.assigned.insert(tgt);
+          if self.block_scoped && !first && !self.visible(tgt) {
+            self.undeclarable.insert(tgt);
+          }
+          self.scopes.last_mut().unwrap().insert(tgt);
+        }
+      }
+    }
+
+    fn block(&mut self, tree: &ControlTree) {
+      self.scopes.push(HashSet::new());
+      self.tree(tree);
+      self.scopes.pop();
+    }
+
+    fn tree(&mut self, tree: &ControlTree) {
+      match tree {
+        ControlTree::Seq(nodes) => nodes.iter().for_each(|node| self.tree(node)),
+        ControlTree::Block { insts, .. } => self.insts(insts),
+        ControlTree::If {
+          insts,
+          cond,
+          then_t,
+          else_t,
+          ..
+        } => {
+          self.insts(insts);
+          self.arg(cond);
+          self.block(then_t);
+          self.block(else_t);
+        }
+        ControlTree::Loop { body, .. } => self.block(body),
+        ControlTree::Break { .. } | ControlTree::Continue { .. } => {}
+        ControlTree::StateMachine { blocks, .. } => {
+          for block in blocks.iter().sorted_by_key(|block| block.label) {
+            self.scopes.push(HashSet::new());
+            self.insts(&block.insts);
+            if let structurer::Terminator::CondGoto { cond, .. } = &block.term {
+              self.arg(cond);
+            }
+            self.scopes.pop();
+          }
+        }
+      }
+    }
+  }
+
+  let mut walker = Walker {
+    block_scoped: style == ResolvedTempDeclStyle::LetWithVoidInit,
+    ..Default::default()
+  };
+  walker.block(control);
+  walker
+    .used
+    .difference(&walker.assigned)
+    .chain(&walker.undeclarable)
+    .copied()
+    .sorted_unstable()
+    .dedup()
+    .collect()
+}
+
 fn format_temp_decls(temps: &[u32], style: ResolvedTempDeclStyle) -> Option<String> {
   if temps.is_empty() {
     return None;
@@ -305,14 +406,11 @@ impl<'a> FunctionDecompiler<'a> {
   }
 
   fn prepare_temp_decls(&mut self, temps: &[u32]) -> Option<Node<Stmt>> {
-    if !self.options.declare_registers {
-      return None;
-    }
     for temp in temps {
       self.declared.insert(*temp);
       self.name_var(*temp);
     }
-    self.predeclared = true;
+    self.predeclared = self.options.declare_registers;
     self.temp_decl_stmt(temps)
   }
 
-- 
2.43.0


From 6f47fca32672d58fb9bfed720e2b48b2f1fe8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 40/42] fix: keep operand values across later assignments and
 store updates to their target

---
 optimize-js/src/il/s2i/expr.rs | 244 +++++++++++++++++++++++----------
 1 file changed, 168 insertions(+), 76 deletions(-)

diff --git a/optimize-js/src/il/s2i/expr.rs b/optimize-js/src/il/s2i/expr.rs
index 56a69db..dce27b8 100644
--- a/optimize-js/src/il/s2i/expr.rs
+++ b/optimize-js/src/il/s2i/expr.rs
@@ -39,6 +39,37 @@ impl<'p> HirSourceToInst<'p> {
     Arg::Var(tgt)
   }
 
+  /// Compile the operands of one expression, which are evaluated left to right.
+  fn compile_operands(&mut self, operands: &[ExprId]) -> OptimizeResult<Vec<Arg>> {
+    let mut args = Vec::with_capacity(operands.len());
+    let mut marks = Vec::with_capacity(operands.len());
+    for &operand in operands {
+      args.push(self.compile_expr(operand)?);
+      marks.push(self.out.len());
+    }
+    self.preserve_args(args.iter_mut().zip(marks));
+    Ok(args)
+  }
+
+  /// Reading a local variable yields the variable itself, which code compiled afterwards may
+  /// assign. Given arguments with the position in the output where each one was evaluated, in
+  /// order, copy those variables that change before the instruction that is about to use them.
+  fn preserve_args<'a>(
+    &mut self,
+    args: impl DoubleEndedIterator<Item = (&'a mut Arg, usize)> + ExactSizeIterator,
+  ) {
+    for (arg, mark) in args.rev() {
+      let Arg::Var(var) = *arg else {
+        continue;
+      };
+      if self.out[mark..].iter().any(|inst| inst.tgts.contains(&var)) {
+        let copy = self.c_temp.bump();
+        self.out.insert(mark, Inst::var_assign(copy, Arg::Var(var)));
+        *arg = Arg::Var(copy);
+      }
+    }
+  }
+
   /// Gets the existing chain or sets one up. This must be called at the beginning of any possible chain node e.g. Call, ComputedMember, Member.
   /// See `Chain` for more details.
   fn maybe_setup_chain(&mut self, chain: impl Into<Option<Chain>>) -> (bool, Chain) {
@@ -276,7 +307,6 @@ impl<'p> HirSourceToInst<'p> {
             Ok(Arg::Var(value_tmp_var))
           }
           _ => {
-            let value_arg = self.compile_expr(value)?;
             let op = match operator {
               AssignOp::AddAssign => BinOp::Add,
               AssignOp::SubAssign => BinOp::Sub,
@@ -298,7 +328,7 @@ impl<'p> HirSourceToInst<'p> {
                 ))
               }
             };
-            let left_arg = match assign_inst.t {
+            let mut left_arg = match assign_inst.t {
               InstTyp::VarAssign => Arg::Var(assign_inst.tgts[0]),
               InstTyp::ForeignStore => {
                 let left_tmp_var = self.c_temp.bump();
@@ -323,6 +353,9 @@ impl<'p> HirSourceToInst<'p> {
                 ))
               }
             };
+            let mark = self.out.len();
+            let value_arg = self.compile_expr(value)?;
+            self.preserve_args([(&mut left_arg, mark)].into_iter());
             let rhs_inst = Inst::bin(value_tmp_var, left_arg, op, value_arg);
             self.out.push(rhs_inst);
             *assign_inst.args.last_mut().unwrap() = Arg::Var(value_tmp_var);
@@ -333,8 +366,7 @@ impl<'p> HirSourceToInst<'p> {
       }
       PatKind::AssignTarget(expr_id) => {
         let target_expr = &self.body.exprs[expr_id.0 as usize];
-        let dummy_val = Arg::Const(Const::Num(JsNumber(0xdeadbeefu32 as f64)));
-        let mut assign_inst = match target_expr.kind {
+        let (mut obj, mut prop) = match target_expr.kind {
           ExprKind::Member(ref member) => {
             if member.optional {
               return Err(unsupported_syntax(
@@ -343,9 +375,11 @@ impl<'p> HirSourceToInst<'p> {
                 "optional chaining in assignment target",
               ));
             }
-            let left_arg = self.compile_expr(member.object)?;
-            let member_arg = key_arg(self, &member.property)?;
-            Inst::prop_assign(left_arg, member_arg, dummy_val)
+            let mut obj = self.compile_expr(member.object)?;
+            let mark = self.out.len();
+            let prop = key_arg(self, &member.property)?;
+            self.preserve_args([(&mut obj, mark)].into_iter());
+            (obj, prop)
           }
           _ => {
             return Err(unsupported_syntax(
@@ -355,19 +389,19 @@ impl<'p> HirSourceToInst<'p> {
             ))
           }
         };
+        let mark = self.out.len();
         let value_tmp_var = self.c_temp.bump();
         match operator {
           AssignOp::Assign => {
             let value_arg = self.compile_expr(value)?;
+            self.preserve_args([(&mut obj, mark), (&mut prop, mark)].into_iter());
             self
               .out
               .push(Inst::var_assign(value_tmp_var, value_arg.clone()));
-            *assign_inst.args.last_mut().unwrap() = value_arg;
-            self.out.push(assign_inst);
+            self.out.push(Inst::prop_assign(obj, prop, value_arg));
             Ok(Arg::Var(value_tmp_var))
           }
           AssignOp::LogicalAndAssign | AssignOp::LogicalOrAssign | AssignOp::NullishAssign => {
-            let (obj, prop, _) = assign_inst.as_prop_assign();
             let left_tmp_var = self.c_temp.bump();
             self.out.push(Inst::bin(
               left_tmp_var,
@@ -410,15 +444,14 @@ impl<'p> HirSourceToInst<'p> {
             }
 
             let rhs = self.compile_expr(value)?;
+            self.preserve_args([(&mut obj, mark), (&mut prop, mark)].into_iter());
             self.out.push(Inst::var_assign(value_tmp_var, rhs.clone()));
-            *assign_inst.args.last_mut().unwrap() = rhs;
-            self.out.push(assign_inst);
+            self.out.push(Inst::prop_assign(obj, prop, rhs));
             self.out.push(Inst::label(converge_label_id));
 
             Ok(Arg::Var(value_tmp_var))
           }
           _ => {
-            let value_arg = self.compile_expr(value)?;
             let op = match operator {
               AssignOp::AddAssign => BinOp::Add,
               AssignOp::SubAssign => BinOp::Sub,
@@ -440,7 +473,6 @@ impl<'p> HirSourceToInst<'p> {
                 ))
               }
             };
-            let (obj, prop, _) = assign_inst.as_prop_assign();
             let left_tmp_var = self.c_temp.bump();
             self.out.push(Inst::bin(
               left_tmp_var,
@@ -448,10 +480,13 @@ impl<'p> HirSourceToInst<'p> {
               BinOp::GetProp,
               prop.clone(),
             ));
+            let value_arg = self.compile_expr(value)?;
+            self.preserve_args([(&mut obj, mark), (&mut prop, mark)].into_iter());
             let rhs_inst = Inst::bin(value_tmp_var, Arg::Var(left_tmp_var), op, value_arg);
             self.out.push(rhs_inst);
-            *assign_inst.args.last_mut().unwrap() = Arg::Var(value_tmp_var);
-            self.out.push(assign_inst);
+            self
+              .out
+              .push(Inst::prop_assign(obj, prop, Arg::Var(value_tmp_var)));
             Ok(Arg::Var(value_tmp_var))
           }
         }
@@ -568,8 +603,7 @@ impl<'p> HirSourceToInst<'p> {
       return self.compile_comma_expr(left, right);
     }
     if matches!(operator, BinaryOp::In | BinaryOp::Instanceof) {
-      let left = self.compile_expr(left)?;
-      let right = self.compile_expr(right)?;
+      let args = self.compile_operands(&[left, right])?;
       let res_tmp_var = self.c_temp.bump();
       let callee = match operator {
         BinaryOp::In => Self::INTERNAL_IN_CALLEE,
@@ -580,7 +614,7 @@ impl<'p> HirSourceToInst<'p> {
         res_tmp_var,
         Arg::Builtin(callee.to_string()),
         Arg::Const(Const::Undefined),
-        vec![left, right],
+        args,
         Vec::new(),
       ));
       return Ok(Arg::Var(res_tmp_var));
@@ -743,8 +777,9 @@ impl<'p> HirSourceToInst<'p> {
         ))
       }
     };
-    let left = self.compile_expr(left)?;
-    let right = self.compile_expr(right)?;
+    let mut args = self.compile_operands(&[left, right])?;
+    let right = args.pop().unwrap();
+    let left = args.pop().unwrap();
     let res_tmp_var = self.c_temp.bump();
     self.out.push(Inst::bin(res_tmp_var, left, op, right));
     Ok(Arg::Var(res_tmp_var))
@@ -782,38 +817,80 @@ impl<'p> HirSourceToInst<'p> {
 
   pub fn compile_update_expr(
     &mut self,
-    _span: Loc,
+    span: Loc,
     operator: UpdateOp,
     argument: ExprId,
     prefix: bool,
   ) -> OptimizeResult<Arg> {
-    let arg = self.compile_expr(argument)?;
-    match operator {
-      UpdateOp::Decrement | UpdateOp::Increment => {
-        let rhs = match operator {
-          UpdateOp::Decrement => BinOp::Sub,
-          UpdateOp::Increment => BinOp::Add,
-        };
+    // The operand is converted to a number first, whereas `+` may concatenate strings.
+    let is_num = self.typeof_string_expr(argument) == Some("number");
+    let (op, one) = match operator {
+      UpdateOp::Increment if is_num => (BinOp::Add, 1.0),
+      UpdateOp::Increment => (BinOp::Sub, -1.0),
+      UpdateOp::Decrement => (BinOp::Sub, 1.0),
+    };
+    let one = Arg::Const(Const::Num(JsNumber(one)));
+    let to_num = |tgt: u32, arg: Arg| {
+      if is_num {
+        Inst::var_assign(tgt, arg)
+      } else {
+        Inst::un(tgt, UnOp::Plus, arg)
+      }
+    };
+    let unsupported = |message: &str| {
+      unsupported_syntax(self.program.lower.hir.file, span, message.to_string())
+    };
+    match self.body.exprs[argument.0 as usize].kind {
+      ExprKind::TypeAssertion { expr, .. }
+      | ExprKind::NonNull { expr }
+      | ExprKind::Satisfies { expr, .. } => self.compile_update_expr(span, operator, expr, prefix),
+      ExprKind::Ident(name) => match self.classify_ident(argument, name) {
+        VarType::Local(local) => {
+          let var = self.symbol_to_temp(local);
+          if prefix {
+            self.out.push(Inst::bin(var, Arg::Var(var), op, one));
+            Ok(Arg::Var(var))
+          } else {
+            let old = self.temp_var_arg(|tgt| to_num(tgt, Arg::Var(var)));
+            self.out.push(Inst::bin(var, Arg::Var(var), op, one));
+            Ok(old)
+          }
+        }
+        VarType::Foreign(foreign) => {
+          let old = self.temp_var_arg(|tgt| Inst::foreign_load(tgt, foreign));
+          let new = self.temp_var_arg(|tgt| Inst::bin(tgt, old.clone(), op, one));
+          self.out.push(Inst::foreign_store(foreign, new.clone()));
+          if prefix {
+            return Ok(new);
+          }
+          Ok(self.temp_var_arg(|tgt| to_num(tgt, old)))
+        }
+        VarType::Unknown(name) => {
+          let old = self.temp_var_arg(|tgt| Inst::unknown_load(tgt, name.clone()));
+          let new = self.temp_var_arg(|tgt| Inst::bin(tgt, old.clone(), op, one));
+          self.out.push(Inst::unknown_store(name, new.clone()));
+          if prefix {
+            return Ok(new);
+          }
+          Ok(self.temp_var_arg(|tgt| to_num(tgt, old)))
+        }
+        VarType::Builtin(builtin) => Err(unsupported(&format!("assignment to builtin {builtin}"))),
+      },
+      ExprKind::Member(ref member) if !member.optional => {
+        let mut obj = self.compile_expr(member.object)?;
+        let mark = self.out.len();
+        let prop = key_arg(self, &member.property)?;
+        self.preserve_args([(&mut obj, mark)].into_iter());
+        let old =
+          self.temp_var_arg(|tgt| Inst::bin(tgt, obj.clone(), BinOp::GetProp, prop.clone()));
+        let new = self.temp_var_arg(|tgt| Inst::bin(tgt, old.clone(), op, one));
+        self.out.push(Inst::prop_assign(obj, prop, new.clone()));
         if prefix {
-          self.out.push(Inst::bin(
-            arg.to_var(),
-            arg.clone(),
-            rhs,
-            Arg::Const(Const::Num(JsNumber(1.0))),
-          ));
-          Ok(arg)
-        } else {
-          let tmp_var = self.c_temp.bump();
-          self.out.push(Inst::var_assign(tmp_var, arg.clone()));
-          self.out.push(Inst::bin(
-            arg.clone().to_var(),
-            arg,
-            rhs,
-            Arg::Const(Const::Num(JsNumber(1.0))),
-          ));
-          Ok(Arg::Var(tmp_var))
+          return Ok(new);
         }
+        Ok(self.temp_var_arg(|tgt| to_num(tgt, old)))
       }
+      _ => Err(unsupported("unsupported update target")),
     }
   }
 
@@ -886,8 +963,10 @@ impl<'p> HirSourceToInst<'p> {
                 "optional chaining in delete operand",
               ));
             }
-            let object_arg = self.compile_expr(member.object)?;
+            let mut object_arg = self.compile_expr(member.object)?;
+            let mark = self.out.len();
             let prop_arg = key_arg(self, &member.property)?;
+            self.preserve_args([(&mut object_arg, mark)].into_iter());
             let tmp = self.c_temp.bump();
             self.out.push(Inst::call(
               tmp,
@@ -919,11 +998,13 @@ impl<'p> HirSourceToInst<'p> {
     chain: impl Into<Option<Chain>>,
   ) -> OptimizeResult<CompiledMemberExpr> {
     let (did_chain_setup, chain) = self.maybe_setup_chain(chain);
-    let left_arg = self.compile_expr_with_chain(member.object, chain)?;
+    let mut left_arg = self.compile_expr_with_chain(member.object, chain)?;
+    let mark = self.out.len();
     let optional = member.optional && !self.expr_excludes_nullish(member.object);
     self.conditional_chain_jump(optional, &left_arg, chain);
     let res_tmp_var = self.c_temp.bump();
     let right_arg = key_arg(self, &member.property)?;
+    self.preserve_args([(&mut left_arg, mark)].into_iter());
     self.out.push(Inst::bin(
       res_tmp_var,
       left_arg.clone(),
@@ -937,6 +1018,20 @@ impl<'p> HirSourceToInst<'p> {
     })
   }
 
+  /// Returns the arguments of a call and the positions of those that are spread.
+  fn compile_call_args(&mut self, call: &CallExpr) -> OptimizeResult<(Vec<Arg>, Vec<usize>)> {
+    let exprs: Vec<ExprId> = call.args.iter().map(|arg| arg.expr).collect();
+    let args = self.compile_operands(&exprs)?;
+    let spreads = call
+      .args
+      .iter()
+      .enumerate()
+      .filter(|(_, arg)| arg.spread)
+      .map(|(idx, _)| idx + 2)
+      .collect();
+    Ok((args, spreads))
+  }
+
   pub fn compile_call_expr(
     &mut self,
     span: Loc,
@@ -966,19 +1061,11 @@ impl<'p> HirSourceToInst<'p> {
 
       let (did_chain_setup, chain) = self.maybe_setup_chain(chain);
 
-      let ctor_arg = self.compile_expr(call.callee)?;
+      let mut ctor_arg = self.compile_expr(call.callee)?;
+      let mark = self.out.len();
       let res_tmp_var = self.c_temp.bump();
-
-      let mut args = Vec::new();
-      let mut spreads = Vec::new();
-      for a in call.args.iter() {
-        let arg = self.compile_expr(a.expr)?;
-        let arg_idx = args.len();
-        args.push(arg);
-        if a.spread {
-          spreads.push(arg_idx + 2);
-        }
-      }
+      let (args, spreads) = self.compile_call_args(call)?;
+      self.preserve_args([(&mut ctor_arg, mark)].into_iter());
 
       self.out.push(Inst::call(
         res_tmp_var,
@@ -993,7 +1080,7 @@ impl<'p> HirSourceToInst<'p> {
     }
 
     let (did_chain_setup, chain) = self.maybe_setup_chain(chain);
-    let (this_arg, callee_arg) = match self.body.exprs[call.callee.0 as usize].kind.clone() {
+    let (mut this_arg, mut callee_arg) = match self.body.exprs[call.callee.0 as usize].kind.clone() {
       ExprKind::Member(m) => {
         let c = self.compile_member_expr(&m, chain)?;
         (c.left, c.res)
@@ -1004,20 +1091,13 @@ impl<'p> HirSourceToInst<'p> {
         (this, c)
       }
     };
+    let mark = self.out.len();
     let res_tmp_var = self.c_temp.bump();
     let optional = call.optional && !self.expr_excludes_nullish(call.callee);
     self.conditional_chain_jump(optional, &callee_arg, chain);
 
-    let mut args = Vec::new();
-    let mut spreads = Vec::new();
-    for a in call.args.iter() {
-      let arg = self.compile_expr(a.expr)?;
-      let arg_idx = args.len();
-      args.push(arg);
-      if a.spread {
-        spreads.push(arg_idx + 2);
-      }
-    }
+    let (args, spreads) = self.compile_call_args(call)?;
+    self.preserve_args([(&mut this_arg, mark), (&mut callee_arg, mark)].into_iter());
     self
       .out
       .push(Inst::call(res_tmp_var, callee_arg, this_arg, args, spreads));
@@ -1043,6 +1123,7 @@ impl<'p> HirSourceToInst<'p> {
       } => self.compile_cond_expr(*test, *consequent, *alternate),
       ExprKind::Array(array) => {
         let mut args = Vec::new();
+        let mut marks = Vec::new();
         let mut spreads = Vec::new();
         for element in array.elements.iter() {
           match element {
@@ -1059,7 +1140,9 @@ impl<'p> HirSourceToInst<'p> {
               args.push(Arg::Builtin(Self::INTERNAL_ARRAY_HOLE.to_string()));
             }
           }
+          marks.push(self.out.len());
         }
+        self.preserve_args(args.iter_mut().zip(marks));
         let tmp = self.c_temp.bump();
         self.out.push(Inst::call(
           tmp,
@@ -1072,6 +1155,7 @@ impl<'p> HirSourceToInst<'p> {
       }
       ExprKind::Object(obj) => {
         let mut args = Vec::new();
+        let mut marks = Vec::new();
         for property in obj.properties.iter() {
           match property {
             hir_js::ObjectProperty::KeyValue {
@@ -1107,6 +1191,7 @@ impl<'p> HirSourceToInst<'p> {
                   args.push(Arg::Const(Const::Str(value.clone())));
                 }
               }
+              marks.resize(args.len(), self.out.len());
               args.push(self.compile_expr(*value)?);
             }
             hir_js::ObjectProperty::Spread(expr) => {
@@ -1124,7 +1209,9 @@ impl<'p> HirSourceToInst<'p> {
               ));
             }
           }
+          marks.resize(args.len(), self.out.len());
         }
+        self.preserve_args(args.iter_mut().zip(marks));
         let tmp = self.c_temp.bump();
         self.out.push(Inst::call(
           tmp,
@@ -1137,11 +1224,15 @@ impl<'p> HirSourceToInst<'p> {
       }
       ExprKind::Template(template) => {
         let mut args = Vec::new();
+        let mark = self.out.len();
         args.push(Arg::Const(Const::Str(template.head.clone())));
+        let mut marks = vec![mark; args.len()];
         for span in template.spans.iter() {
           args.push(self.compile_expr(span.expr)?);
           args.push(Arg::Const(Const::Str(span.literal.clone())));
+          marks.extend([self.out.len(); 2]);
         }
+        self.preserve_args(args.iter_mut().zip(marks));
         let tmp = self.c_temp.bump();
         self.out.push(Inst::call(
           tmp,
@@ -1155,11 +1246,15 @@ impl<'p> HirSourceToInst<'p> {
       ExprKind::TaggedTemplate { tag, template } => {
         let mut args = Vec::new();
         args.push(self.compile_expr(*tag)?);
+        let mark = self.out.len();
         args.push(Arg::Const(Const::Str(template.head.clone())));
+        let mut marks = vec![mark; args.len()];
         for span in template.spans.iter() {
           args.push(self.compile_expr(span.expr)?);
           args.push(Arg::Const(Const::Str(span.literal.clone())));
+          marks.extend([self.out.len(); 2]);
         }
+        self.preserve_args(args.iter_mut().zip(marks));
         let tmp = self.c_temp.bump();
         self.out.push(Inst::call(
           tmp,
@@ -1174,11 +1269,8 @@ impl<'p> HirSourceToInst<'p> {
         argument,
         attributes,
       } => {
-        let mut args = Vec::new();
-        args.push(self.compile_expr(*argument)?);
-        if let Some(attrs) = attributes {
-          args.push(self.compile_expr(*attrs)?);
-        }
+        let operands: Vec<ExprId> = [Some(*argument), *attributes].into_iter().flatten().collect();
+        let args = self.compile_operands(&operands)?;
         let tmp = self.c_temp.bump();
         self.out.push(Inst::call(
           tmp,
-- 
2.43.0


From 40916e8beb5e87112820b11b9f9498faaf4d402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 41/42] fix: refuse to compile rest elements in destructuring
 patterns instead of dropping them

---
 optimize-js/src/il/s2i/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/optimize-js/src/il/s2i/stmt.rs b/optimize-js/src/il/s2i/stmt.rs
index aaf8e34..274df48 100644
--- a/optimize-js/src/il/s2i/stmt.rs
+++ b/optimize-js/src/il/s2i/stmt.rs
@@ -204,6 +204,18 @@ impl<'p> HirSourceToInst<'p> {
   }
 
   pub fn compile_destructuring(&mut self, pat: PatId, rval: Arg) -> OptimizeResult<()> {
+    let rest = match &self.body.pats[pat.0 as usize].kind {
+      PatKind::Array(arr) => arr.rest,
+      PatKind::Object(obj) => obj.rest,
+      _ => None,
+    };
+    if rest.is_some() {
+      return Err(unsupported_syntax_range(
+        self.program.lower.hir.file,
+        self.body.pats[pat.0 as usize].span,
+        "rest elements in destructuring patterns are not supported",
+      ));
+    }
     match &self.body.pats[pat.0 as usize].kind {
       PatKind::Array(arr) => {
         for (i, e) in arr.elements.iter().enumerate() {
-- 
2.43.0


From 2207a375a14c19a3b05fd50a364552fe43808214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 42/42] fix: do not reuse property and global reads across
 writes

---
 optimize-js/src/opt/optpass_dvn.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optimize-js/src/opt/optpass_dvn.rs b/optimize-js/src/opt/optpass_dvn.rs
index d8cbb39..d4f005e 100644
--- a/optimize-js/src/opt/optpass_dvn.rs
+++ b/optimize-js/src/opt/optpass_dvn.rs
@@ -89,6 +89,11 @@ fn is_valid_member_ident(name: &str) -> bool {
   !is_reserved_word(name)
 }
 
+/// Unlike those of true builtins, the properties of these objects may change.
+fn is_mutable_object(builtin: &str) -> bool {
+  matches!(builtin, "this" | "new.target" | "import.meta" | "globalThis")
+}
+
 #[derive(Clone, PartialEq, Eq, Hash, Debug)]
 enum Val {
   Bin { left: Arg, op: BinOp, right: Arg },
@@ -223,7 +228,7 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
         match (op, left, right) {
           (op, Arg::Const(l), Arg::Const(r)) => maybe_eval_const_bin_expr(op, l, r).map(Arg::Const),
           (BinOp::GetProp, Arg::Builtin(o), Arg::Const(Const::Str(p)))
-            if is_valid_member_ident(&p) =>
+            if is_valid_member_ident(&p) && !is_mutable_object(&o) =>
           {
             Some(Arg::Builtin(format!("{o}.{p}")))
           }
@@ -264,7 +269,8 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
       new_inst = Inst::var_assign(tgt, canonical_value)
     } else {
       let pure_val = match new_inst.t {
-        InstTyp::Bin => {
+        // A property may have changed since it was last read.
+        InstTyp::Bin if new_inst.bin_op != BinOp::GetProp => {
           let (_, left, op, right) = new_inst.as_bin();
           Some(Val::Bin {
             left: left.clone(),
@@ -272,7 +278,8 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
             right: right.clone(),
           })
         }
-        InstTyp::Un => {
+        // So may a global variable, which `typeof` reads by name.
+        InstTyp::Un if !matches!(new_inst.args[0], Arg::Builtin(_)) => {
           let (_tgt, op, arg) = new_inst.as_un();
           Some(Val::Un {
             op,
-- 
2.43.0

