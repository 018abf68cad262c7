From 18730993416a401d1ccb57954f13897fb6b4812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 1/7] fix: do not print to standard output while parsing a
 character

---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From 67705913bd3cecb09939df45838c1622a7bf369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 2/7] fix: a character's hex code is two hex digits, without a
 sign

---
 src/ast/expression/character.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index cd30d37..304a5ea 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -11,8 +11,8 @@ named!(character_content<CompleteStr, char>,
       map_res!(
         do_parse!(
           tag!("\\x") >>
-          code: take!(2) >>
-          (u8::from_str_radix(code.0, 16))
+          code: re_matches!(r"^[0-9a-fA-F]{2}") >>
+          (u8::from_str_radix(code[0].0, 16))
         ),
         |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
-- 
2.43.0


From 98e23ce5307cb1be676177210e365fc1f44189d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 3/7] fix: allow capitals and zero in type variable names

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..3eb4fea 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From 1cf86ef6f1ca165349d4411887a86a188113de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 4/7] fix: allow a record update to close right after its last
 field

---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..c176464 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -136,7 +136,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       ) >>
       (Expression::RecordUpdate(name.to_string(), pairs))
     ),
-    terminated!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
+    terminated!(call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
   )
 );
 
-- 
2.43.0


From 9b8d48efdb602d64d9201f1b7c82975d3db0d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 5/7] fix: a parenthesised single expression is not a
 one-element tuple

---
 src/ast/expression/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index c176464..3c8a487 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -143,7 +143,11 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
 named_args!(parens(indentation: u32) <CompleteStr, Expression>,
     delimited!(
         char!('('),
-        call!(expression, indentation),
+        delimited!(
+            multispace0,
+            call!(expression, indentation),
+            multispace0
+        ),
         char!(')')
     )
 );
@@ -213,6 +217,7 @@ named_args!(let_binding_target(indentation: u32) <CompleteStr, Expression>,
   alt!(
       variable
     | call!(list, indentation)
+    | call!(parens, indentation)
     | call!(tuple, indentation)
     | call!(simplified_record, indentation)
   )
-- 
2.43.0


From d764c102a86d71707b57263b2ad0a765e6ec0d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 6/7] fix: a parenthesised single type is not a one-element
 tuple

---
 src/ast/type_/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 3eb4fea..459a51a 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -95,12 +95,12 @@ named_args!(type_parameter(indentation: u32)<CompleteStr, Type>,
     | type_constant
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
-    | call!(type_tuple, indentation)
     | delimited!(
         preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
         call!(type_annotation, indentation),
         terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
       )
+    | call!(type_tuple, indentation)
   )
 );
 
@@ -127,12 +127,12 @@ named_args!(pub type_(indentation: u32)<CompleteStr, Type>,
     | type_variable
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
-    | call!(type_tuple, indentation)
     | delimited!(
         preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
         call!(type_annotation, indentation),
         terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
       )
+    | call!(type_tuple, indentation)
   )
 );
 
-- 
2.43.0


From 39e138f13bbdb1c6c04d6ebb65a04394d02a8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 7/7] Expose the ast module to verification harnesses under
 cfg(elm_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..da077dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,4 +2,7 @@
 extern crate nom;
 extern crate regex;
 
+#[cfg(not(elm_verif))]
 mod ast;
+#[cfg(elm_verif)]
+pub mod ast;
-- 
2.43.0

