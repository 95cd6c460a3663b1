From 62dea7c98dca243b017d7e1ce51cc9edf32ba2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 01/41] fix: tokenize documents of any length without
 exhausting the stack

---
 .../brack-tokenizer/src/angle_bracket_close.rs   |  5 ++---
 crates/brack-tokenizer/src/angle_bracket_open.rs |  5 ++---
 crates/brack-tokenizer/src/backslash.rs          |  5 ++---
 crates/brack-tokenizer/src/comma.rs              |  5 ++---
 .../brack-tokenizer/src/curly_bracket_close.rs   |  5 ++---
 crates/brack-tokenizer/src/curly_bracket_open.rs |  5 ++---
 crates/brack-tokenizer/src/dispatch.rs           | 16 ++++++++++++++--
 crates/brack-tokenizer/src/dot.rs                |  5 ++---
 crates/brack-tokenizer/src/identifier.rs         |  5 ++---
 crates/brack-tokenizer/src/module.rs             |  5 ++---
 crates/brack-tokenizer/src/newline.rs            |  5 ++---
 .../brack-tokenizer/src/square_bracket_close.rs  |  5 ++---
 .../brack-tokenizer/src/square_bracket_open.rs   |  5 ++---
 crates/brack-tokenizer/src/text.rs               |  5 ++---
 crates/brack-tokenizer/src/whitespace.rs         |  5 ++---
 15 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..f4e499a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -41,5 +40,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..2fefcd0 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -8,8 +8,19 @@ use crate::{
     whitespace,
 };
 use anyhow::Result;
+use std::ops::ControlFlow;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t.clone();
+    loop {
+        match step(&t)? {
+            ControlFlow::Continue(next) => t = next,
+            ControlFlow::Break(tokens) => return Ok(tokens),
+        }
+    }
+}
+
+fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
     let s = t
         .untreated
         .clone()
@@ -45,7 +56,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 character: column,
             },
         }));
-        return Ok(tokens);
+        return Ok(ControlFlow::Break(tokens));
     }
 
     let (head2, _) = separate(&tail);
@@ -92,7 +103,8 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
     }
+    .map(ControlFlow::Continue)
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From 71ae6af7f43c137ee2935a31290bb956102837cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 02/41] fix: do not treat a NUL character in a document as the
 end of the document

---
 crates/brack-tokenizer/src/dispatch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 2fefcd0..49337f0 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -35,7 +35,7 @@ fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if s.is_empty() {
         let mut tokens = t
             .tokens
             .clone()
@@ -91,7 +91,8 @@ fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From c935d400d6726aea5ebaf10d1f601671ac459e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 03/41] fix: recognise CRLF line endings as newlines

---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 49337f0..daa5c77 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -88,10 +88,10 @@ fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
-- 
2.43.0


From 1eb4703e4049bf80311e6adff876e79ff874164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 04/41] fix: keep stray closing brackets from changing how
 later text is tokenized

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/square_bracket_close.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..0d0480a 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -43,7 +43,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..1e98d58 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -43,7 +43,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..a8d6189 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -43,7 +43,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From c78a8f8947937c3585e51c5ba4e9d627671d86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 05/41] fix: end a command name at a newline and never take
 punctuation for one

---
 crates/brack-tokenizer/src/dispatch.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index daa5c77..4e7250b 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -76,9 +76,6 @@ fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
     let nested = (angle_c + curly_c + square_c) > 0;
     match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -89,7 +86,11 @@ fn step(t: &Tokenizer) -> Result<ControlFlow<Vec<Token>, Tokenizer>> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) | ("\r\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
+        (_, "\n") | (_, "\r\n") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
-- 
2.43.0


From cb61944811118b89737cc0d205d2d7fe03021958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 06/41] fix: treat an escaped character as literal text
 everywhere

---
 crates/brack-tokenizer/src/backslash.rs | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index f4e499a..a1fb6f6 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -33,6 +33,38 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // The escaped character is literal: emit it here so that it neither opens nor closes anything.
+    let (head, rest) = separate(&tail);
+    let escaped_location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let escaped = match &head[..] {
+        "\\" => Some(Token::BackSlash(escaped_location)),
+        "<" => Some(Token::AngleBracketOpen(escaped_location)),
+        ">" => Some(Token::AngleBracketClose(escaped_location)),
+        "{" => Some(Token::CurlyBracketOpen(escaped_location)),
+        "}" => Some(Token::CurlyBracketClose(escaped_location)),
+        "[" => Some(Token::SquareBracketOpen(escaped_location)),
+        "]" => Some(Token::SquareBracketClose(escaped_location)),
+        "." => Some(Token::Dot(escaped_location)),
+        "," => Some(Token::Comma(escaped_location)),
+        _ => None,
+    };
+    let (column, tail) = match escaped {
+        Some(token) => {
+            tokens.push(token);
+            (column + 1, rest)
+        }
+        None => (column, tail),
+    };
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
-- 
2.43.0


From e06c9603c43e167cf35f50c1389c454460b0a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 07/41] fix: recognise the command name after a macro in the
 module position

---
 crates/brack-tokenizer/src/dot.rs | 40 +++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 6e02f88..e46c301 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -23,6 +23,12 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         .column
         .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
 
+    let looking_for_identifier = if ends_with_macro_module(&tokens) {
+        Some(true)
+    } else {
+        None
+    };
+
     tokens.push(Token::Dot(Location {
         start: LocationData {
             line,
@@ -40,7 +46,41 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
+        looking_for_identifier,
         ..Default::default()
     };
     Ok(t.merge(&t2))
 }
+
+// Whether `tokens` end with a macro in the module position, e.g. `[<m.x>`.
+fn ends_with_macro_module(tokens: &[Token]) -> bool {
+    let is_escaped = |i: usize| {
+        let backslashes = tokens[..i].iter().rev();
+        backslashes
+            .take_while(|token| matches!(token, Token::BackSlash(_)))
+            .count()
+            % 2
+            == 1
+    };
+    let mut nest_count = 0;
+    for i in (0..tokens.len()).rev() {
+        match tokens[i] {
+            Token::AngleBracketClose(_) if !is_escaped(i) => nest_count += 1,
+            Token::AngleBracketOpen(_) if !is_escaped(i) => nest_count -= 1,
+            _ => {}
+        }
+        if nest_count <= 0 {
+            return nest_count == 0
+                && matches!(tokens[i], Token::AngleBracketOpen(_))
+                && i > 0
+                && matches!(
+                    tokens[i - 1],
+                    Token::AngleBracketOpen(_)
+                        | Token::CurlyBracketOpen(_)
+                        | Token::SquareBracketOpen(_)
+                )
+                && !is_escaped(i - 1);
+        }
+    }
+    false
+}
-- 
2.43.0


From ac4a5175c77db400aaf41a952ec9a141b6ed32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 08/41] fix: do not segment the rest of the document again for
 every character

---
 crates/brack-tokenizer/src/utils.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index ecfe141..3da5e13 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,15 +1,9 @@
 use unicode_segmentation::UnicodeSegmentation;
 
 pub fn separate(s: &str) -> (String, String) {
-    let graphemes = s.graphemes(true);
-    match graphemes.count() {
-        0 => ('\0'.to_string(), String::new()),
-        1 => (s.graphemes(true).next().unwrap().to_string(), String::new()),
-        _ => {
-            let mut graphemes = s.graphemes(true);
-            let head = graphemes.next().unwrap().to_string();
-            let tail = graphemes.collect::<String>();
-            (head, tail)
-        }
+    let mut graphemes = s.graphemes(true);
+    match graphemes.next() {
+        None => ('\0'.to_string(), String::new()),
+        Some(head) => (head.to_string(), graphemes.as_str().to_string()),
     }
 }
-- 
2.43.0


From 99783f7b0b2981a688078cb37d7808a280c3709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 09/41] fix: accept blank lines at the start of a document

---
 crates/brack-parser/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 923b5d8..5ad279d 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -6,11 +6,16 @@ use crate::{
     eof, newline, stmt,
 };
 
-// (stmt newline newline+)* stmt? newline* EOF
+// newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
     let mut tokens = tokens;
     let mut cst = new_document();
 
+    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {
+        cst.add(cst1);
+        tokens = new_tokens;
+    }
+
     loop {
         let mut csts = vec![];
         let mut tokens1 = tokens;
-- 
2.43.0


From bdf6dd40abdc8a9bdeaa9ee33b09ada3afdb1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 10/41] fix: parse documents with stray closing brackets and
 report each of them

---
 brack.cst.ebnf                       |  4 ++--
 crates/brack-parser/src/stmt.rs      |  7 ++++++-
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index de1ad53..eda64f8 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,5 +1,5 @@
-document := (stmt newline newline+)* stmt? newline* EOF
-stmt := expr_or_close (newline expr_or_close)*
+document := newline* (stmt newline newline+)* stmt? newline* EOF
+stmt := expr_or_close+ (newline expr_or_close+)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
 expr := (escaped | module | ident | bracket | dot | comma | whitespace | text)+
diff --git a/crates/brack-parser/src/stmt.rs b/crates/brack-parser/src/stmt.rs
index ea65d1d..35eb416 100644
--- a/crates/brack-parser/src/stmt.rs
+++ b/crates/brack-parser/src/stmt.rs
@@ -2,13 +2,18 @@ use crate::{cst::new_stmt, expr_or_close, newline, parser::Parser};
 use anyhow::Result;
 use brack_tokenizer::tokens::Token;
 
-// expr_or_close (newline expr_or_close)*
+// expr_or_close+ (newline expr_or_close+)*
 pub fn parse(tokens: &[Token]) -> Result<Parser> {
     let mut stmt = new_stmt();
     let (cst, mut tokens) = expr_or_close::parse(tokens)?;
     stmt.add(cst);
 
     loop {
+        if let Ok((cst1, new_tokens)) = expr_or_close::parse(tokens) {
+            stmt.add(cst1);
+            tokens = new_tokens;
+            continue;
+        }
         if let Ok((cst1, new_tokens)) = newline::parse(tokens) {
             if let Ok((cst2, new_tokens)) = expr_or_close::parse(new_tokens) {
                 stmt.add(cst1);
diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 7e76c78b6550a6b45f7810dcda75314f77dbad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 11/41] fix: give every syntax node the span of the source it
 covers

---
 crates/brack-parser/src/cst.rs       | 6 +++++-
 crates/brack-parser/src/escaped.rs   | 8 ++++++--
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..3d3be2d 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -174,7 +174,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if node.children.len() == 1 {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             _ => panic!("This node does not have children"),
         }
diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..16dc440 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,6 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
-use brack_tokenizer::tokens::Token;
+use brack_tokenizer::tokens::{merge_location, Token};
 use uuid::Uuid;
 
 use crate::cst::new_backslash;
@@ -59,10 +59,14 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         Ok(node) => vec![node],
                         Err(_) => vec![],
                     };
+                    let location = match children.first() {
+                        Some(node) => merge_location(location, &node.location()),
+                        None => location.clone(),
+                    };
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location,
                             children: children.clone(),
                         }),
                         tokens,
diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From c8c9b7a6122c05515308ed2c40387412a3e520a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 12/41] fix: do not panic on blanks, dots and commas after an
 improperly closed bracket

---
 crates/brack-transformer/src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..ec21c01 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,10 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            // These appear outside brackets only if a bracket is not closed properly.
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From 748d7664da976c5babd2fb4b7681c281a00411be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 13/41] fix: keep the blanks between the words of a command
 argument

---
 crates/brack-transformer/src/utils.rs | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..d2b6f90 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{new_expr, CST};
+use brack_parser::cst::{new_expr, new_text, CST};
 
 use crate::error::TransformError;
 
@@ -113,12 +113,32 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Newlines and the whitespaces around each argument are removed.
+// Whitespaces between the words of an argument are part of its text.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
-    for cst in csts {
+    let mut whitespaces = vec![];
+    let mut in_argument = false;
+    for (i, cst) in csts.iter().enumerate() {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Newline(_) => (),
+            CST::Whitespace(_) if in_argument => {
+                whitespaces.push(new_text(" ".to_string(), cst.location()))
+            }
+            CST::Whitespace(_) => (),
+            CST::Comma(_)
+            | CST::AngleBracketClose(_)
+            | CST::CurlyBracketClose(_)
+            | CST::SquareBracketClose(_) => {
+                whitespaces.clear();
+                in_argument = false;
+                result.push(cst.clone());
+            }
+            _ => {
+                result.append(&mut whitespaces);
+                in_argument = i >= 4;
+                result.push(cst.clone());
+            }
         }
     }
     result
-- 
2.43.0


From f4cdf2b16c97f8fc7aa7decc7d512c2dacabe3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 14/41] fix: replace macros with the syntax they expand to

---
 crates/brack-expander/src/expand.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..5f43053 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -41,6 +41,9 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
         AST::Ident(_) => {
             return Ok(ast.clone());
         }
+        AST::Invalid(_) | AST::Ignored(_) => {
+            return Ok(ast.clone());
+        }
         _ => {}
     }
     for child in ast.children() {
@@ -49,7 +52,17 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    let mut ast = ast.clone();
+    match &mut ast {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => node.children = children,
+        _ => {}
+    }
+    Ok(ast)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From 46b968be8732f517aa9bb7e835b40fc150ac567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 15/41] fix: report missing command arguments instead of
 panicking

---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 crates/brack-plugin/src/types.rs   | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..a43d52c 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..4c88384 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..c04821d 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max = 0usize;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From 4ed196d43c600eccc5b3c41705fc7da5d2431f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 16/41] fix: fail compile and build on documents with syntax
 errors

---
 crates/brack-project-manager/src/project.rs |  5 +++++
 src/main.rs                                 | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..fc4d6e9 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -137,6 +137,11 @@ impl Project {
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
+                if !_errors.is_empty() {
+                    let messages: Vec<String> =
+                        _errors.iter().map(|error| error.to_string()).collect();
+                    anyhow::bail!("{}:\n{}", path.display(), messages.join("\n"));
+                }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
                 std::fs::create_dir_all("out")?;
diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..c33c00a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,6 +12,14 @@ struct Args {
     subcommand: SubCommands,
 }
 
+fn bail_on_errors(errors: &[impl std::fmt::Display]) -> Result<()> {
+    if errors.is_empty() {
+        return Ok(());
+    }
+    let messages: Vec<String> = errors.iter().map(|error| error.to_string()).collect();
+    anyhow::bail!("{}", messages.join("\n"))
+}
+
 pub fn run_compile(subcommand: SubCommands) -> Result<()> {
     let mut pathes = HashMap::new();
 
@@ -98,6 +106,7 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
             let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            bail_on_errors(&_errors)?;
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
@@ -113,6 +122,7 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
             let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            bail_on_errors(&_errors)?;
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
             println!("{}", gen);
-- 
2.43.0


From c012b4621fb0588ab68f0729cd4beee1cbda4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 17/41] fix: take the module name of a plugin from its whole
 file name

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c33c00a..25e279f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -39,13 +39,15 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
+        let file_name = entry.file_name();
         let capture = pattern.captures(
-            path.to_str()
+            file_name
+                .to_str()
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From e6adde2ef5e4327940149d1a9b14dd6dce4aa721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 18/41] fix: keep the files of a project under its root,
 whatever the current directory

---
 crates/brack-project-manager/src/project.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index fc4d6e9..28c9ddd 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -35,8 +35,8 @@ impl Project {
     }
 
     pub fn clear_plugins(&mut self) -> Result<()> {
-        std::fs::remove_dir_all("plugins")?;
-        std::fs::create_dir("plugins")?;
+        std::fs::remove_dir_all(self.root.join("plugins"))?;
+        std::fs::create_dir(self.root.join("plugins"))?;
         self.plugins_metadata = Default::default();
         Ok(())
     }
@@ -46,7 +46,8 @@ impl Project {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
                 let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                    self.root
+                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
@@ -124,7 +125,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
-        let entries = std::fs::read_dir("docs")?;
+        let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -144,16 +145,19 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
+                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
-                    format!("out/{}.{}", file_stem, self.config.document.backend),
+                    self.root.join(format!(
+                        "out/{}.{}",
+                        file_stem, self.config.document.backend
+                    )),
                     gen,
                 )?;
             }
         }
 
         println!("Build succeeded.");
-        for out in std::fs::read_dir("out")? {
+        for out in std::fs::read_dir(self.root.join("out"))? {
             let out = out?;
             let path = out.path();
             let file_stem = path
-- 
2.43.0


From 403d2930bed822b0a0584b2d2e0b95149dbceef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 19/41] fix: create the plugins directory before storing a
 downloaded plugin

---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 28c9ddd..bbf175d 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -108,6 +108,7 @@ impl Project {
             }
 
             let results = join_all(tasks).await;
+            std::fs::create_dir_all(self.root.join("plugins"))?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
                 std::fs::write(&path, &bytes)?;
-- 
2.43.0


From 1f97b8edefedfdfd0bdfadddbf5872cb60548d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 20/41] fix: build a project that has no documents

---
 crates/brack-project-manager/src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index bbf175d..6fd8d36 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -127,6 +127,7 @@ impl Project {
         let mut plugins = Plugins::new(plugin_vec)?;
 
         let entries = std::fs::read_dir(self.root.join("docs"))?;
+        std::fs::create_dir_all(self.root.join("out"))?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -146,7 +147,6 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
                     self.root.join(format!(
                         "out/{}.{}",
-- 
2.43.0


From 312de267c36b9151fc3b70a0b36548e57538289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 21/41] fix: do not reuse a plugin stored for another backend

---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..28f5bff 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?}{:?}", self, backend));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 6fd8d36..ae2902c 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -45,9 +45,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    self.root
-                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = self.root.join(format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From a52719db0b3db33ea48b19bc8919f2eb9ee9fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 22/41] fix: never leave a partly written plugin or Brack.toml
 behind

---
 crates/brack-project-manager/src/plugin.rs  | 24 +++++++++++++++++----
 crates/brack-project-manager/src/project.rs |  4 ++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 28f5bff..9478cb1 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,7 +1,7 @@
 use crate::config::Config;
 use core::fmt;
 use sha2::{Digest, Sha256};
-use std::{collections::HashMap, fs::File, io, path::Path};
+use std::{collections::HashMap, path::Path};
 
 use anyhow::Result;
 use serde::{
@@ -183,6 +183,20 @@ fn check_existence_brack_toml() -> bool {
     path.exists()
 }
 
+// Replaces the file at once, so that an interrupted write never leaves a part of it.
+pub(crate) fn write_whole_file(path: &Path, contents: &[u8]) -> Result<()> {
+    let mut file_name = path.file_name().unwrap_or_default().to_os_string();
+    file_name.push(".tmp");
+    let tmp_path = path.with_file_name(file_name);
+    if let Err(e) =
+        std::fs::write(&tmp_path, contents).and_then(|_| std::fs::rename(&tmp_path, path))
+    {
+        let _ = std::fs::remove_file(&tmp_path);
+        return Err(e.into());
+    }
+    Ok(())
+}
+
 pub async fn add_plugin(schema: &str) -> Result<()> {
     if !check_existence_brack_toml() {
         return Err(anyhow::anyhow!("Brack.toml is not found."));
@@ -262,8 +276,10 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
 
     let bytes = response.bytes().await?;
     std::fs::create_dir_all("plugins")?;
-    let mut out = File::create(format!("plugins/{}.wasm", repository_name))?;
-    io::copy(&mut bytes.as_ref(), &mut out)?;
+    write_whole_file(
+        Path::new(&format!("plugins/{}.wasm", repository_name)),
+        &bytes,
+    )?;
 
     config.plugins.get_or_insert_with(HashMap::new).insert(
         plugin_name.to_string(),
@@ -278,7 +294,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    write_whole_file(Path::new("Brack.toml"), toml.as_bytes())?;
 
     Ok(())
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index ae2902c..59493b8 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,5 +1,5 @@
 use crate::config::Config;
-use crate::plugin::PluginSchema;
+use crate::plugin::{write_whole_file, PluginSchema};
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use bytes::Bytes;
@@ -113,7 +113,7 @@ impl Project {
             std::fs::create_dir_all(self.root.join("plugins"))?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
-                std::fs::write(&path, &bytes)?;
+                write_whole_file(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
-- 
2.43.0


From b9596aa2ffe540308181525a4373ad33af478a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 23/41] fix: quote the project name in the Brack.toml of a new
 project

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 25e279f..da8de53 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -136,6 +136,8 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
 }
 
 fn new_project(name: &str) -> Result<()> {
+    // A TOML basic string is a JSON string in which DEL is escaped, too.
+    let quoted_name = serde_json::to_string(name)?.replace('\u{7f}', "\\u007f");
     std::fs::create_dir(name)?;
     std::fs::create_dir(format!("{}/docs", name))?;
     std::fs::write(format!("{}/docs/main.[]", name), "")?;
@@ -143,14 +145,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            quoted_name
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From de5e8c2dcb79f7dd3e424b14f5a805dc0251e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 24/41] fix: read language server messages however their bytes
 arrive, and survive invalid ones

---
 crates/brack-language-server/src/server.rs | 58 ++++++++++------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..7cafa38 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,10 +1,10 @@
-use std::str::from_utf8;
+use std::ops::Range;
 
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -74,7 +74,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -134,39 +133,34 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+            while let Some((message, total_length)) = split_message(&buffer) {
+                let message = message.map(|content| from_slice(&buffer[content]));
+                buffer.drain(0..total_length);
+                match message {
+                    Some(Ok(msg)) => self.dispatch(msg).await?,
+                    Some(Err(_)) => self.send_parse_error_response().await?,
+                    None => self.log_message("Received an invalid header.").await?,
                 }
             }
-
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
-
-            if buffer.len() < total_length {
-                continue;
-            }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
     }
 }
+
+// Finds the first message in the buffer if it has arrived completely.
+// Returns the range of its content (`None` if the header is invalid) and its total length.
+fn split_message(buffer: &[u8]) -> Option<(Option<Range<usize>>, usize)> {
+    let header_length = buffer.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
+    let header = String::from_utf8_lossy(&buffer[..header_length]);
+    let content_length = header
+        .split("\r\n")
+        .filter_map(|line| line.split_once(':'))
+        .filter(|(key, _)| key.trim().eq_ignore_ascii_case("Content-Length"))
+        .find_map(|(_, value)| value.trim().parse::<usize>().ok());
+    match content_length.and_then(|length| header_length.checked_add(length)) {
+        Some(total_length) if buffer.len() < total_length => None,
+        Some(total_length) => Some((Some(header_length..total_length), total_length)),
+        None => Some((None, header_length)),
+    }
+}
-- 
2.43.0


From d8fffc1c141f7f2e4d3c88257fe25e58d20f469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 25/41] fix: keep the language server running when a request or
 notification fails

---
 crates/brack-language-server/src/server.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 7cafa38..9866cfb 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -112,9 +112,25 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => {
+                if let Err(e) = self.handle_request(&msg, id, method).await {
+                    self.send_error_response(
+                        Some(id),
+                        -32602,
+                        &format!("{} failed: {}", method, e),
+                    )
+                    .await?;
+                }
+                Ok(())
+            }
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => {
+                if let Err(e) = self.handle_notification(&msg, method).await {
+                    self.log_message(&format!("{} failed: {}", method, e))
+                        .await?;
+                }
+                Ok(())
+            }
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 4e89c76cea4534fe26119f531805195f935a5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 26/41] fix: answer language server requests that have no
 result with null

---
 crates/brack-language-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..60a6430 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -112,7 +112,7 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => self.send_stdout(&BLSResult::new(id, Value::Null)).await,
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
@@ -129,7 +129,7 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => self.send_stdout(&BLSResult::new(id, Value::Null)).await,
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
-- 
2.43.0


From c25c88fc70fa5884cc3fe6c631f0c4d9b4d11f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 27/41] fix: answer language server requests whose id is a
 string

---
 crates/brack-language-server/src/request.rs  |  2 +-
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  5 +++--
 crates/brack-language-server/src/server.rs   | 14 ++++++++++----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index 60a6430..8c0c932 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: Value,
         method: &str,
     ) -> Result<()> {
         match method {
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..33a89bc 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..587549c 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,14 +1,15 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
             id,
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 9866cfb..352f1ce 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -48,7 +48,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -69,7 +69,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -109,11 +113,13 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id")
+                .filter(|i| i.is_i64() || i.is_string())
+                .cloned(),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
             (Some(id), Some(method)) => {
-                if let Err(e) = self.handle_request(&msg, id, method).await {
+                if let Err(e) = self.handle_request(&msg, id.clone(), method).await {
                     self.send_error_response(
                         Some(id),
                         -32602,
-- 
2.43.0


From 3d5a09884c4e82334701dbca1c2177662e20db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 28/41] fix: publish diagnostics under the URI of the document

---
 crates/brack-language-server/src/notification/did_save.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..036161b 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -11,6 +11,7 @@ impl Server {
         &self,
         param: DidSaveTextDocumentParams,
     ) -> Result<()> {
+        let document_uri = param.text_document.uri.as_str();
         let file_path = param
             .text_document
             .uri
@@ -29,7 +30,9 @@ impl Server {
 
         if errors.is_empty() {
             let diagnostics: Vec<Diagnostic> = vec![];
-            return self.send_publish_diagnostics(uri, &diagnostics).await;
+            return self
+                .send_publish_diagnostics(document_uri, &diagnostics)
+                .await;
         }
 
         let mut diagnostics = vec![];
@@ -52,6 +55,7 @@ impl Server {
             };
             diagnostics.push(diagnostic);
         }
-        self.send_publish_diagnostics(uri, &diagnostics).await
+        self.send_publish_diagnostics(document_uri, &diagnostics)
+            .await
     }
 }
-- 
2.43.0


From 698c45b61638d36fa25177eb18c7706defe6e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 29/41] fix: complete macro names after an angle bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From 09cfc55403a57bdffbfd5e1a10f4737a86c99b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 30/41] fix: report only semantic tokens whose type is in the
 announced legend

---
 .../src/request/semantic_tokens.rs                    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 40b360e..c756941 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -4,16 +4,16 @@ use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokens
 
 use crate::server::Server;
 
-fn token_kind_to_type(token: &Token) -> u32 {
+fn token_kind_to_type(token: &Token) -> Option<u32> {
     let typ = match token {
         Token::Module(_, _) => SemanticTokenType::NAMESPACE,
         Token::Ident(_, _) => SemanticTokenType::VARIABLE,
         Token::AngleBracketOpen(_) | Token::AngleBracketClose(_) => SemanticTokenType::MACRO,
         Token::CurlyBracketOpen(_) | Token::CurlyBracketClose(_) => SemanticTokenType::METHOD,
         Token::SquareBracketOpen(_) | Token::SquareBracketClose(_) => SemanticTokenType::FUNCTION,
-        _ => return 100, // no decoration
+        _ => return None, // no decoration
     };
-    token_type_as_u32(typ)
+    Some(token_type_as_u32(typ))
 }
 
 fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
@@ -50,6 +50,9 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut prev_char = 0;
 
     for token in tokens {
+        let Some(token_type) = token_kind_to_type(token) else {
+            continue;
+        };
         let location = token.get_location();
         let delta_line = location.start.line as u32 - prev_line;
         let delta_start = if delta_line == 0 {
@@ -62,7 +65,7 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             delta_line,
             delta_start,
             length: (location.end.character - location.start.character) as u32,
-            token_type: token_kind_to_type(token),
+            token_type,
             token_modifiers_bitset: 0,
         });
 
-- 
2.43.0


From 2e84e0d972e138eb1fe5187b43d6ac96f86d1ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 31/41] fix: count the characters of language server positions
 in UTF-16 code units

---
 crates/brack-language-server/src/lib.rs       |  1 +
 .../src/notification/did_save.rs              | 13 ++----
 crates/brack-language-server/src/position.rs  | 45 +++++++++++++++++++
 .../src/request/semantic_tokens.rs            | 17 ++++---
 4 files changed, 60 insertions(+), 16 deletions(-)
 create mode 100644 crates/brack-language-server/src/position.rs

diff --git a/crates/brack-language-server/src/lib.rs b/crates/brack-language-server/src/lib.rs
index 10a63f2..d4feef1 100644
--- a/crates/brack-language-server/src/lib.rs
+++ b/crates/brack-language-server/src/lib.rs
@@ -1,4 +1,5 @@
 mod notification;
+mod position;
 mod request;
 mod response;
 mod result;
diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index 036161b..3343465 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -4,7 +4,7 @@ use brack_tokenizer::tokenize::tokenize;
 use brack_transformer::transform::transform;
 use lsp_types::{Diagnostic, DidSaveTextDocumentParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 impl Server {
     pub(crate) async fn handle_text_document_did_save(
@@ -35,20 +35,15 @@ impl Server {
                 .await;
         }
 
+        let positions = Positions::new(&tokens);
         let mut diagnostics = vec![];
         for error in errors {
             let location = error.get_location();
             let message = error.get_message();
             let diagnostic = Diagnostic {
                 range: lsp_types::Range {
-                    start: lsp_types::Position {
-                        line: location.start.line as u32,
-                        character: location.start.character as u32,
-                    },
-                    end: lsp_types::Position {
-                        line: location.end.line as u32,
-                        character: location.end.character as u32,
-                    },
+                    start: positions.get(&location.start),
+                    end: positions.get(&location.end),
                 },
                 message,
                 ..Default::default()
diff --git a/crates/brack-language-server/src/position.rs b/crates/brack-language-server/src/position.rs
new file mode 100644
index 0000000..e439717
--- /dev/null
+++ b/crates/brack-language-server/src/position.rs
@@ -0,0 +1,45 @@
+use std::collections::HashMap;
+
+use brack_tokenizer::tokens::{LocationData, Token};
+use lsp_types::Position;
+
+/// Translates the places where tokens start or end to LSP positions,
+/// whose characters are counted in UTF-16 code units.
+pub(crate) struct Positions {
+    characters: HashMap<(usize, usize), u32>,
+}
+
+impl Positions {
+    pub(crate) fn new(tokens: &[Token]) -> Self {
+        let mut characters = HashMap::new();
+        let mut line = 0;
+        let mut character = 0;
+        for token in tokens {
+            let location = token.get_location();
+            if location.start.line != line {
+                line = location.start.line;
+                character = 0;
+            }
+            characters.insert((line, location.start.character), character);
+            character += match token {
+                Token::Text(text, _) | Token::Module(text, _) | Token::Ident(text, _) => {
+                    text.encode_utf16().count() as u32
+                }
+                _ => (location.end.character - location.start.character) as u32,
+            };
+            characters.insert((location.end.line, location.end.character), character);
+        }
+        Self { characters }
+    }
+
+    pub(crate) fn get(&self, location: &LocationData) -> Position {
+        let key = (location.line, location.character);
+        Position {
+            line: location.line as u32,
+            character: match self.characters.get(&key) {
+                Some(character) => *character,
+                None => location.character as u32,
+            },
+        }
+    }
+}
diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index c756941..5ac16db 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -2,7 +2,7 @@ use anyhow::Result;
 use brack_tokenizer::{tokenize::tokenize, tokens::Token};
 use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokensParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 fn token_kind_to_type(token: &Token) -> Option<u32> {
     let typ = match token {
@@ -45,6 +45,7 @@ fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
 }
 
 fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
+    let positions = Positions::new(tokens);
     let mut semantic_tokens = Vec::new();
     let mut prev_line = 0;
     let mut prev_char = 0;
@@ -54,23 +55,25 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             continue;
         };
         let location = token.get_location();
-        let delta_line = location.start.line as u32 - prev_line;
+        let start = positions.get(&location.start);
+        let end = positions.get(&location.end);
+        let delta_line = start.line - prev_line;
         let delta_start = if delta_line == 0 {
-            location.start.character as u32 - prev_char
+            start.character - prev_char
         } else {
-            location.start.character as u32
+            start.character
         };
 
         semantic_tokens.push(SemanticToken {
             delta_line,
             delta_start,
-            length: (location.end.character - location.start.character) as u32,
+            length: end.character - start.character,
             token_type,
             token_modifiers_bitset: 0,
         });
 
-        prev_line = location.start.line as u32;
-        prev_char = location.start.character as u32;
+        prev_line = start.line;
+        prev_char = start.character;
     }
 
     semantic_tokens
-- 
2.43.0


From a3de2ce2d4ca53b816a46bb9828c6f46bd6c6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:34 +0000
Subject: [PATCH 32/41] fix: locate misplaced commas next to misplaced dots and
 report all of them

---
 crates/brack-transformer/src/utils.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index d2b6f90..bee7d1d 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -65,23 +65,24 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
+    let mut previous_comma = None;
     for i in 4..csts.len() {
         match csts[i].clone() {
             CST::Comma(_) => {
                 if expr.children().is_empty() {
                     errors.push(TransformError::UnexpectedComma(csts[i].location()));
+                    previous_comma = None;
                     continue;
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                previous_comma = Some(csts[i].location());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(location) = previous_comma {
+                    errors.push(TransformError::UnexpectedComma(location));
                 }
                 expr = new_expr();
                 new_csts.push(csts[i].clone());
@@ -93,7 +94,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
             }
             _ => {
                 expr.add(csts[i].clone());
-                previous_comma = false;
+                previous_comma = None;
             }
         }
     }
@@ -126,6 +127,8 @@ pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
                 whitespaces.push(new_text(" ".to_string(), cst.location()))
             }
             CST::Whitespace(_) => (),
+            // It does not belong to an argument.
+            CST::Dot(_) => result.push(cst.clone()),
             CST::Comma(_)
             | CST::AngleBracketClose(_)
             | CST::CurlyBracketClose(_)
-- 
2.43.0


From 4c9f3753667b1255c56eb1e1c9fceb194c4de926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:05 +0000
Subject: [PATCH 33/41] fix: escape the names in completion snippets

---
 .../brack-language-server/src/request/completion.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 5888ccf..0e8e45f 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -4,16 +4,23 @@ use lsp_types::{CompletionItem, CompletionParams, CompletionResponse, InsertText
 
 use crate::server::Server;
 
+// `$` and `\` have a meaning of their own in snippets.
+fn escape_snippet(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('$', "\\$")
+}
+
 fn build_completion_item(
     module_name: &str,
     name: &str,
     typ: &Type,
     command_metadata: &Metadata,
 ) -> CompletionItem {
+    let module = escape_snippet(module_name);
+    let command = escape_snippet(name);
     let insert_text = Some(match typ {
-        Type::TInline => format!("{}.{} $0]", module_name, name),
-        Type::TBlock => format!("{}.{} $0}}", module_name, name),
-        Type::TAST => format!("{}.{} $0>", module_name, name),
+        Type::TInline => format!("{}.{} $0]", module, command),
+        Type::TBlock => format!("{}.{} $0}}", module, command),
+        Type::TAST => format!("{}.{} $0>", module, command),
         _ => panic!("Invalid type"),
     });
     CompletionItem {
-- 
2.43.0


From 71bf207437a1a2a6ff8330314d4854ae8f6fbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 34/41] fix: report a misplaced dot once

---
 crates/brack-transformer/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index bee7d1d..9a1bff8 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -88,10 +88,8 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            // Reported by check_unexpected_dot.
+            CST::Dot(_) => continue,
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = None;
-- 
2.43.0


From a7632e8acc8a2399ec2b8c1758fe0097b998758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 35/41] fix: report output that cannot be written instead of
 crashing

---
 src/main.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index da8de53..1053c2f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, io::Write};
 
 use anyhow::Result;
 use brack::sub_commands::SubCommands;
@@ -67,15 +67,16 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         anyhow::bail!("Filename must end with .[]");
     }
 
+    let mut stdout = std::io::stdout();
     match output_level {
         1 => {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             if json {
                 let json = serde_json::to_string(&tokens)?;
-                println!("{}", json);
+                writeln!(stdout, "{}", json)?;
             } else {
                 for token in tokens {
-                    println!("{:?}", token);
+                    writeln!(stdout, "{:?}", token)?;
                 }
             }
         }
@@ -84,9 +85,9 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             let cst = brack_parser::parse::parse(&tokens)?;
             if json {
                 let json = serde_json::to_string(&cst)?;
-                println!("{}", json);
+                writeln!(stdout, "{}", json)?;
             } else {
-                println!("{:?}", cst);
+                writeln!(stdout, "{:?}", cst)?;
             }
         }
         3 => {
@@ -95,13 +96,13 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             let (ast, _errors) = brack_transformer::transform::transform(&cst);
             if json {
                 let json = serde_json::to_string(&ast)?;
-                println!("{}", json);
+                writeln!(stdout, "{}", json)?;
             } else if !_errors.is_empty() {
                 for error in _errors {
-                    println!("{:?}", error);
+                    writeln!(stdout, "{:?}", error)?;
                 }
             } else {
-                println!("{:?}", ast);
+                writeln!(stdout, "{:?}", ast)?;
             }
         }
         4 => {
@@ -112,9 +113,9 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
-                println!("{}", json);
+                writeln!(stdout, "{}", json)?;
             } else {
-                println!("{:?}", expanded_ast);
+                writeln!(stdout, "{:?}", expanded_ast)?;
             }
         }
         5 => {
@@ -127,7 +128,7 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             bail_on_errors(&_errors)?;
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
-            println!("{}", gen);
+            writeln!(stdout, "{}", gen)?;
         }
         _ => anyhow::bail!("Invalid output level."),
     }
-- 
2.43.0


From dbfbb6905a947d32e434eac5b1b1a8928be47733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 36/41] fix: show nodes without a value instead of crashing

---
 crates/brack-transformer/src/ast.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 5da4323..224851a 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -194,11 +194,26 @@ impl AST {
                 }
                 Ok(())
             }
-            AST::Ident(node) => writeln!(f, "{}Ident: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Ident(node) => writeln!(
+                f,
+                "{}Ident: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Module(node) => {
-                writeln!(f, "{}Module: {}", ident_str, node.value.as_ref().unwrap())
+                writeln!(
+                    f,
+                    "{}Module: {}",
+                    ident_str,
+                    node.value.as_deref().unwrap_or_default()
+                )
             }
-            AST::Text(node) => writeln!(f, "{}Text: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Text(node) => writeln!(
+                f,
+                "{}Text: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Invalid(_) => writeln!(f, "{}Invalid", ident_str),
             AST::Ignored(_) => writeln!(f, "{}Ignored", ident_str),
         }
-- 
2.43.0


From f95049c6508ab38645da1cf2fffb444e0ce454fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:49 +0000
Subject: [PATCH 37/41] fix: two processes storing the same file at once do not
 disturb each other

---
 crates/brack-project-manager/src/plugin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 9478cb1..c8c225e 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -184,9 +184,10 @@ fn check_existence_brack_toml() -> bool {
 }
 
 // Replaces the file at once, so that an interrupted write never leaves a part of it.
+// Another process may be writing the same file, so each has a temporary file of its own.
 pub(crate) fn write_whole_file(path: &Path, contents: &[u8]) -> Result<()> {
     let mut file_name = path.file_name().unwrap_or_default().to_os_string();
-    file_name.push(".tmp");
+    file_name.push(format!(".{}.tmp", std::process::id()));
     let tmp_path = path.with_file_name(file_name);
     if let Err(e) =
         std::fs::write(&tmp_path, contents).and_then(|_| std::fs::rename(&tmp_path, path))
-- 
2.43.0


From 58c248aace02b1d754f52f09772e49dbb6c33cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:10 +0000
Subject: [PATCH 38/41] fix: a plugin with a file name nearly as long as
 allowed could not be stored

---
 crates/brack-project-manager/src/plugin.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index c8c225e..e77a754 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -184,11 +184,10 @@ fn check_existence_brack_toml() -> bool {
 }
 
 // Replaces the file at once, so that an interrupted write never leaves a part of it.
-// Another process may be writing the same file, so each has a temporary file of its own.
+// Another process may be writing the same file, so each has a temporary file of its own,
+// whose name is short as that of the file may be as long as is allowed.
 pub(crate) fn write_whole_file(path: &Path, contents: &[u8]) -> Result<()> {
-    let mut file_name = path.file_name().unwrap_or_default().to_os_string();
-    file_name.push(format!(".{}.tmp", std::process::id()));
-    let tmp_path = path.with_file_name(file_name);
+    let tmp_path = path.with_file_name(format!(".{}.tmp", std::process::id()));
     if let Err(e) =
         std::fs::write(&tmp_path, contents).and_then(|_| std::fs::rename(&tmp_path, path))
     {
-- 
2.43.0


From a31de1e042dba940191907f04b5a497361a2bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:44 +0000
Subject: [PATCH 39/41] fix: a file whose name is not UTF-8 in the plugin
 directory does not make compile fail

---
 src/main.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1053c2f..fd4068a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,11 +45,8 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         let entry = entry?;
         let path = entry.path();
         let file_name = entry.file_name();
-        let capture = pattern.captures(
-            file_name
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
-        );
+        // A name that is not UTF-8 is no plugin's.
+        let capture = file_name.to_str().and_then(|name| pattern.captures(name));
         if let Some(capture) = capture {
             let module_name = capture.name("module_name").unwrap().as_str();
             pathes.insert(module_name.to_string(), (path, FeatureFlag::default()));
-- 
2.43.0


From 84b1b7f13e5683cff7eea28cf1f1d8e6541b210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 40/41] fix: files other than documents may have names that are
 not UTF-8

---
 crates/brack-project-manager/src/project.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 59493b8..7fa1524 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -133,12 +133,12 @@ impl Project {
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
-            let file_stem = path
-                .file_stem()
-                .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
             if path.extension() == Some("[]".as_ref()) {
+                let file_stem = path
+                    .file_stem()
+                    .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
+                    .to_str()
+                    .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
@@ -166,8 +166,7 @@ impl Project {
             let file_stem = path
                 .file_name()
                 .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
+                .to_string_lossy();
             println!("  - ./out/{}", file_stem);
         }
         Ok(())
-- 
2.43.0


From 0633f434ab8da34fd7df65c66ec102a531f960e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:54 +0000
Subject: [PATCH 41/41] fix: the time to tokenize a document grew with the
 square of its length

---
 crates/brack-tokenizer/src/dispatch.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 4e7250b..49e73d9 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -12,10 +12,27 @@ use std::ops::ControlFlow;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     let mut t = t.clone();
+    let text = t
+        .untreated
+        .replace(String::new())
+        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
+    let mut lines = text.split_inclusive('\n');
+    let mut treated = vec![];
     loop {
+        // Every step copies `t`, so it holds one line and the tokens of one command only.
+        if t.untreated.as_deref() == Some("") {
+            t.untreated = lines.next().or(Some("")).map(str::to_string);
+        }
         match step(&t)? {
             ControlFlow::Continue(next) => t = next,
-            ControlFlow::Break(tokens) => return Ok(tokens),
+            ControlFlow::Break(tokens) => {
+                treated.extend(tokens);
+                return Ok(treated);
+            }
+        }
+        let nests = [t.angle_nest_count, t.curly_nest_count, t.square_nest_count];
+        if nests.into_iter().flatten().sum::<i32>() == 0 {
+            treated.append(t.tokens.get_or_insert_with(Vec::new));
         }
     }
 }
-- 
2.43.0

