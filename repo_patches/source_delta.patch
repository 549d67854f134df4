From d00abcfa9ad404dc6d444809c4e8263712715567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 01/17] fix: report the unparsed leftover in Partial and
 PartialError results

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..a2189f2 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -46,7 +46,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -55,6 +54,7 @@ impl<'a> Parser<'a> {
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
+    let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
       let len = self.errors.borrow().len();
       if len > 0 {
-- 
2.43.0


From d75f4d873ab75e3083e5983e33766a3411c49dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 02/17] fix: display empty documents, arrays and inline tables
 without underflowing

---
 src/internals/ast/structs.rs | 13 +++++--------
 src/types.rs                 | 12 ++++++------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..a84cf84 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,10 +36,10 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-      for i in 0..self.exprs.len()-1 {
-        try!(write!(f, "{}", self.exprs[i]));
+      for expr in self.exprs.iter() {
+        try!(write!(f, "{}", expr));
       }
-    write!(f, "{}", self.exprs[self.exprs.len()-1])
+      Ok(())
    }
 }
 
@@ -753,11 +753,8 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
-      try!(write!(f, "{}", self.keyvals[i]));
-    }
-    if self.keyvals.len() > 0 {
-      try!(write!(f, "{}", self.keyvals[self.keyvals.len() - 1]));
+    for keyval in self.keyvals.iter() {
+      try!(write!(f, "{}", keyval));
     }
     write!(f, "{}}}", self.ws.ws2)
   }
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..dd92189 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,10 +280,10 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
-          try!(write!(f, "{}, ", arr[i]));
-        }
         if arr.len() > 0 {
+          for i in 0..arr.len() - 1 {
+            try!(write!(f, "{}, ", arr[i]));
+          }
           try!(write!(f, "{}", arr[arr.len()-1]));
         }
         write!(f, "]")
@@ -298,10 +298,10 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
-          try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
-        }
         if it.len() > 0 {
+          for i in 0..it.len() - 1 {
+            try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
+          }
           try!(write!(f, "{} = {}", it[it.len()-1].0, it[it.len()-1].1));
         }
         write!(f, "}}")
-- 
2.43.0


From 4484cbb980681488725c3864769a9c8316478c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 03/17] fix: tables have no value to get or replace, don't
 panic or claim success on them

---
 src/internals/parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index a2189f2..5e3bbc6 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -101,10 +101,12 @@ impl<'a> Parser<'a> {
     if self.map.contains_key(&s_key) {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
-      if let Some(val) = clone.value {
-        Some(to_val!(&*val.borrow()))
-      } else {
-        None
+      match clone.value {
+        Some(val) => match *val.borrow() {
+          TOMLValue::Table => None,
+          ref tval         => Some(to_val!(tval)),
+        },
+        None => None,
       }
     } else {
       None
@@ -139,6 +141,10 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      // a table isn't a value, so it can't be replaced with one
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
-- 
2.43.0


From f80376881591756c3017ba60723fcec085e2d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 04/17] fix: accept every character and escape TOML allows in
 strings, keys and comments

---
 src/internals/primitives.rs | 18 +++++++++---------
 src/internals/util.rs       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..3dde62b 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,35 +430,35 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -\x{10FFFF}]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|\t|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From 8d26334c910c14945704668ef610aa6e6af7f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 05/17] fix: numbers are made of ASCII digits only and a Value
 must be nothing but its number

---
 src/internals/primitives.rs | 4 ++--
 src/types.rs                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 3dde62b..b677573 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -422,11 +422,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
diff --git a/src/types.rs b/src/types.rs
index dd92189..4cbcda0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From beb69b6f57bf83777baed141ca0fbae2873934e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 06/17] fix: date and time fields are made of digits only and a
 fraction may have any number of them

---
 src/types.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 4cbcda0..797e9c1 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -10,6 +10,10 @@ use std::borrow::Cow;
 use internals::parser::Parser;
 use nom::IResult;
 
+fn all_digits(s: &str) -> bool {
+  s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 /// Conveys the result of a parse operation on a TOML document
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum ParseResult<'a> {
@@ -1157,7 +1161,7 @@ impl<'a> TimeOffsetAmount<'a> {
   /// assert!(offset_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || !all_digits(&self.hour) || !all_digits(&self.minute) {
       return false;
     }
     return self.validate_numbers();
@@ -1241,7 +1245,8 @@ impl<'a> Date<'a> {
   /// assert!(date_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
+    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 || !all_digits(&self.year) ||
+      !all_digits(&self.month) || !all_digits(&self.day) {
       return false;
     }
     return self.validate_numbers();
@@ -1376,7 +1381,8 @@ impl<'a> Time<'a> {
   /// assert!(time_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 || !all_digits(&self.hour) ||
+      !all_digits(&self.minute) || !all_digits(&self.second) {
       return false;
     }
     return self.validate_numbers();
@@ -1405,7 +1411,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if frac.len() == 0 || !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From 30d623a6dbb8bf9d170eab5d0f336a2f5fc1b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 07/17] fix: count the lines inside arrays and inline tables,
 and don't count those of an expression that failed

---
 src/internals/objects.rs |  8 ++++++--
 src/internals/toml.rs    | 18 +++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..cab3f92 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -466,6 +466,7 @@ impl<'a> Parser<'a> {
    comment: call_m!(self.comment)     ~
   newlines: call_m!(self.ws_newline) ,
       ||{
+        self.line_count.set(self.line_count.get() + count_lines(prewsnl) + count_lines(newlines));
         CommentNewLines::new_str(prewsnl, comment, newlines)
       }
     )
@@ -474,7 +475,10 @@ impl<'a> Parser<'a> {
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
       complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl));
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
diff --git a/src/internals/toml.rs b/src/internals/toml.rs
index 09d8dc3..547ecf9 100644
--- a/src/internals/toml.rs
+++ b/src/internals/toml.rs
@@ -1,5 +1,6 @@
 use internals::ast::structs::{Toml, NLExpression, Expression, WSSep};
 use internals::parser::Parser;
+use nom::IResult;
 
 impl<'a> Parser<'a> {
   method!(pub toml<Parser<'a>, &'a str, Toml>, mut self,
@@ -27,13 +28,24 @@ impl<'a> Parser<'a> {
 
   method!(expression<Parser<'a>, &'a str,  Expression>, mut self,
     alt!(
-      complete!(call_m!(self.table_comment))  |
-      complete!(call_m!(self.keyval_comment)) |
-      complete!(call_m!(self.ws_comment))     |
+      complete!(call_m!(self.table_comment))      |
+      complete!(call_m!(self.try_keyval_comment)) |
+      complete!(call_m!(self.ws_comment))         |
       complete!(call_m!(self.ws_expr))
     )
   );
 
+  // If what looks like a key-value pair turns out not to be one, then nothing that was recorded while parsing it counts
+  fn try_keyval_comment(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Expression>) {
+    let line_count = self.line_count.get();
+    let (tmp, res) = self.keyval_comment(input);
+    self = tmp;
+    if !res.is_done() {
+      self.line_count.set(line_count);
+    }
+    (self, res)
+  }
+
   method!(ws_expr<Parser<'a>, &'a str, Expression>, mut self,
     chain!(
       ws: call_m!(self.ws),
-- 
2.43.0


From 0d208507e2a68dde9827a4825881e1b9fb05606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 08/17] fix: values of arrays and inline tables have to be
 separated by commas

---
 src/internals/ast/structs.rs |  1 +
 src/internals/objects.rs     | 38 +++++++++++++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index a84cf84..d122118 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -21,6 +21,7 @@ pub enum ErrorCode {
   MLBasicString = 1,
   LiteralString = 2,
   MLLiteralString = 3,
+  MissingComma = 4,
 }
 
 #[derive(Debug, Eq)]
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index cab3f92..f228db3 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,5 +1,6 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
-                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
+                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, ErrorCode,
+                              format_tt_keys};
 use internals::parser::Parser;
 use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
@@ -8,6 +9,7 @@ use std::collections::HashMap;
 use std::collections::hash_map::Entry;
 use std::rc::Rc;
 use std::cell::Cell;
+use nom;
 use nom::IResult;
 
 #[inline(always)]
@@ -549,7 +551,19 @@ impl<'a> Parser<'a> {
     self = tmp; // Restore self
     self.keychain.borrow_mut().pop();
     self.last_array_type.borrow_mut().pop();
-    (self, res)
+    // every value except for the last has to be followed by a comma
+    let separated = match res {
+      IResult::Done(_, ref arr) => {
+        let borrow = arr.borrow();
+        borrow.values.iter().rev().skip(1).all(|v| v.array_sep.is_some())
+      },
+      _ => true,
+    };
+    if separated {
+      (self, res)
+    } else {
+      (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))))
+    }
   }
 
   method!(pub array_internal<Parser<'a>, &'a str, Rc<RefCell<Array>> >, mut self,
@@ -580,7 +594,25 @@ impl<'a> Parser<'a> {
 
   method!(inline_table_keyvals_non_empty<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
 
-  method!(pub inline_table<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
+  pub fn inline_table(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<InlineTable>>>) {
+    let (tmp, res) = self.inline_table_internal(input);
+    self = tmp; // Restore self
+    // every key-value pair except for the last has to be followed by a comma
+    let separated = match res {
+      IResult::Done(_, ref it) => {
+        let borrow = it.borrow();
+        borrow.keyvals.iter().rev().skip(1).all(|kv| kv.kv_sep.is_some())
+      },
+      _ => true,
+    };
+    if separated {
+      (self, res)
+    } else {
+      (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))))
+    }
+  }
+
+  method!(inline_table_internal<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
     chain!(
            tag_s!("{")                                ~
       ws1: call_m!(self.ws)                                         ~
-- 
2.43.0


From ef69d2128f39952ce06cc10714214a907cb6400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 09/17] fix: index a value and report its errors only once,
 when all of it has parsed

---
 src/internals/objects.rs    |  80 +++++++++----------
 src/internals/primitives.rs | 153 ++++++++++++++----------------------
 src/internals/toml.rs       |   3 +
 3 files changed, 96 insertions(+), 140 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index f228db3..6de7eef 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -3,9 +3,9 @@ use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, Comme
                               format_tt_keys};
 use internals::parser::Parser;
 use internals::primitives::{Key, count_lines};
-use types::{ParseError, Children};
+use types::{ParseError, Children, Value};
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::collections::hash_map::Entry;
 use std::rc::Rc;
 use std::cell::Cell;
@@ -429,6 +429,7 @@ impl<'a> Parser<'a> {
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.array_error.set(true);
           } else {
             debug!("After call to get_array_table_key");
             let contains_key = map.borrow().contains_key(&parent_key);
@@ -493,37 +494,7 @@ impl<'a> Parser<'a> {
     array_sep: complete!(call_m!(self.array_sep))?      ~
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
-            let t = map_val_to_array_type(&*val.borrow());
-            let len = self.last_array_type.borrow().len();
-            if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
-               self.last_array_type.borrow()[len - 1] != t {
-              let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-                &self.last_array_tables_index, &self.keychain
-              );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
-                }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
-              }
-              if mixed {
-                self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.2, self.line_count.get(), 0
-                ));
-              }
-            }
-            self.last_array_type.borrow_mut().pop();
-            self.last_array_type.borrow_mut().push(t);
             let keychain_len = self.keychain.borrow().len();
-            self.insert_keyval_into_map(val.clone());
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
           }
@@ -543,14 +514,10 @@ impl<'a> Parser<'a> {
   );
 
   pub fn array(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<Array>>>) {
-    // Initialize last array type to None, we need a stack because arrays can be nested
-    // debug!("*** array called on input:\t\t\t{}", input);
-    self.last_array_type.borrow_mut().push(ArrayType::None);
     self.keychain.borrow_mut().push(Key::Index(Cell::new(0)));
     let (tmp, res) = self.array_internal(input);
     self = tmp; // Restore self
     self.keychain.borrow_mut().pop();
-    self.last_array_type.borrow_mut().pop();
     // every value except for the last has to be followed by a comma
     let separated = match res {
       IResult::Done(_, ref arr) => {
@@ -559,11 +526,23 @@ impl<'a> Parser<'a> {
       },
       _ => true,
     };
-    if separated {
-      (self, res)
-    } else {
-      (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))))
+    if !separated {
+      return (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))));
     }
+    let mixed = match res {
+      IResult::Done(_, ref arr) => {
+        let borrow = arr.borrow();
+        borrow.values.iter().skip(1).any(|v| {
+          map_val_to_array_type(&*v.val.borrow()) != map_val_to_array_type(&*borrow.values[0].val.borrow())
+        })
+      },
+      _ => false,
+    };
+    if mixed {
+      let key = self.get_current_key();
+      self.errors.borrow_mut().push(ParseError::MixedArray(key, self.line_count.get(), 0));
+    }
+    (self, res)
   }
 
   method!(pub array_internal<Parser<'a>, &'a str, Rc<RefCell<Array>> >, mut self,
@@ -605,11 +584,24 @@ impl<'a> Parser<'a> {
       },
       _ => true,
     };
-    if separated {
-      (self, res)
-    } else {
-      (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))))
+    if !separated {
+      return (self, IResult::Error(nom::Err::Code(nom::ErrorKind::Custom(ErrorCode::MissingComma as u32))));
+    }
+    if let IResult::Done(_, ref it) = res {
+      let borrow = it.borrow();
+      let mut keys = HashSet::new();
+      for kv in borrow.keyvals.iter() {
+        if !keys.insert(kv.keyval.key.clone()) {
+          self.keychain.borrow_mut().push(Key::Str(kv.keyval.key.clone()));
+          let key = self.get_current_key();
+          self.keychain.borrow_mut().pop();
+          self.errors.borrow_mut().push(ParseError::DuplicateKey(
+            key, self.line_count.get(), 0, to_val!(&*kv.keyval.val.borrow())
+          ));
+        }
+      }
     }
+    (self, res)
   }
 
   method!(inline_table_internal<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index b677573..d6e9213 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -286,9 +286,6 @@ impl<'a> Parser<'a> {
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
     debug!("Insert val: {}", *(*val).borrow());
     let map = RefCell::new(&mut self.map);
-    let mut insert = false;
-    let mut error = false;
-    let mut setvalue = false;
     let full_key: String;
     let mut parent_key: String;
     match &self.last_table {
@@ -304,17 +301,6 @@ impl<'a> Parser<'a> {
         if parent_key == "" {
           parent_key.push_str("$Root$");
         }
-        let map_borrow = map.borrow();
-        let hv_opt = map_borrow.get(&full_key);
-        if let Some(hv) = hv_opt {
-          if let Some(_) = hv.value {
-            error = true;
-          } else {
-            setvalue = true;
-          }
-        } else {
-          insert = true;
-        }
       },
       // If the last table was a StandardTable or ArrayTable:
       //  If the key exists
@@ -331,94 +317,69 @@ impl<'a> Parser<'a> {
             full_key = tuple.1;
             parent_key = tuple.2;
             self.last_array_tables.borrow_mut().pop();
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
           },
           TableType::Array(_) => {
             let tuple = Parser::get_full_key(&map, &self.last_array_tables,
               &self.last_array_tables_index, &self.keychain);
             full_key = tuple.1;
             parent_key = tuple.2;
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                debug!("{} hash value exists in table.", full_key);
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
           },
         }
       }
     }
 
-    if error {
+    // The first definition of a key counts, whether it's a value, a table or an array of tables
+    if map.borrow().contains_key(&full_key) {
       debug!("Error: {}", *(*val).borrow());
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
         full_key, self.line_count.get(), 0, to_val!(&*val.borrow())
       ));
-    } else if setvalue  || insert {
-      if setvalue {
-        debug!("Set existing hash value. full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        let mut borrow = map.borrow_mut();
-        let entry = borrow.entry(full_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            o.get_mut().value = Some(val.clone());
-          },
-          _ => panic!("Unreachable! Set existing hash value has no exisiting hash value."),
+      return;
+    }
+    if let Some(hash_value) = map.borrow().get(&parent_key) {
+      if let Children::Keys(ref vec_rf) = hash_value.subkeys {
+        if let Some(&Key::Str(ref s)) = self.keychain.borrow().last() {
+          Parser::insert(vec_rf, s.clone().into_owned());
         }
-      } else if insert {
-        debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        match *val.borrow() {
-          TOMLValue::InlineTable(_) => map.borrow_mut().insert(full_key.clone(), HashValue::new_keys(val.clone())),
-          _                     => map.borrow_mut().insert(full_key.clone(), HashValue::new_count(val.clone())),
-        };
       }
+    }
+    Parser::insert_value_into_map(*map.borrow_mut(), full_key, val);
+  }
 
-      // in either case update the parent and possibly grandparent
-      let mut borrow = map.borrow_mut();
-      {
-        let entry = borrow.entry(parent_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            match &o.get_mut().subkeys {
-              &Children::Count(ref c) => { debug!("parent inc to {}", c.get() + 1); c.set(c.get() + 1) },
-              &Children::Keys(ref vec_rf) => {
-                if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-                  Parser::insert(vec_rf,s.clone().into_owned());
-                }
-              },
-            }
-          },
-          Entry::Vacant(v) => {
-            debug!("vacant parent");
-            if let Key::Index(_) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to 1");
-              v.insert(HashValue::one_count());
-            } else if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to string: {}", s);
-              v.insert(HashValue::one_keys(s.clone().into_owned()));
+  // Inserts a value and all of the values that it contains. If a key is duplicated in an inline table the first one counts.
+  pub fn insert_value_into_map(map: &mut HashMap<String, HashValue<'a>>, key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
+    let hash_value = match *val.borrow() {
+      TOMLValue::Array(ref arr) => {
+        let values = &arr.borrow().values;
+        for i in 0..values.len() {
+          Parser::insert_value_into_map(map, format!("{}[{}]", key, i), values[i].val.clone());
+        }
+        let hash_value = HashValue::new_count(val.clone());
+        if let Children::Count(ref count) = hash_value.subkeys {
+          count.set(values.len());
+        }
+        hash_value
+      },
+      TOMLValue::InlineTable(ref it) => {
+        let hash_value = HashValue::new_keys(val.clone());
+        if let Children::Keys(ref vec_rf) = hash_value.subkeys {
+          for kv in it.borrow().keyvals.iter() {
+            if Parser::insert(vec_rf, kv.keyval.key.clone().into_owned()) {
+              Parser::insert_value_into_map(map, format!("{}.{}", key, kv.keyval.key), kv.keyval.val.clone());
             }
-          },
+          }
         }
-      }
-    }
+        hash_value
+      },
+      _ => HashValue::new_count(val.clone()),
+    };
+    map.insert(key, hash_value);
+  }
+
+  // The full key of whatever is being parsed
+  pub fn get_current_key(&mut self) -> String {
+    Parser::get_full_key(&RefCell::new(&mut self.map), &self.last_array_tables, &self.last_array_tables_index,
+      &self.keychain).1
   }
 
   // Integer
@@ -588,10 +549,9 @@ impl<'a> Parser<'a> {
       IResult::Done(i, o) => {
         if !o.validate() {
           let parsed_len = before_len - i.len();
+          let key = self.get_current_key();
           self.errors.borrow_mut().push(ParseError::InvalidDateTime(
-            Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain
-            ).1, self.line_count.get(), 0, input[0..parsed_len].into()
+            key, self.line_count.get(), 0, input[0..parsed_len].into()
           ));
         }
         (self, IResult::Done(i, o))
@@ -654,17 +614,18 @@ impl<'a> Parser<'a> {
       val: call_m!(self.val)        ,
       || {
         let res = KeyVal::new_str(key, ws, val);
-        if self.array_error.get() {
-          debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
-          }
-          self.errors.borrow_mut().push(err);
-        } else {
-          match *res.val.borrow() {
-            _ => self.insert_keyval_into_map(res.val.clone()),
+        // The key-value pairs of an inline table are inserted along with the inline table
+        if self.keychain.borrow().len() == 1 {
+          if self.array_error.get() {
+            // This belongs to the table that was last found to be invalid
+            for err in self.errors.borrow().iter().rev() {
+              if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+                map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+                break;
+              }
+            }
+          } else {
+            self.insert_keyval_into_map(res.val.clone());
           }
         }
         self.keychain.borrow_mut().pop();
diff --git a/src/internals/toml.rs b/src/internals/toml.rs
index 547ecf9..768ded1 100644
--- a/src/internals/toml.rs
+++ b/src/internals/toml.rs
@@ -38,10 +38,13 @@ impl<'a> Parser<'a> {
   // If what looks like a key-value pair turns out not to be one, then nothing that was recorded while parsing it counts
   fn try_keyval_comment(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Expression>) {
     let line_count = self.line_count.get();
+    let errors_len = self.errors.borrow().len();
     let (tmp, res) = self.keyval_comment(input);
     self = tmp;
     if !res.is_done() {
       self.line_count.set(line_count);
+      self.errors.borrow_mut().truncate(errors_len);
+      self.keychain.borrow_mut().clear();
     }
     (self, res)
   }
-- 
2.43.0


From 8cf540089044ae64168a596ad64e0061803eeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 10/17] fix: place tables by looking their keys up in the
 document instead of comparing key strings

---
 src/internals/ast/structs.rs |  76 +-----
 src/internals/objects.rs     | 431 +++++++++--------------------------
 src/internals/parser.rs      |  12 +-
 src/internals/primitives.rs  | 303 ++----------------------
 4 files changed, 130 insertions(+), 692 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index d122118..47b95ea 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -144,7 +144,6 @@ pub enum ArrayType {
   Array,
   String,
   InlineTable,
-  None,
 }
 
 #[derive(Debug, Eq, Clone)]
@@ -174,6 +173,13 @@ impl<'a> Display for HashValue<'a> {
 
 #[allow(dead_code)]
 impl<'a> HashValue<'a> {
+  // A table isn't a value
+  pub fn has_value(&self) -> bool {
+    match self.value {
+      Some(ref value) => *value.borrow() != TOMLValue::Table,
+      None => false,
+    }
+  }
   pub fn new_keys(value: Rc<RefCell<TOMLValue<'a>>>) -> HashValue<'a> {
     HashValue {
       value: Some(value),
@@ -400,55 +406,6 @@ impl<'a> WSKeySep<'a> {
     }
 }
 
-pub fn get_last_keys(last_table: Option<&Table>, t: &Table) -> Vec<String> {
-  match last_table {
-    None => {
-      let mut last_keys = vec!["$Root$".to_string()];
-      for i in 0..t.keys.len() {
-        last_keys.push(t.keys[i].key.clone().into_owned());
-      }
-      last_keys
-    },
-    Some(lt) => {
-      let len_last = lt.keys.len();
-      let len = t.keys.len();
-      let mut last_keys = vec![];
-      for i in len_last..len {
-        last_keys.push(t.keys[i].key.clone().into_owned());
-      }
-      last_keys
-    }
-  }
-}
-
-pub fn format_keys(t: &Table) -> String {
-  let mut s = String::new();
-  if t.keys.len() > 0 {
-    for i in 0..t.keys.len() - 1 {
-      s.push_str(&t.keys[i].key);
-      s.push('.');
-    }
-    s.push_str(&t.keys[t.keys.len() - 1].key);
-  }
-  s
-}
-
-pub fn format_tt_keys(tabletype: &TableType) -> String {
-  match tabletype {
-    &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-      let mut s = String::new();
-      if t.keys.len() > 0 {
-        for i in 0..t.keys.len() - 1 {
-          s.push_str(&t.keys[i].key);
-          s.push('.');
-        }
-        s.push_str(&t.keys[t.keys.len() - 1].key);
-      }
-      s
-    }
-  }
-}
-
 // Standard: [<ws.ws1><key><subkeys*><ws.ws2>]
 // Array: [[<ws.ws1><key><subkeys*><ws.ws2>]]
 #[derive(Debug, Eq)]
@@ -489,25 +446,6 @@ impl<'a> Table<'a> {
   }
 }
 
-impl<'a> TableType<'a> {
-  pub fn is_subtable_of(&self, prev: &TableType<'a>) -> bool {
-    match self { 
-      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-        match prev {
-          &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
-            let prev_key = format_keys(&prev_table);
-            let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
-          }
-        }
-      }
-    }
-    false
-  }
-}
-
 // <comment><newlines+>
 #[derive(Debug, Eq)]
 pub struct CommentNewLines<'a> {
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 6de7eef..030d32b 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,12 +1,10 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
-                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, ErrorCode,
-                              format_tt_keys};
+                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, ErrorCode};
 use internals::parser::Parser;
 use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children, Value};
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
-use std::collections::hash_map::Entry;
 use std::rc::Rc;
 use std::cell::Cell;
 use nom;
@@ -38,161 +36,123 @@ impl<'a> Parser<'a> {
     return true;
   }
 
-  fn contains(vector: &RefCell<Vec<String>>, find: &str) -> bool {
-    for s in vector.borrow().iter() {
-      if s == find {
-        return true;
+  // Finds the full key of a table, which has an index for every array of tables that it's a part of, and whether or
+  // not the table can be defined there
+  fn find_table(&self, keys: &Vec<WSKeySep<'a>>, is_array: bool) -> (bool, String) {
+    let mut valid = true;
+    let mut full_key = String::new();
+    for i in 0..keys.len() {
+      let last = i == keys.len() - 1;
+      if last && !is_array && self.is_table_with_values(&full_key) {
+        debug!("Table {} already has values, it can't get any more tables", full_key);
+        valid = false;
+      }
+      if i > 0 {
+        full_key.push('.');
+      }
+      full_key.push_str(&keys[i].key);
+      let mut index = None;
+      match self.map.get(&full_key) {
+        Some(ref hash_val) if hash_val.has_value() => {
+          debug!("Table key {} has a value.", full_key);
+          valid = false;
+        },
+        Some(ref hash_val) => {
+          match hash_val.subkeys {
+            Children::Count(ref c) => {
+              valid = valid && (!last || is_array);
+              index = Some(if last { c.get() } else { c.get() - 1 });
+            },
+            Children::Keys(_) => {
+              valid = valid && (!last || !is_array && hash_val.value.is_none());
+            },
+          }
+        },
+        None => {
+          if last && is_array {
+            index = Some(0);
+          }
+        },
+      }
+      if let Some(index) = index {
+        full_key.push_str(&format!("[{}]", index));
       }
     }
-    return false;
+    debug!("valid: {}, full_key: {}", valid, full_key);
+    (valid, full_key)
   }
 
-  fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
+  // Whether or not the key is the key of a standard table that has key-value pairs
+  fn is_table_with_values(&self, key: &str) -> bool {
+    // An element of an array of tables isn't a standard table
+    if key == "" || key.ends_with(']') {
       return false;
-    } else {
-      let len = tables.borrow().len();
-      if let TableType::Standard(_) = *tables.borrow()[len - 1] {
-        return true;
-      } else {
-        return false;
+    }
+    if let Some(hash_val) = self.map.get(key) {
+      if let Children::Keys(ref children) = hash_val.subkeys {
+        return children.borrow().iter().any(|child| {
+          self.map.get(&format!("{}.{}", key, child)).map_or(false, |hash_val| hash_val.has_value())
+        });
       }
     }
+    false
   }
 
-  fn equal_key_length(table: Rc<TableType<'a>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      match *table {
-        TableType::Array(ref t1) | TableType::Standard(ref t1) => {
-          let len = tables.borrow().len();
-          match *tables.borrow()[len - 1] {
-            TableType::Array(ref t2) | TableType::Standard(ref t2) => {
-              return t1.keys.len() == t2.keys.len();
-            }
+  // Adds a table to the map along with all of the tables that it implies
+  fn add_table(&mut self, keys: &Vec<WSKeySep<'a>>, is_array: bool) {
+    let mut full_key = String::new();
+    for i in 0..keys.len() {
+      let last = i == keys.len() - 1;
+      {
+        let parent_key = if i == 0 { "$Root$" } else { &full_key };
+        if let Some(hash_val) = self.map.get(parent_key) {
+          if let Children::Keys(ref vec_rf) = hash_val.subkeys {
+            Parser::insert(vec_rf, keys[i].key.clone().into_owned());
           }
         }
       }
-    }
-  }
-
-  fn add_implicit_tables(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>, table: Rc<TableType<'a>>) {
-    let (valid, mut last_key, _) = Parser::get_array_table_key(map, tables, tables_index);
-    if !valid {
-      return;
-    }
-    let mut len = tables.borrow().len();
-    let mut pop = false;
-    if len == 0 {
-      tables.borrow_mut().push(Rc::new(TableType::Standard(
-        Table::new_str(WSSep::new_str("", ""), "$Root$", vec![])
-      )));
-      pop = true;
-      len = 1;
-      last_key.push_str("$Root$");
-    }
-    match *tables.borrow()[len - 1] {
-      TableType::Array(ref last_at) | TableType::Standard(ref last_at) => {
-        match *table {
-          TableType::Array(ref tb) | TableType::Standard(ref tb) => {
-            let mut first = true;
-            debug!("last_at.keys.len(): {}, tb.keys.len(): {}", last_at.keys.len(), tb.keys.len());
-            for i in 0..last_at.keys.len() {
-              debug!("key {}: {}", i, last_at.keys[i].key);
-            }
-            let mut start = last_at.keys.len();
-            if last_key == "$Root$" {
-              start -= 1;
-            }
-            for i in start..tb.keys.len() {
-              let mut borrow = map.borrow_mut();
-              let mut insert = false;
-              debug!("index: {}, last_key: {}", i, last_key);
-              if let Entry::Occupied(mut o) = borrow.entry(last_key.clone()) {
-                if first {
-
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => {debug!("Inserting subkey: {}", tb.keys[i].key); Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned())},
-                    &Children::Count(ref cell) => { debug!("Incrementing subkey count: {}", cell.get() + 1); cell.set(cell.get() + 1); true },
-                  };
-                  first = false;
-                } else {
-                  debug!("Inserting subkey: {}", tb.keys[i].key);
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
-                    _ => panic!("Implicit tables can only be Standard Tables: \"{}\"", format!("{}.{}", last_key, tb.keys[i].key)),
-                  };
-                }
-              }
-              if i < tb.keys.len() - 1 {
-                if last_key != "$Root$" {
-                  last_key.push_str(".");
-                } else {
-                  last_key.truncate(0);
-                }
-                last_key.push_str(&tb.keys[i].key);
-                if insert {
-                  debug!("insert last_key {}", last_key);
-                  if i == tb.keys.len() - 1 {
-                    if let TableType::Array(_) = *table {
-                      borrow.insert(last_key.clone(), HashValue::one_count());
-                    } else {
-                      borrow.insert(last_key.clone(), HashValue::none_keys());
-                    }
-                  } else {
-                    borrow.insert(last_key.clone(), HashValue::none_keys());
-                  }
-                }
-              }
-            }
-          },
+      if i > 0 {
+        full_key.push('.');
+      }
+      full_key.push_str(&keys[i].key);
+      let mut index = None;
+      {
+        let hash_val = self.map.entry(full_key.clone()).or_insert_with(|| {
+          if last && is_array { HashValue::none_count() } else { HashValue::none_keys() }
+        });
+        if let Children::Count(ref c) = hash_val.subkeys {
+          if last {
+            c.set(c.get() + 1);
+          }
+          index = Some(c.get() - 1);
+        } else if last {
+          hash_val.value = Some(Rc::new(RefCell::new(TOMLValue::Table)));
         }
       }
-    }
-    if pop {
-      tables.borrow_mut().pop();
-    }
-    debug!("Returning from add_implicit_tables");
-  }
-
-  fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
+      if let Some(index) = index {
+        full_key.push_str(&format!("[{}]", index));
+        if last {
+          debug!("Insert array of table key: {}", full_key);
+          self.map.insert(full_key.clone(), HashValue::none_keys());
+        }
       }
     }
-    let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
   }
 
-  fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("add_to_table_set: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Keys(ref keys) = &o.get_mut().subkeys {
-        let contains = Parser::contains(keys, key);
-        if contains {
-          debug!("key already exists");
-          return false;
-        } else {
-          debug!("add_to_table_set--> {}", key);
-          Parser::insert(keys, key.to_string());
-        }
-      }
+  // The key-value pairs that follow belong to this table
+  fn start_table(&mut self, keys: &Vec<WSKeySep<'a>>, is_array: bool) {
+    let (valid, full_key) = self.find_table(keys, is_array);
+    if valid {
+      self.add_table(keys, is_array);
+    } else {
+      debug!("Setting Invalid Table {}", full_key);
+      self.errors.borrow_mut().push(ParseError::InvalidTable(
+        full_key.clone(), self.line_count.get(), 0,
+        RefCell::new(HashMap::new())
+      ));
     }
-    return true;
+    self.array_error.set(!valid);
+    self.table_key = full_key;
   }
 
   // Table
@@ -230,111 +190,10 @@ impl<'a> Parser<'a> {
         let res = Rc::new(TableType::Standard(Table::new_str(
           WSSep::new_str(ws1, ws2), key, subkeys
         )));
-        let mut error = false;
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) || Parser::equal_key_length(res.clone(), &self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
-        let map = RefCell::new(&mut self.map);
-        let mut table_key = "".to_string();
-        let mut parent_key = "$Root$".to_string();
-        debug!("Before get len");
-        let mut len = self.last_array_tables.borrow().len();
-        let current_key = format_tt_keys(&*res);
-        if len > 0 {
-          let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-          if current_key == last_key {
-            error = true;
-          } else {
-            debug!("Check if subtable");
-            let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-            if !subtable {
-              loop {
-                debug!("Not subtable pop {}", self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]);
-                self.last_array_tables.borrow_mut().pop();
-                self.last_array_tables_index.borrow_mut().pop();
-                len -= 1;
-                debug!("check array_tables len and subtable");
-                if len == 0 || res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]) {
-                  break;
-                }
-              }
-            }
-          }
-        }
-        if len > 0 && current_key == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
-          error = true;
-        } else {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let tuple = Parser::get_array_table_key(&map, &self.last_array_tables, &self.last_array_tables_index);
-          table_key = tuple.1;
-          parent_key = tuple.2;
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
-            error = true;
-          } else {
-            debug!("Standard Table Key: {}", table_key);
-            if map.borrow().contains_key(&table_key) {
-              let map_borrow = map.borrow();
-              let hash_val_opt = map_borrow.get(&table_key);
-              if let Some(ref hash_val) = hash_val_opt {
-                if let Some(ref rc_rc_val) = hash_val.value {
-                  if let TOMLValue::Table = *rc_rc_val.borrow() {
-                    debug!("Table error {}, table already defined", table_key);
-                    error = true;
-                  }
-                }
-              }
-            }
-          }
-        }
-        debug!("Before error check");
-        if error {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let array_table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index).1;
-          debug!("Setting Invalid Table {} in Standard Table", array_table_key);
-          self.errors.borrow_mut().push(ParseError::InvalidTable(
-            array_table_key, self.line_count.get(), 0,
-            RefCell::new(HashMap::new())
-          ));
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          self.array_error.set(true);
-        } else {
-          Parser::add_implicit_tables(&map, &self.last_array_tables,
-            &self.last_array_tables_index, res.clone());
-          if let TableType::Standard(ref tbl) = *res {
-            Parser::add_to_table_set(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &tbl.keys[keys_len - 1].key);
-            self.array_error.set(false);
-            debug!("insert table_key: {}", table_key);
-            let contains_key = map.borrow().contains_key(&table_key);
-            if contains_key {
-              debug!("contains table key {}", table_key);
-              if let Entry::Occupied(mut o) = map.borrow_mut().entry(table_key.clone()) {
-                o.get_mut().value = Some(Rc::new(RefCell::new(TOMLValue::Table)));
-                debug!("table key {}'s children: {:?}", table_key, o.get().subkeys)
-              }
-            } else {
-              debug!("insert new table key {}", table_key);
-              map.borrow_mut().insert(table_key.clone(), HashValue::table_keys());
-            }
-            if let Entry::Occupied(mut o) = map.borrow_mut().entry(parent_key) {
-              match &o.get_mut().subkeys {
-                &Children::Keys(ref vec_rf) => {Parser::insert(vec_rf, tbl.keys[keys_len - 1].key.clone().into_owned());},
-                _ => panic!("Trying to add a key to an array: \"{}\"", table_key),
-              }
-            }
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-            self.last_table = Some(res.clone());
-          }
+        if let TableType::Standard(ref tbl) = *res {
+          self.start_table(&tbl.keys, false);
         }
         res
       }
@@ -357,92 +216,8 @@ impl<'a> Parser<'a> {
         )));
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
-        {
-          let map = RefCell::new(&mut self.map);
-          self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
-          let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
-            }
-          } else {
-            debug!("Len == 0 add implicit tables");
-            Parser::add_implicit_tables(&map, &self.last_array_tables,
-              &self.last_array_tables_index, res.clone());
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-          }
-          debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index);
-          if !valid {
-            debug!("Setting Invalid Table {}", full_key);
-            self.errors.borrow_mut().push(ParseError::InvalidTable(
-              full_key, self.line_count.get(), 0,
-              RefCell::new(HashMap::new())
-            ));
-            self.array_error.set(true);
-          } else {
-            debug!("After call to get_array_table_key");
-            let contains_key = map.borrow().contains_key(&parent_key);
-            if !contains_key {
-              debug!("Insert new array of table key: {}", full_key);
-              map.borrow_mut().insert(parent_key, HashValue::one_count());
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            } else {
-              debug!("Increment existing array of table key: {}", full_key);
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            }
-            self.last_table = Some(res.clone());
-          }
+        if let TableType::Array(ref tbl) = *res {
+          self.start_table(&tbl.keys, true);
         }
         res
       }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 5e3bbc6..b83244b 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -5,7 +5,7 @@ use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
-use internals::ast::structs::{HashValue, ArrayType, TOMLValue, Toml, TableType, Array, InlineTable, ArrayValue, WSSep,
+use internals::ast::structs::{HashValue, TOMLValue, Toml, Array, InlineTable, ArrayValue, WSSep,
                               TableKeyVal};
 use types::{ParseError, ParseResult, Value, Children};
 use internals::primitives::Key;
@@ -17,11 +17,8 @@ pub struct Parser<'a> {
   pub errors: Rc<RefCell<Vec<ParseError<'a>>>>,
   pub leftover: &'a str,
   pub line_count: Cell<usize>,
-  pub last_array_tables: RefCell<Vec<Rc<TableType<'a>>>>,
-  pub last_array_tables_index: RefCell<Vec<usize>>,
+  pub table_key: String,
   pub keychain: RefCell<Vec<Key<'a>>>,
-  pub last_table: Option<Rc<TableType<'a>>>,
-  pub last_array_type: RefCell<Vec<ArrayType>>,
   pub array_error: Cell<bool>,
   pub mixed_array: Cell<bool>,
   pub failure: Cell<bool>,
@@ -34,10 +31,7 @@ impl<'a> Parser<'a> {
     map.insert("$Root$".to_string(), HashValue::none_keys());
     Parser{ root: RefCell::new(Toml{ exprs: vec![] }), map: map,
             errors: Rc::new(RefCell::new(vec![])), leftover: "",
-            line_count: Cell::new(1), last_array_tables: RefCell::new(vec![]),
-            last_array_tables_index: RefCell::new(vec![]),
-            last_table: None, last_array_type: RefCell::new(vec![]),
-            keychain: RefCell::new(vec![]),
+            line_count: Cell::new(1), table_key: String::new(), keychain: RefCell::new(vec![]),
             array_error: Cell::new(false), mixed_array: Cell::new(false),
             failure: Cell::new(false)}
   }
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index d6e9213..38d6a95 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -1,9 +1,8 @@
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::collections::HashMap;
-use std::collections::hash_map::Entry;
 use std::borrow::Cow;
-use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue, TableType, Table, get_last_keys};
+use internals::ast::structs::{KeyVal, WSSep, TOMLValue, ErrorCode, HashValue};
 use types::{Date, Time, DateTime, TimeOffset, TimeOffsetAmount, ParseError, StrType, Children, Value};
 use internals::parser::Parser;
 use nom;
@@ -43,208 +42,11 @@ pub fn count_lines(s: &str) -> usize {
 }
 
 impl<'a> Parser<'a> {
-  pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> String {
-    let mut key_parent: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    for i in 0..tables_len {
-      if let &TableType::Array(ref t) = &*tables.borrow()[i] {
-        if key_parent.len() > 0 {
-          key_parent.push('.');
-        }
-        let keys = get_last_keys(last_table, t);
-        debug!("get_key_parent last_keys: {:?}", keys);
-        for j in prev_end..keys.len() {
-          if keys[j] != "$Root$" {
-            key_parent.push_str(&keys[j]);
-            if j < keys.len() - 1 {
-              key_parent.push('.');
-            }
-          }
-          debug!("get_key_parent key_parent: {}", key_parent);
-        }
-        prev_end = keys.len();
-        let index = tables_index.borrow()[i];
-        if i < tables_len - 1 {
-          key_parent.push_str(&format!("[{}]", index));
-        }
-      }
-    }
-    debug!("get_key_parent final key_parent: {}", key_parent);
-    key_parent
-  }
-
-
-  pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> (bool, String, String) {
-    let mut full_key: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    let mut valid = true;
-    let mut parent_key = "$Root$".to_string();
-    for i in 0..tables_len {
-      match  &*tables.borrow()[i] {
-        &TableType::Array(ref t) => {
-          debug!("Array Table: {}", t);
-          let keys = get_last_keys(last_table, t);
-          let len = keys.len();
-          for j in prev_end..len - 1 {
-            debug!("keys[{}] = {}", j, keys[j]);
-            full_key.push_str(&keys[j]);
-            let map_borrow = map.borrow();
-            let hash_value_opt = map_borrow.get(&full_key);
-            match hash_value_opt {
-              Some(hash_value) =>  {
-                match hash_value.subkeys {
-                  Children::Count(ref c) => {
-                    if full_key == "$Root$" {
-                      full_key.truncate(0);
-                    } else {
-                      full_key.push_str(&format!("[{}].", c.get()))
-                    }
-                  },
-                  Children::Keys(ref hs_rf) => {
-                    if hs_rf.borrow().contains(&keys[j+1]) || j+1 == len - 1 {
-                      if full_key == "$Root$" {
-                        full_key.truncate(0);
-                      } else {
-                        full_key.push('.');
-                      }
-                    } else {
-                      panic!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
-                    }
-                  },
-                }
-              }
-              None => panic!("Key does not exist in map: \"{}\"", &full_key),
-            }
-          }
-          prev_end = len;
-          full_key.push_str(&keys[len-1]);
-          let map_borrow = map.borrow();
-          debug!("Check if key \"{}\" has a value.", full_key);
-          let hash_value_opt = map_borrow.get(&full_key);
-          if let Some(hash_value) = hash_value_opt {
-            if let Some(ref value) = hash_value.value {
-              match *value.borrow() {
-                TOMLValue::Table => {
-                  if let Children::Keys(_) = hash_value.subkeys {
-                    debug!("Array Key \"{}\" conflicts with table key.", full_key);
-                    valid = false;
-                  }
-                },
-                _ => {
-                  debug!("/== Key \"{}\" has a value.", full_key);
-                  valid = false;
-                },
-              }
-            }
-            if let Some(_) = hash_value.value {
-              debug!("Key \"{}\" has a value.", full_key);
-              valid = false;
-            } else if let Children::Keys(_) = hash_value.subkeys {
-              debug!("Array Key \"{}\" conflicts with table key.", full_key);
-              valid = false;
-            }
-          }
-          let map_borrow = map.borrow();
-          let hash_value_opt = map_borrow.get(&full_key);
-          let index;
-          match hash_value_opt {
-            Some(hash_value) =>  {
-              index = match hash_value.subkeys {
-                Children::Count(ref c) => c.get() - 1,
-                _ => tables_index.borrow()[i],
-              };
-            },
-            _ => { index = tables_index.borrow()[i]; },
-          }
-          if i < tables_len - 1 {
-            full_key.push_str(&format!("[{}].", index));
-          } else {
-            parent_key = full_key.clone();
-            full_key.push_str(&format!("[{}]", index));
-          }
-        },
-        &TableType::Standard(ref t) => {
-          // Standard tables can't be nested so this has to be the last table in the vector
-          let keys = get_last_keys(last_table, t);
-          debug!("get_last_keys {:?}, prev_end: {}", keys, prev_end);
-          for j in prev_end..keys.len() - 1 {
-            if keys[j] == "$Root$" {
-              continue;
-            }
-            full_key.push_str(&keys[j]);
-            valid = valid && !Parser::key_has_value(&full_key, map);
-            if j == keys.len() - 2 {
-              parent_key = full_key.clone();
-            }
-            full_key.push('.');
-          }
-          full_key.push_str(&keys[keys.len() - 1]);
-          valid = valid && !Parser::key_has_value(&full_key, map);
-        }
-      }
-    }
-    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    (valid, full_key, parent_key)
-  }
-
-  fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
-    let map_borrow = map.borrow();
-    debug!("Check if key \"{}\" has a value.", key);
-    let hash_value_opt = map_borrow.get(key);
-    if let Some(hash_value) = hash_value_opt {
-      if let Some(ref value) = hash_value.value {
-        match *value.borrow() {
-          TOMLValue::Table => return false,
-          _ => {
-            debug!("/== Key \"{}\" has a value.", key);
-            return true;
-          },
-        }
-      }
-    }
-    return false;
-  }
-
-  pub fn key_has_children_with_values(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
-    if key == "$Root$" {
-      return false;
-    }
-    let map_borrow = map.borrow();
-    debug!("Check if key \"{}\" has any children.", key);
-    let hash_value_opt = map_borrow.get(key);
-    if let Some(hash_value) = hash_value_opt {
-      match hash_value.subkeys {
-        Children::Count(ref c) => {
-          if c.get() > 0 {
-            panic!("Standard table cannot have indexed sub-keys. Key: {}, sub-key count: {}", key, c.get());
-          }
-        },
-        Children::Keys(ref children) => {
-          for i in 0..children.borrow().len() {
-            let child_key = format!("{}.{}", key, children.borrow()[i]);
-            if Parser::key_has_value(&child_key, map) {
-              debug!("/== Key \"{}\" has sub-key {} with a value.", key, child_key);
-              return true;
-            }
-          }
-        },
-      }
-    }
-    return false;
-  }
-
-  fn get_keychain_key(keychain: &RefCell<Vec<Key<'a>>>) -> (String, String) {
-    let len = keychain.borrow().len();
-    let mut key = String::new();
-    let mut parent_key = String::new();
-    for i in 0..len {
-      match &keychain.borrow()[i] {
+  // The full key of whatever is being parsed
+  pub fn get_current_key(&self) -> String {
+    let mut key = self.table_key.clone();
+    for k in self.keychain.borrow().iter() {
+      match k {
         &Key::Str(ref str_str) => {
           if key.len() > 0 {
             key.push('.');
@@ -253,97 +55,32 @@ impl<'a> Parser<'a> {
         },
         &Key::Index(ref i) => key.push_str(&format!("[{}]", i.get())),
       }
-      if len > 1 && i == len - 2 {
-        parent_key = key.clone();
-      }
-    }
-    return (key, parent_key);
-  }
-
-  pub fn get_full_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,
-    keychain: &RefCell<Vec<Key<'a>>>) -> (bool, String, String) {
-
-    let (valid, array_key, _) = Parser::get_array_table_key(map, tables, tables_index);
-    let (chain_key, parent_chain_key) = Parser::get_keychain_key(keychain);
-    debug!("array_key: {}, chain_key: {}, parent_chain_key: {}", array_key, chain_key, parent_chain_key);
-    let mut full_key = String::new();
-    let mut parent_key = String::new();
-    if array_key.len() > 0 {
-      full_key.push_str(&array_key);
-      full_key.push_str(".");
-      parent_key.push_str(&array_key);
-      if parent_chain_key.len() > 0 {
-        parent_key.push_str(".");
-      }
     }
-    full_key.push_str(&chain_key);
-    parent_key.push_str(&parent_chain_key);
-    debug!("valid: {}, full_key: {}, parent_key: {}", valid, full_key, parent_key);
-    return (valid, full_key, parent_key);
+    key
   }
 
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
     debug!("Insert val: {}", *(*val).borrow());
-    let map = RefCell::new(&mut self.map);
-    let full_key: String;
-    let mut parent_key: String;
-    match &self.last_table {
-      // If the last table is None
-      //  If the key exists
-      //    If the value is empty insert the value
-      //    If the value in non-empty add the key/val to the error list
-      //  If the key doesn't exist, insert it
-      &None => {
-        let tuple = Parser::get_keychain_key(&self.keychain);
-        full_key = tuple.0;
-        parent_key = tuple.1;
-        if parent_key == "" {
-          parent_key.push_str("$Root$");
-        }
-      },
-      // If the last table was a StandardTable or ArrayTable:
-      //  If the key exists
-      //    If the value is empty, insert the value
-      //    If the value is non-empty add the key/val pair to the error list
-      //    If the key is for an ArrayOfTables add the key/val to the error list
-      //  If the key doesn't exist add the key/value pair to the hash table
-      &Some(ref ttype) => {
-        match **ttype {
-          TableType::Standard(_) => {
-            self.last_array_tables.borrow_mut().push(ttype.clone());
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-            self.last_array_tables.borrow_mut().pop();
-          },
-          TableType::Array(_) => {
-            let tuple = Parser::get_full_key(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &self.keychain);
-            full_key = tuple.1;
-            parent_key = tuple.2;
-          },
-        }
-      }
-    }
-
+    let full_key = self.get_current_key();
     // The first definition of a key counts, whether it's a value, a table or an array of tables
-    if map.borrow().contains_key(&full_key) {
+    if self.map.contains_key(&full_key) {
       debug!("Error: {}", *(*val).borrow());
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
         full_key, self.line_count.get(), 0, to_val!(&*val.borrow())
       ));
       return;
     }
-    if let Some(hash_value) = map.borrow().get(&parent_key) {
-      if let Children::Keys(ref vec_rf) = hash_value.subkeys {
-        if let Some(&Key::Str(ref s)) = self.keychain.borrow().last() {
-          Parser::insert(vec_rf, s.clone().into_owned());
+    {
+      let parent_key = if self.table_key == "" { "$Root$" } else { &self.table_key };
+      if let Some(hash_value) = self.map.get(parent_key) {
+        if let Children::Keys(ref vec_rf) = hash_value.subkeys {
+          if let Some(&Key::Str(ref s)) = self.keychain.borrow().last() {
+            Parser::insert(vec_rf, s.clone().into_owned());
+          }
         }
       }
     }
-    Parser::insert_value_into_map(*map.borrow_mut(), full_key, val);
+    Parser::insert_value_into_map(&mut self.map, full_key, val);
   }
 
   // Inserts a value and all of the values that it contains. If a key is duplicated in an inline table the first one counts.
@@ -376,12 +113,6 @@ impl<'a> Parser<'a> {
     map.insert(key, hash_value);
   }
 
-  // The full key of whatever is being parsed
-  pub fn get_current_key(&mut self) -> String {
-    Parser::get_full_key(&RefCell::new(&mut self.map), &self.last_array_tables, &self.last_array_tables_index,
-      &self.keychain).1
-  }
-
   // Integer
   method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
-- 
2.43.0


From 65994a5c0f6f7c3457b5999db7b5e4fac7e7569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 11/17] fix: a Value is valid only if all that it contains can
 be written in a document

---
 src/internals/primitives.rs |  2 +-
 src/types.rs                | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 38d6a95..bbe29a6 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -199,7 +199,7 @@ impl<'a> Parser<'a> {
     (self, r)
   }
 
-  method!(string<Parser<'a>, &'a str, TOMLValue>, mut self,
+  method!(pub string<Parser<'a>, &'a str, TOMLValue>, mut self,
     alt!(
       complete!(call_m!(self.ml_literal_string))  => {|ml: &'a str| TOMLValue::String(ml.into(), StrType::MLLiteral)}  |
       complete!(call_m!(self.ml_basic_string))    => {|mb: &'a str| TOMLValue::String(mb.into(), StrType::MLBasic)}  |
diff --git a/src/types.rs b/src/types.rs
index 797e9c1..43c435e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hasher;
 use std::rc::Rc;
 use std::cell::{Cell, RefCell};
@@ -975,7 +975,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLBasic => {
             match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.is_parsed_whole(),
               _ => false,
             }
           },
@@ -987,13 +987,34 @@ impl<'a> Value<'a> {
           },
           StrType::MLLiteral => {
             match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.is_parsed_whole(),
               _ => false,
             }
           },
         }
       },
-      _ => true,
+      &Value::Boolean(_) => true,
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => {
+        let mut keys = HashSet::new();
+        it.iter().all(|&(ref k, ref v)| {
+          let valid_key = match Parser::new().key(k) {
+            (_, IResult::Done(i, _)) => i.len() == 0,
+            (_, _) => false,
+          };
+          valid_key && keys.insert(k.clone()) && v.validate()
+        })
+      },
+    }
+  }
+
+  // A multi-line string may contain quotes, but not the ones that would end it too early
+  fn is_parsed_whole(&self) -> bool {
+    let quoted = format!("{}", self);
+    let (_, res) = Parser::new().string(&quoted);
+    match res {
+      IResult::Done(i, _) => i.len() == 0,
+      _ => false,
     }
   }
 }
-- 
2.43.0


From 25d4d93d1b97da5dc73a8199441c0b2e327eabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 12/17] fix: keep the index in step with the document when a
 set value changes its structure

---
 src/internals/parser.rs | 111 ++++++----------------------------------
 1 file changed, 17 insertions(+), 94 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index b83244b..c4eb029 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -1,7 +1,6 @@
 use std::fmt;
 use std::fmt::Display;
 use std::collections::{HashMap, BTreeMap};
-use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
@@ -125,59 +124,26 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
-    {
-      let tval = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => return false,
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut tval.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => return false,
-      };
+    let val_rf = match self.map.get(&s_key) {
       // a table isn't a value, so it can't be replaced with one
-      if let TOMLValue::Table = *val_rf.borrow() {
-        return false;
-      }
-      // if the inline table/array has the same structure the just replace the values
-      if Parser::same_structure(val_rf, &val) {
-        return Parser::replace_values(val_rf, &val);
-      }
+      Some(ref hash_val) if hash_val.has_value() => hash_val.value.clone().unwrap(),
+      _ => return false,
+    };
+    // if the inline table/array has the same structure the just replace the values
+    if Parser::same_structure(&val_rf, &val) {
+      return Parser::replace_values(&val_rf, &val);
     }
+    let new_value = match Parser::convert_vector(&val) {
+      Some(new_value) => new_value,
+      None => return false,
+    };
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
-    let all_keys = self.get_all_subkeys(&s_key);
-    for key in all_keys.iter() {
+    for key in self.get_all_subkeys(&s_key).iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
-    if self.map.contains_key(&s_key) {
-      let existing_value = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut existing_value.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
-      };
-      *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+    *val_rf.borrow_mut() = new_value;
+    Parser::insert_value_into_map(&mut self.map, s_key, val_rf);
     true
   }
 
@@ -212,6 +178,9 @@ impl<'a> Parser<'a> {
         for i in 0..it.len() {
           let subval = &it[i].1;
           let value_opt = Parser::convert_vector(subval);
+          if value_opt.is_none() {
+            return None;
+          }
           let value = value_opt.unwrap();
           let key_value;
           if i < it.len() - 1 {
@@ -297,52 +266,6 @@ impl<'a> Parser<'a> {
     }
   }
 
-  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>, skip: bool) {
-    match *val.borrow() {
-      TOMLValue::Array(ref arr) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          value.subkeys = Children::Count(Cell::new(arr.borrow().values.len()));
-        }
-        for i in 0..arr.borrow().values.len() {
-          let subkey = format!("{}[{}]", key, i);
-          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone(), false);
-        }
-      },
-      TOMLValue::InlineTable(ref it) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          if let Children::Keys(ref child_keys) = value.subkeys {
-            for i in 0..it.borrow().keyvals.len() {
-              Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-            }
-          }
-        }
-        for i in 0..it.borrow().keyvals.len() {
-          let subkey = format!("{}.{}", key, &it.borrow().keyvals[i].keyval.key);
-          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone(), false);
-        }
-      },
-      _ => {
-        self.map.entry(key.clone()).or_insert(
-          HashValue::new_count(val.clone())
-        );
-      },
-    }
-  }
-
   fn get_all_subkeys(self: &Parser<'a>, key: &str) -> Vec<String>{
     let hv_opt = self.map.get(key);
     let mut all_keys = vec![];
-- 
2.43.0


From 470961a01ecd5ef1b85538e904a0594942a370db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 13/17] fix: forget the previous document when a parser parses
 another one

---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index c4eb029..56034aa 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -36,6 +36,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // Nothing that's left from an earlier document has anything to do with this one
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From 2af2587e53f367187b740308beea7eb4662ebe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 14/17] fix: keep the Z of a datetime that tomlkit sets

---
 src/bin/tomlkit.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..234cb0b 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -569,7 +569,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -585,16 +585,21 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                   fraction = frac.to_string().into();
                 }
                 if let Some(ref offset) = time.offset {
-                  if let &TimeOffset::Time(ref amount) = offset {
-                    has_offset = true;
-                    pos_neg = amount.pos_neg;
-                    off_hour = amount.hour.to_string().into();
-                    off_minute = amount.minute.to_string().into();
+                  match offset {
+                    &TimeOffset::Zulu => is_zulu = true,
+                    &TimeOffset::Time(ref amount) => {
+                      has_offset = true;
+                      pos_neg = amount.pos_neg;
+                      off_hour = amount.hour.to_string().into();
+                      off_minute = amount.minute.to_string().into();
+                    },
                   }
                 }
               }
 
-              let newoffset = if has_offset {
+              let newoffset = if is_zulu {
+                Some(TimeOffset::Zulu)
+              } else if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
               } else {
                 None
-- 
2.43.0


From 0126969227c6dcf8075f3b85526a6092ab2eb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 15/17] fix: make tomlkit's --quiet turn off printing Success,
 and only that

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 234cb0b..9297032 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From a82cc39b14edd9bbbcec4cf3b3715ed43eab3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 16/17] fix: too few values for tomlkit's --set-true and
 --set-false are an error, not a panic

---
 src/bin/tomlkit.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 9297032..9f0e922 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -386,6 +386,15 @@ fn get_value(csv: &str, sep: &String, strip_quotes: bool, doc: &TOMLParser) -> R
   Err(format!("Could not parse keys: \"{:?}\".", csv))
 }
 
+// The value to print for the nth key. One value is enough for all of the keys, otherwise every key needs its own.
+fn nth_val(vals: &Result<Vec<String>, csv::Error>, n: usize) -> Option<&String> {
+  match vals {
+    &Ok(ref vals) if vals.len() > 1 => vals.get(n),
+    &Ok(ref vals) => vals.get(0),
+    &Err(_) => None,
+  }
+}
+
 fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, keycount: &mut usize, doc: &TOMLParser)
   -> Result<String, String> {
   let key_results = csv_to_vec(csv);
@@ -399,21 +408,13 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     let mut result = String::new();
     for i in 0..keys.len() {
       let (true_val, false_val);
-      if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
-        }
+      if let Some(val) = nth_val(&true_results, i) {
+        true_val = val;
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
-      if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
-        }
+      if let Some(val) = nth_val(&false_results, i) {
+        false_val = val;
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
@@ -495,21 +496,13 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     let mut result = String::new();
     for i in 0..keys.len() {
       let (true_val, false_val);
-      if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
-        }
+      if let Some(val) = nth_val(&true_results, i+keycount) {
+        true_val = val;
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
-      if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
-        }
+      if let Some(val) = nth_val(&false_results, i+keycount) {
+        false_val = val;
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
-- 
2.43.0


From f03dd2015abee059b33808bfe7b37951e2f40943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 17/17] fix: the internal name of the root table is not a key
 of the document

---
 src/internals/objects.rs    |  3 +--
 src/internals/parser.rs     | 10 ++--------
 src/internals/primitives.rs |  3 +--
 3 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 030d32b..6175ccf 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -104,8 +104,7 @@ impl<'a> Parser<'a> {
     for i in 0..keys.len() {
       let last = i == keys.len() - 1;
       {
-        let parent_key = if i == 0 { "$Root$" } else { &full_key };
-        if let Some(hash_val) = self.map.get(parent_key) {
+        if let Some(hash_val) = self.map.get(&full_key) {
           if let Children::Keys(ref vec_rf) = hash_val.subkeys {
             Parser::insert(vec_rf, keys[i].key.clone().into_owned());
           }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 56034aa..7747467 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -27,7 +27,7 @@ pub struct Parser<'a> {
 impl<'a> Parser<'a> {
   pub fn new() -> Parser<'a> {
     let mut map = HashMap::new();
-    map.insert("$Root$".to_string(), HashValue::none_keys());
+    map.insert("".to_string(), HashValue::none_keys()); // the root table
     Parser{ root: RefCell::new(Toml{ exprs: vec![] }), map: map,
             errors: Rc::new(RefCell::new(vec![])), leftover: "",
             line_count: Cell::new(1), table_key: String::new(), keychain: RefCell::new(vec![]),
@@ -109,13 +109,7 @@ impl<'a> Parser<'a> {
   }
 
   pub fn get_children<S>(self: &Parser<'a>, key: S) -> Option<&Children> where S: Into<String> {
-    let s_key = key.into();
-    let k;
-    if s_key == "" {
-      k = "$Root$".to_string();
-    } else {
-      k = s_key;
-    }
+    let k = key.into();
     if self.map.contains_key(&k) {
       let hashval = self.map.get(&k).unwrap();
       return Some(&hashval.subkeys);
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index bbe29a6..39fd52f 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -71,8 +71,7 @@ impl<'a> Parser<'a> {
       return;
     }
     {
-      let parent_key = if self.table_key == "" { "$Root$" } else { &self.table_key };
-      if let Some(hash_value) = self.map.get(parent_key) {
+      if let Some(hash_value) = self.map.get(&self.table_key) {
         if let Children::Keys(ref vec_rf) = hash_value.subkeys {
           if let Some(&Key::Str(ref s)) = self.keychain.borrow().last() {
             Parser::insert(vec_rf, s.clone().into_owned());
-- 
2.43.0

