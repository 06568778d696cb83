From 9624a12e167a1e3dc42dec85d793db573cf918a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 01/15] fix: finishing a seq too early is an API usage error,
 not a panic

The debug assertion in finish_seq was inverted: with debug assertions on,
finish_seq before the last element panicked instead of returning the error.
---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From 304cb30b26637140ad5fa5f7f0c747fcf2b3a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 02/15] fix: finish empty containers when deserializing

Seqs, tuples, maps and structs were finished after their last element, so
empty ones never were, and whatever followed them failed to deserialize.
---
 binschema/src/serde/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..fd893fe 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        // there is no last element after which to finish
+        if len == 0 {
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,10 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        // there is no last field after which to finish
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +263,10 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        // there is no last entry after which to finish
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From a62b80f89688dfd94bb3655e596b78dadb19ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 03/15] fix: malformed chars, bools and options leave the
 decoder broken

As documented for malformed data errors. After a malformed bool or char the
decoder reported itself finished; after a malformed option the next call
panicked.
---
 binschema/src/decoder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..796f54d 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -183,6 +184,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 n,
             )),
         }
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_unit(&mut self) -> Result<()> {
@@ -274,12 +276,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    )
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 2e68d53a2d9740b8d37b561df43c299376b1cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 04/15] fix: report malformed var len ints and ordinals as
 malformed data

They were reported as IO errors, although the underlying reader is fine.
---
 binschema/src/decoder.rs |  5 -----
 binschema/src/var_len.rs | 48 +++++++++++++++++++++-------------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 796f54d..00ddeb0 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -3,7 +3,6 @@ use crate::{
     do_if_err::DoIfErr,
     error::{
         Result,
-        Error,
         error,
         bail,
     },
@@ -69,7 +68,6 @@ macro_rules! decode_var_len_uint {
         pub fn $m(&mut self) -> Result<$t> {
             self.state.$c()?;
             read_var_len_uint(&mut self.read)
-                .map_err(Error::from)
                 .and_then(|n| $t::try_from(n)
                     .map_err(|_| error!(
                         MalformedData,
@@ -90,7 +88,6 @@ macro_rules! decode_var_len_sint {
         pub fn $m(&mut self) -> Result<$t> {
             self.state.$c()?;
             read_var_len_sint(&mut self.read)
-                .map_err(Error::from)
                 .and_then(|n| $t::try_from(n)
                     .map_err(|_| error!(
                         MalformedData,
@@ -117,7 +114,6 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
     /// Read a varlen-encoded usize.
     fn read_len(&mut self) -> Result<usize> {
         read_var_len_uint(&mut self.read)
-            .map_err(Error::from)
             .and_then(|n| usize::try_from(n)
                 .map_err(|_| error!(
                     PlatformLimits,
@@ -152,7 +148,6 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
     pub fn decode_char(&mut self) -> Result<char> {
         self.state.code_char()?;
         let n = read_var_len_uint(&mut self.read)
-            .map_err(Error::from)
             .and_then(|n| u32::try_from(n)
                 .map_err(|_| error!(
                     MalformedData,
diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..37cbda9 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,19 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    Result,
+    error,
+    bail,
+    ensure,
+};
 use std::io::{
+    self,
     Read,
     Write,
-    Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -41,7 +33,7 @@ pub fn write_ord<W>(
     write: &mut W,
     ord: usize,
     num_variants: usize,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -62,7 +54,12 @@ pub fn read_ord<R>(
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +67,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -87,7 +86,7 @@ const LO_7_BITS: u8 = 0b01111111;
 pub fn write_var_len_uint<W>(
     write: &mut W,
     mut n: u128,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -115,7 +114,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -137,7 +138,7 @@ const LO_6_BITS: u8        = 0b00111111;
 pub fn write_var_len_sint<W>(
     write: &mut W,
     mut n: i128,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -183,10 +184,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From 2d2e4cd1a335688a24a968562c95fdfe9169f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 05/15] fix: don't cancel an enum whose variant has an illegal
 schema

Encoding an enum variant that is an illegal recurse panicked in cancel_enum
(debug assertions on), as the enum was no longer in a state to be cancelled.
---
 binschema/src/encoder.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/binschema/src/encoder.rs b/binschema/src/encoder.rs
index d1f6f45..510e149 100644
--- a/binschema/src/encoder.rs
+++ b/binschema/src/encoder.rs
@@ -2,6 +2,7 @@
 use crate::{
     error::{
         Error,
+        ErrorKind,
         Result,
     },
     do_if_err::DoIfErr,
@@ -237,9 +238,14 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
         self.state
             .begin_enum_variant_ord(variant_ord)
             .do_if_err(|| self.state.cancel_enum())?;
-        self.state
-            .begin_enum_variant_name(variant_name)
-            .do_if_err(|| self.state.cancel_enum())?;
+        if let Err(e) = self.state.begin_enum_variant_name(variant_name) {
+            // an illegal schema error is fatal, and comes with the name
+            // already coded: there is no enum left to cancel
+            if e.kind() != ErrorKind::IllegalSchema {
+                self.state.cancel_enum();
+            }
+            return Err(e);
+        }
 
         write_ord(&mut self.write, variant_ord, num_variants)
             .do_if_err(|| self.state.mark_broken())?;
-- 
2.43.0


From 9e7343096391a0806976075e55dca66ff29c5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 06/15] fix: close the debug log's enum tag when an enum is
 cancelled

The tag opened by begin_enum stayed open and everything after it was indented
one level too far.
---
 binschema/src/coder/coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..6ca6f6f 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -871,6 +871,7 @@ impl<'a> CoderState<'a> {
                 ..
             }),
         ));
+        dbg_log_pop!(self, "enum");
         self.top().api_state = ApiState::Need;
     }
 }
-- 
2.43.0


From aac895180d4d70ed48c70ca656e64dc9877be371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 07/15] fix: a schema whose root is recurse is an illegal
 schema error

Such a schema was reported as what is needed next, which it is documented never
to be, and Value::decode_from and deserialize_any panicked on it; other calls
gave schema non-conformance errors.
---
 binschema/src/coder/coder.rs | 32 ++++++++++++++++++++++++++++++++
 binschema/src/decoder.rs     |  5 +++++
 binschema/src/encoder.rs     |  5 +++++
 binschema/src/serde/de.rs    |  4 ++--
 binschema/src/serde/ser.rs   |  2 +-
 binschema/src/value.rs       |  2 +-
 6 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 6ca6f6f..0ec9ce0 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -5,6 +5,7 @@
 use crate::{
     do_if_err::DoIfErr,
     error::{
+        ErrorKind,
         Result,
         error,
         ensure,
@@ -210,6 +211,10 @@ macro_rules! validate_top {
             Some($self),
             "usage after IO error",
         );
+        if $self.needs_root_recurse() {
+            $self.broken = true;
+            bail!(IllegalSchema, Some($self), "root of schema is recurse");
+        }
         match $self.stack.iter_mut().rev().next() {
             None => bail!(ApiUsage, Some($self), "usage of finished coder"),
             Some($top) => match $opt_ret {
@@ -331,6 +336,19 @@ impl<'a> CoderState<'a> {
         &mut self.stack[i]
     }
 
+    /// Whether the schema that needs to be coded is recurse. Recursion is
+    /// resolved when pushing, so this can only be the root of the schema, which
+    /// has nothing to recurse to.
+    fn needs_root_recurse(&self) -> bool {
+        matches!(
+            self.stack.iter().rev().next(),
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+            })
+        )
+    }
+
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
@@ -374,6 +392,10 @@ impl<'a> CoderState<'a> {
     /// will return the schema that recursion resolved to, or fail if it
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
+        if self.needs_root_recurse() {
+            ensure!(!self.broken, ApiUsage, Some(self), "usage after IO error");
+            bail!(IllegalSchema, Some(self), "root of schema is recurse");
+        }
         match self.stack.iter().rev().next() {
             Some(&StackFrame {
                 schema,
@@ -385,6 +407,16 @@ impl<'a> CoderState<'a> {
         }
     }
 
+    /// Like `need`, but leaves the coder broken if the schema is illegal. For
+    /// use by what is about to code the schema.
+    pub(crate) fn need_to_code(&mut self) -> Result<&'a Schema> {
+        let need = self.need();
+        if matches!(&need, Err(e) if e.kind() == ErrorKind::IllegalSchema) {
+            self.broken = true;
+        }
+        need
+    }
+
     /// Mark the coder as having experienced an irrecoverable error. Any
     /// further attempts at coding is an API usage error.
     pub(crate) fn mark_broken(&mut self) {
diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 00ddeb0..90069fb 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -46,6 +46,11 @@ impl<'a, 'b, R> Decoder<'a, 'b, R> {
         self.state.need()
     }
 
+    /// Like `need`, but leaves the coder broken if the schema is illegal.
+    pub(crate) fn need_to_code(&mut self) -> Result<&'a Schema> {
+        self.state.need_to_code()
+    }
+
     pub fn coder_state(&self) -> &CoderState<'a> {
         &*self.state
     }
diff --git a/binschema/src/encoder.rs b/binschema/src/encoder.rs
index 510e149..f740cc7 100644
--- a/binschema/src/encoder.rs
+++ b/binschema/src/encoder.rs
@@ -39,6 +39,11 @@ impl<'a, 'b, W> Encoder<'a, 'b, W> {
         self.state.need()
     }
 
+    /// Like `need`, but leaves the coder broken if the schema is illegal.
+    pub(crate) fn need_to_code(&mut self) -> Result<&'a Schema> {
+        self.state.need_to_code()
+    }
+
     pub fn coder_state(&self) -> &CoderState<'a> {
         &*self.state
     }
diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index fd893fe..1149ca8 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -47,7 +47,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         got_len: Option<usize>,
     ) -> Result<V::Value> {
         let (len, seq_like) =
-            match self.need()? {
+            match self.need_to_code()? {
                 &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
                     self.begin_fixed_len_seq(len)?;
                     (len, SeqLike::Seq)
@@ -157,7 +157,7 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
     type Error = Error;
 
     fn deserialize_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
-        match self.need()? {
+        match self.need_to_code()? {
             &Schema::Scalar(st) => match st {
                 ScalarType::U8 => self.deserialize_u8(v),
                 ScalarType::U16 => self.deserialize_u16(v),
diff --git a/binschema/src/serde/ser.rs b/binschema/src/serde/ser.rs
index 3531206..3ee7398 100644
--- a/binschema/src/serde/ser.rs
+++ b/binschema/src/serde/ser.rs
@@ -41,7 +41,7 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
     ) -> Result<SeqLikeSerializer<'a, 'b, 'c, W>>
     {
         let seq_like =
-            match self.need()? {
+            match self.need_to_code()? {
                 &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
                     self.begin_fixed_len_seq(got_len.unwrap_or(len))?;
                     SeqLike::Seq
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..82b04ac 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -110,7 +110,7 @@ impl Value {
     }
 
     pub fn decode_from<R: Read>(d: &mut Decoder<R>) -> Result<Self> {
-        Ok(match d.need()? {
+        Ok(match d.need_to_code()? {
             &Schema::Scalar(scalar_type) =>
                 Value::Scalar(ScalarValue::decode_from(d, scalar_type)?),
             &Schema::Str => Value::Str(d.decode_str()?),
-- 
2.43.0


From 75620f5bd7951ac0c1eda0859916e03e9c3bca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 08/15] fix: resolve recurse in the schema tree rather than in
 the coding stack

A recurse of level n means the schema n levels up in the schema tree. It was
looked up n frames down the stack of what is being coded, which differs once
the stack has gone through another recurse: references nested in what was
recursed to resolved to the wrong schema.
---
 binschema/src/coder/coder.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 0ec9ce0..9d7e696 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -95,6 +95,10 @@ macro_rules! dbg_log_pop {
 #[derive(Debug, Clone)]
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
+    /// Index in the stack of the frame for the schema's parent in the schema
+    /// tree. This is not necessarily the frame below this one, as it may have
+    /// been recursed to from anywhere. None if is root of schema.
+    parent: Option<usize>,
     api_state: ApiState,
 }
 
@@ -171,6 +175,7 @@ impl<'a> CoderState<'a> {
         let mut stack = alloc.into_stack();
         stack.push(StackFrame {
             schema,
+            parent: None,
             api_state: ApiState::Need,
         });
         CoderState {
@@ -303,6 +308,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -345,6 +351,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema: &Schema::Recurse(_),
                 api_state: ApiState::Need,
+                ..
             })
         )
     }
@@ -352,24 +359,33 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
-        while let &Schema::Recurse(n) = schema {
+        let mut parent = self.stack.len().checked_sub(1);
+        if let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            // walk up the schema tree
+            let mut target = parent;
+            for _ in 1..n {
+                target = match target {
+                    Some(i) => self.stack[i].parent,
+                    None => break,
+                };
+            }
+            let target = target
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
-                    "recurse past base of stack",
+                    "recurse past root of schema",
                 ))
                 .do_if_err(|| self.broken = true)?;
-            schema = self.stack[i].schema;
+            schema = self.stack[target].schema;
+            parent = self.stack[target].parent;
         }
         self.stack.push(StackFrame {
             schema,
+            parent,
             api_state: ApiState::Need,
         });
         Ok(())
@@ -400,6 +416,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -576,6 +593,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -650,6 +668,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -684,6 +703,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -732,6 +752,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -775,6 +796,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -831,6 +853,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -868,6 +891,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From b9e15dcf828f29326a7547099d748bd8d19d1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 09/15] fix: raw identifiers name fields and variants without
 the r#

As they do in serde. Types with such a field or variant could not be serialized
under their derived schema.
---
 binschema/src/schema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema/src/schema.rs b/binschema/src/schema.rs
index ae99363..0ab9338 100644
--- a/binschema/src/schema.rs
+++ b/binschema/src/schema.rs
@@ -352,6 +352,7 @@ impl<S: Into<String>> From<(S, Schema)> for EnumSchemaVariant {
 
 #[macro_export]
 macro_rules! schema {
+    // a raw identifier, such as `r#type`, names the field or variant "type"
     (u8)=>{ $crate::Schema::Scalar($crate::ScalarType::U8) };
     (u16)=>{ $crate::Schema::Scalar($crate::ScalarType::U16) };
     (u32)=>{ $crate::Schema::Scalar($crate::ScalarType::U32) };
@@ -373,8 +374,8 @@ macro_rules! schema {
     (seq(varlen)($($inner:tt)*))=>{ $crate::Schema::Seq($crate::SeqSchema { len: ::core::option::Option::None, inner: ::std::boxed::Box::new($crate::schema!($($inner)*)) }) };
     (seq($len:expr)($($inner:tt)*))=>{ $crate::Schema::Seq($crate::SeqSchema { len: ::core::option::Option::Some($len), inner: ::std::boxed::Box::new($crate::schema!($($inner)*)) }) };
     (tuple { $(($($item:tt)*)),*$(,)? })=>{ $crate::Schema::Tuple(::std::vec![$( $crate::schema!($($item)*), )*]) };
-    (struct { $(($name:ident: $($field:tt)*)),*$(,)? })=>{ $crate::Schema::Struct(::std::vec![$( $crate::StructSchemaField { name: ::std::string::String::from(::core::stringify!($name)), inner: $crate::schema!($($field)*) }, )*]) };
-    (enum { $($name:ident($($variant:tt)*)),*$(,)? })=>{ $crate::Schema::Enum(::std::vec![$( $crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name)), inner: $crate::schema!($($variant)*) }, )*]) };
+    (struct { $(($name:ident: $($field:tt)*)),*$(,)? })=>{ $crate::Schema::Struct(::std::vec![$( $crate::StructSchemaField { name: ::std::string::String::from(::core::stringify!($name).trim_start_matches("r#")), inner: $crate::schema!($($field)*) }, )*]) };
+    (enum { $($name:ident($($variant:tt)*)),*$(,)? })=>{ $crate::Schema::Enum(::std::vec![$( $crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name).trim_start_matches("r#")), inner: $crate::schema!($($variant)*) }, )*]) };
     (recurse($n:expr))=>{ $crate::Schema::Recurse($n) };
     (%$schema:expr)=>{ $schema };
 }
-- 
2.43.0


From 23bc994ed199bb867c3f15c656983af44f18f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 10/15] fix: count the tuple in maps as a level when deriving
 recursion

Types which recurse through a map were given recurse levels one too low.
---
 binschema/src/known_schema.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..1407585 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,8 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                // for the tuple
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From f441c42417d60ccbed49cf53ca3d4b014452df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 11/15] fix: the first field of ranges is named start

As in their serde implementations, so that ranges can be serialized under the
schema they declare.
---
 binschema/src/known_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1407585..0a17f67 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -236,7 +236,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -246,7 +246,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
-- 
2.43.0


From 20a09ecdef37e88039c8ad9617e676904fd5092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 12/15] fix: order the variants of bounds as serde does

So that bounds can be serialized under the schema they declare.
---
 binschema/src/known_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 0a17f67..bbcb780 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -256,9 +256,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From 64361307a9b00e572e479a418d33476b4e908a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 13/15] fix: count a derived struct as one level, not two

Structs which recurse were given recurse levels one too high, beyond the root
if at the root.
---
 binschema_derive/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..131f34a 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -50,7 +50,15 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// Schema for fields. If they're a struct or tuple which isn't already accounted
+/// for by the top layer of `stack`, `nested` adds a layer for it.
+fn fields_schema(fields: &Fields, nested: bool) -> TokenStream2 {
+    let layer =
+        if nested {
+            quote! { let stack = stack.with_none_layer(); }
+        } else {
+            quote! {}
+        };
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -65,7 +73,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #layer
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -91,7 +99,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #layer
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -113,12 +121,12 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
 
     let name = &input.ident;
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = &variant.ident;
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
                     }
-- 
2.43.0


From cba59be9873994faf30285d2c49b8043b54e3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 14/15] fix: don't count derived newtypes as a level of
 recursion

A newtype has the schema of what it contains, so recursion through or to one
was given too high a level.
---
 binschema/src/known_schema.rs | 35 +++++++++++++++++++++++++++++------
 binschema_derive/src/lib.rs   | 12 +++++++++++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index bbcb780..0444899 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,9 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    /// Whether the type has no level of its own in the schema, its schema being
+    /// that of what it contains.
+    transparent: bool,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +57,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            transparent: false,
+            next: &self.0,
+        }))
+    }
+
+    /// Like `with_type_layer`, but for a type which is not itself a level in the
+    /// schema, because its schema is simply that of what it contains.
+    pub fn with_transparent_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            transparent: true,
             next: &self.0,
         }))
     }
@@ -62,31 +77,39 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            transparent: false,
             next: &self.0,
         }))
     }
 
     pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        self.parent_level::<T>().map(|n| n.saturating_sub(1))
+    }
+
+    pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
+        self.parent_level::<T>().map(Schema::Recurse)
+    }
+
+    /// Find the type, and how many levels above what is to be put on top of the
+    /// stack its schema is.
+    fn parent_level<T: KnownSchema>(&self) -> Option<usize> {
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
+            if !curr.transparent {
+                level += 1;
+            }
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
                     return Some(level);
                 }
             }
             opt_curr = curr.next;
-            level += 1;
         }
 
         None
     }
-
-    pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
-        self.find_type::<T>()
-            .map(|n| Schema::Recurse(n + 1))
-    }
 }
 
 impl<'a> Debug for RecurseStack<'a> {
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 131f34a..9df2d27 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -139,6 +139,16 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Union(_) => panic!("cannot derive KnownSchema on a union"),
     };
     
+    // a newtype's schema is that of what's inside
+    let layer =
+        match &input.data {
+            &Data::Struct(DataStruct {
+                fields: Fields::Unnamed(FieldsUnnamed { ref unnamed, .. }),
+                ..
+            }) if unnamed.len() == 1 => quote! { with_transparent_layer },
+            _ => quote! { with_type_layer },
+        };
+
     quote! {
         impl ::binschema::KnownSchema for #name {
             fn schema(
@@ -147,7 +157,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From 1c6f411034ab6903d60c973779474ce55b0783ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 15/15] fix: don't allocate what a length in the data claims up
 front

A few bytes claiming a huge str, bytes or seq made the decoder allocate that
much, aborting or panicking on capacity overflow.
---
 binschema/src/decoder.rs | 42 +++++++++++++++++++++++++++-------------
 binschema/src/value.rs   |  6 ++++--
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 90069fb..e33d42f 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -19,12 +19,19 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{
+        self,
+        Read,
+    },
     borrow::BorrowMut,
-    iter::repeat,
+    cmp::min,
 };
 
 
+/// Number of bytes to allocate for a str or bytes without having seen them.
+const MAX_TRUSTED_LEN: usize = 4096;
+
+
 /// Decodes a value from a `std::io::Read` comforming to a schema.
 pub struct Decoder<'a, 'b, R> {
     state: &'b mut CoderState<'a>,
@@ -129,6 +136,23 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Read `len` bytes into the empty `buf`. The len comes from the data being
+    /// decoded, so the buffer is only grown as bytes actually arrive.
+    fn read_len_bytes(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        buf.reserve(min(len, MAX_TRUSTED_LEN));
+        let n = Read::take(&mut *self.read, len as u64)
+            .read_to_end(buf)
+            .do_if_err(|| self.state.mark_broken())?;
+        if n < len {
+            self.state.mark_broken();
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "failed to fill whole buffer",
+            ).into());
+        }
+        Ok(())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -206,17 +230,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_len_bytes(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -252,10 +271,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_len_bytes(buf, len)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 82b04ac..1f0e723 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -132,7 +132,8 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                // don't trust len enough to allocate it up front
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +146,8 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                // don't trust len enough to allocate it up front
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0

