From bf3050ae7851babd52ea7934bc82b14f8c605223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:40 +0000
Subject: [PATCH 1/3] fix: yield one entry for a deeply nested element of an
 sval sequence

---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..60efffc 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 364f48ad5a11c42f3b0590b6e1469672255cf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:00 +0000
Subject: [PATCH 2/3] fix: don't extract a sequence from an sval map or record

---
 src/internal/sval/v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 60efffc..8846442 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -592,6 +592,15 @@ pub(crate) mod seq {
             Ok(())
         }
 
+        fn map_begin(&mut self, num_entries: Option<usize>) -> value_bag_sval2::lib::Result {
+            // A map isn't a sequence; only treat it as a nested complex value
+            if self.depth == 0 {
+                return value_bag_sval2::lib::error();
+            }
+
+            self.seq_begin(num_entries)
+        }
+
         fn seq_value_begin(&mut self) -> value_bag_sval2::lib::Result {
             Ok(())
         }
-- 
2.43.0


From 2efcbcc0a530084743592e856e53501c9a850c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:37 +0000
Subject: [PATCH 3/3] fix: keep the error of a visitor that fails on a
 structured primitive

---
 src/internal/cast/mod.rs |  6 ++---
 src/internal/serde/v1.rs | 54 +++++++++++++++++++++++++---------------
 src/internal/sval/v2.rs  | 43 ++++++++++++++++++++++----------
 src/visit.rs             |  6 ++---
 4 files changed, 70 insertions(+), 39 deletions(-)

diff --git a/src/internal/cast/mod.rs b/src/internal/cast/mod.rs
index 6fc18fd..2ae5f29 100644
--- a/src/internal/cast/mod.rs
+++ b/src/internal/cast/mod.rs
@@ -275,7 +275,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "sval2")]
             #[inline]
             fn sval2(&mut self, v: &dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::internal_visit(v, self) {
+                if super::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -284,7 +284,7 @@ impl<'v> Internal<'v> {
 
             #[cfg(feature = "sval2")]
             fn borrowed_sval2(&mut self, v: &'v dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::borrowed_internal_visit(v, self) {
+                if super::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -294,7 +294,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "serde1")]
             #[inline]
             fn serde1(&mut self, v: &dyn super::serde::v1::Serialize) -> Result<(), Error> {
-                if super::serde::v1::internal_visit(v, self) {
+                if super::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..f26394f 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -324,8 +324,18 @@ fn serialize_seq<S: value_bag_serde1::lib::Serializer>(
     s.serializer.end()
 }
 
-pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisitor<'_>) -> bool {
-    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>);
+pub(crate) fn internal_visit(
+    v: &dyn Serialize,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
+    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>, &'a mut Option<Error>);
+
+    impl<'a, 'v> VisitorSerializer<'a, 'v> {
+        fn fail(self, err: Error) -> Unsupported {
+            *self.1 = Some(err);
+            Unsupported
+        }
+    }
 
     impl<'a, 'v> value_bag_serde1::lib::Serializer for VisitorSerializer<'a, 'v> {
         type Ok = ();
@@ -340,59 +350,59 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
         fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.0.u64(v as u64).map_err(|e| self.fail(e))
         }
 
         fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.0.u64(v as u64).map_err(|e| self.fail(e))
         }
 
         fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            self.0.u64(v as u64).map_err(|e| self.fail(e))
         }
 
         fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v).map_err(|_| Unsupported)
+            self.0.u64(v).map_err(|e| self.fail(e))
         }
 
         fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
-            self.0.u128(&v).map_err(|_| Unsupported)
+            self.0.u128(&v).map_err(|e| self.fail(e))
         }
 
         fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.0.i64(v as i64).map_err(|e| self.fail(e))
         }
 
         fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.0.i64(v as i64).map_err(|e| self.fail(e))
         }
 
         fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            self.0.i64(v as i64).map_err(|e| self.fail(e))
         }
 
         fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v).map_err(|_| Unsupported)
+            self.0.i64(v).map_err(|e| self.fail(e))
         }
 
         fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
-            self.0.i128(&v).map_err(|_| Unsupported)
+            self.0.i128(&v).map_err(|e| self.fail(e))
         }
 
         fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v as f64).map_err(|_| Unsupported)
+            self.0.f64(v as f64).map_err(|e| self.fail(e))
         }
 
         fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v).map_err(|_| Unsupported)
+            self.0.f64(v).map_err(|e| self.fail(e))
         }
 
         fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-            self.0.char(v).map_err(|_| Unsupported)
+            self.0.char(v).map_err(|e| self.fail(e))
         }
 
         fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-            self.0.bool(v).map_err(|_| Unsupported)
+            self.0.bool(v).map_err(|e| self.fail(e))
         }
 
         fn serialize_some<T>(self, v: &T) -> Result<Self::Ok, Self::Error>
@@ -403,11 +413,11 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            self.0.none().map_err(|e| self.fail(e))
         }
 
         fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            self.0.none().map_err(|e| self.fail(e))
         }
 
         fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
@@ -415,7 +425,7 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_str(self, s: &str) -> Result<Self::Ok, Self::Error> {
-            self.0.str(s).map_err(|_| Unsupported)
+            self.0.str(s).map_err(|e| self.fail(e))
         }
 
         fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
@@ -510,7 +520,11 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
     }
 
-    value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
+    let mut err = None;
+    let visited =
+        value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor, &mut err)).is_ok();
+
+    err.map_or(Ok(visited), Err)
 }
 
 impl Error {
diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 8846442..c39df16 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -269,59 +269,76 @@ where
     value_bag_sval2::serde1::serialize(s, v)
 }
 
-pub(crate) fn internal_visit(v: &dyn Value, visitor: &mut dyn InternalVisitor<'_>) -> bool {
+pub(crate) fn internal_visit(
+    v: &dyn Value,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok();
+
+    visitor.err.map_or(Ok(visited), Err)
 }
 
 pub(crate) fn borrowed_internal_visit<'v>(
     v: &'v dyn Value,
     visitor: &mut dyn InternalVisitor<'v>,
-) -> bool {
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream(&mut visitor, v).is_ok();
+
+    visitor.err.map_or(Ok(visited), Err)
 }
 
 struct VisitorStream<'a, 'v> {
     visitor: &'a mut dyn InternalVisitor<'v>,
     text_buf: value_bag_sval2::buffer::TextBuf<'v>,
+    err: Option<Error>,
+}
+
+impl<'a, 'v> VisitorStream<'a, 'v> {
+    fn fail(&mut self, err: Error) -> value_bag_sval2::lib::Error {
+        self.err = Some(err);
+        value_bag_sval2::lib::Error::new()
+    }
 }
 
 impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     fn null(&mut self) -> value_bag_sval2::lib::Result {
-        self.visitor.none().map_err(Error::into_sval2)
+        self.visitor.none().map_err(|e| self.fail(e))
     }
 
     fn bool(&mut self, v: bool) -> value_bag_sval2::lib::Result {
-        self.visitor.bool(v).map_err(Error::into_sval2)
+        self.visitor.bool(v).map_err(|e| self.fail(e))
     }
 
     fn i64(&mut self, v: i64) -> value_bag_sval2::lib::Result {
-        self.visitor.i64(v).map_err(Error::into_sval2)
+        self.visitor.i64(v).map_err(|e| self.fail(e))
     }
 
     fn u64(&mut self, v: u64) -> value_bag_sval2::lib::Result {
-        self.visitor.u64(v).map_err(Error::into_sval2)
+        self.visitor.u64(v).map_err(|e| self.fail(e))
     }
 
     fn i128(&mut self, v: i128) -> value_bag_sval2::lib::Result {
-        self.visitor.i128(&v).map_err(Error::into_sval2)
+        self.visitor.i128(&v).map_err(|e| self.fail(e))
     }
 
     fn u128(&mut self, v: u128) -> value_bag_sval2::lib::Result {
-        self.visitor.u128(&v).map_err(Error::into_sval2)
+        self.visitor.u128(&v).map_err(|e| self.fail(e))
     }
 
     fn f64(&mut self, v: f64) -> value_bag_sval2::lib::Result {
-        self.visitor.f64(v).map_err(Error::into_sval2)
+        self.visitor.f64(v).map_err(|e| self.fail(e))
     }
 
     fn text_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
@@ -343,11 +360,11 @@ impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
 
     fn text_end(&mut self) -> value_bag_sval2::lib::Result {
         if let Some(v) = self.text_buf.as_borrowed_str() {
-            self.visitor.borrowed_str(v).map_err(Error::into_sval2)
+            self.visitor.borrowed_str(v).map_err(|e| self.fail(e))
         } else {
             self.visitor
                 .str(self.text_buf.as_str())
-                .map_err(Error::into_sval2)
+                .map_err(|e| self.fail(e))
         }
     }
 
diff --git a/src/visit.rs b/src/visit.rs
index 346550d..09bc6eb 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -307,7 +307,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
+                if internal::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -319,7 +319,7 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
+                if internal::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -328,7 +328,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
+                if internal::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_serde1(v))
-- 
2.43.0

