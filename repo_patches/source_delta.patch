From c643d9ab677d56ef5369911066e1e6ff7a02ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 1/2] fix: drop deserializer layers innermost first even if one
 of them panics

---
 src/json/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 926c3ee..35badf9 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -50,10 +50,10 @@ enum Layer<'a> {
 
 impl<'a, 'b> Drop for Deserializer<'a, 'b> {
     fn drop(&mut self) {
-        // Drop layers in reverse order.
-        while !self.stack.is_empty() {
-            self.stack.pop();
-        }
+        // Drop layers in reverse order. If dropping one of them panics, Vec still
+        // drops the remaining ones in the order in which they are stored.
+        self.stack.reverse();
+        self.stack.clear();
     }
 }
 
-- 
2.43.0


From 1314b1c78dab79426f19c1395432111a69c21e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 2/2] fix: drop all elements of a partial array even if
 dropping one panics

---
 src/de/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/de/impls.rs b/src/de/impls.rs
index 4982912..b8665fa 100644
--- a/src/de/impls.rs
+++ b/src/de/impls.rs
@@ -527,9 +527,9 @@ where
 
         impl<'a, T: 'a, const N: usize> Drop for ArrayBuilder<'a, T, N> {
             fn drop(&mut self) {
-                for element in &mut self.array[..self.len] {
-                    unsafe { ptr::drop_in_place(element.assume_init_mut()) };
-                }
+                let elements = self.array.as_mut_ptr().cast::<T>();
+                // As one slice, so that all are dropped even if dropping one panics.
+                unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(elements, self.len)) };
             }
         }
 
-- 
2.43.0

