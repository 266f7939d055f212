From 8097dc9738420e4e0602286cf9c5248f584e1ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 01/15] fix: IntoIter::next_back yielded elements already taken
 from the front

The back cursor was only compared with zero, so mixing next and next_back
handed the same element out twice (a double free for owning elements).
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..89ad5c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -798,7 +798,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From cd8e88b4c23387e6ec1b8fa520499fcd96503235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 02/15] fix: IntoIter::nth dropped elements beyond the
 remaining range

Skipping past the end dropped out-of-bounds memory (or elements already
taken from the back) and left the front cursor beyond the back cursor.
Elements were also dropped before the cursor moved past them, so a
panicking destructor led to a double drop.
---
 src/vector.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 89ad5c3..69a9b5a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,10 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..n {
+            if self.next().is_none() { return None; }
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From 3b701a8b1e4a48a8d0783901dbb7c4f0a093490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 03/15] fix: RowsIter and ColsIter lengths ignored items taken
 from the back

len, size_hint and count were computed from the matrix dimension instead of
the back cursor.
---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From 2818eb2ac71b5b48d768e718a0305f7c40b9c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 04/15] fix: nth on matrix iterators moved the front cursor
 past the back cursor

Skipping past the end made len, size_hint and count underflow, and a huge skip
overflowed the cursor (panic in debug, restart from the beginning in release).
---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..2bcc214 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
-- 
2.43.0


From f1f7696910f74788f374baea5ef1a22943c7f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 05/15] fix: indexing an empty vector with U0 was accepted

Unlike every other type-level index, Index<U0> had no bound, so the unchecked
access read out of bounds for Vector<T, U0>.
---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 69a9b5a..1319a6a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From f988b87f07985a3d458bc76467cfb028778d7c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 06/15] fix: ColsIterRefInner::new must reject an out-of-range
 column

It is a safe public constructor and the iterator uses unchecked access, so the
column has to be checked in release builds too.
---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 2bcc214..3b2c547 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From 8b08b0507cba8f7734dd175f39c27f11194a7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 07/15] fix: collecting into a Vector treated uninitialized
 memory as elements

The array was built in mem::uninitialized::<N::Array>(), which is undefined
behaviour for practically every element type. It also leaked the elements
already collected when the source iterator panicked or had surplus items, and
dropped uninitialized elements when a destructor panicked during clean-up.
---
 src/vector.rs | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 1319a6a..f017f87 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -13,7 +13,7 @@ use std::ops::{Deref, DerefMut, Add, Sub, Mul, Div, Neg, Rem,
     AddAssign, SubAssign, MulAssign, DivAssign, Index, IndexMut};
 use std::marker::PhantomData;
 use std::slice::{Iter as SliceIter, IterMut as SliceIterMut};
-use std::mem;
+use std::mem::{self, MaybeUninit};
 use std::ptr;
 use std::fmt::{Debug, Formatter, Result as FmtResult};
 use std::iter::FromIterator;
@@ -694,6 +694,45 @@ fn test_clamp() {
     assert_eq!(v, Vector::new([3, 4, 4]));
 }
 
+/// An array whose first `len` elements are initialized. Drops them unless it is completed.
+struct PartialArray<T, N> where N: ArrayLen<T> {
+    arr: MaybeUninit<N::Array>,
+    len: usize,
+}
+
+impl<T, N> PartialArray<T, N> where N: ArrayLen<T> {
+    #[inline]
+    fn new() -> Self {
+        PartialArray {
+            arr: MaybeUninit::uninit(),
+            len: 0,
+        }
+    }
+
+    /// The elements at and after `len` are uninitialized.
+    #[inline]
+    unsafe fn as_mut(&mut self) -> &mut [T] {
+        (*self.arr.as_mut_ptr()).as_mut()
+    }
+
+    /// All of the elements must be initialized.
+    #[inline]
+    unsafe fn into_inner(self) -> N::Array {
+        let arr = ptr::read(self.arr.as_ptr());
+        mem::forget(self);
+        arr
+    }
+}
+
+impl<T, N> Drop for PartialArray<T, N> where N: ArrayLen<T> {
+    fn drop(&mut self) {
+        unsafe {
+            let len = self.len;
+            ptr::drop_in_place(self.as_mut().get_unchecked_mut(..len));
+        }
+    }
+}
+
 impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
     fn from_iter<I>(iter: I) -> Self
         where I: IntoIterator<Item = T>
@@ -701,24 +740,18 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
         let mut it = iter.into_iter();
 
         let arr = unsafe {
-            // NOTE: somehow `NoDrop` drops performance - it should be optimized out
-            let mut arr = NoDrop::new(mem::uninitialized::<N::Array>());
+            let mut arr = PartialArray::<T, N>::new();
 
             for i in 0..N::to_usize() {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
-                        for j in 0..i {
-                            ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
-                        }
-                        mem::forget(arr);
-
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
                     }
                 };
                 ptr::write(arr.as_mut().get_unchecked_mut(i), item);
+                arr.len = i + 1;
             }
 
             // making this `assert_eq` slows down matrix multiplication by 7x in release build!
-- 
2.43.0


From 10c4d7530937411a57ace70aa2d2868c51c8dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 08/15] fix: moving a partly consumed IntoIter copied dead
 elements as live ones

NoDrop inhibits the destructor but still asserts that its content is valid, so
moving an IntoIter after an owning element (e.g. a Box) had been taken out and
freed was undefined behaviour. The storage is now MaybeUninit.
---
 src/vector.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f017f87..e24ba68 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7,8 +7,6 @@ use typenum::type_operators::Same;
 use num;
 use num::Float;
 
-use nodrop::NoDrop;
-
 use std::ops::{Deref, DerefMut, Add, Sub, Mul, Div, Neg, Rem,
     AddAssign, SubAssign, MulAssign, DivAssign, Index, IndexMut};
 use std::marker::PhantomData;
@@ -773,7 +771,7 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
     #[inline]
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
-            arr: NoDrop::new(self.into_inner()),
+            arr: MaybeUninit::new(self.into_inner()),
             next: 0,
             back: N::to_usize(),
         }
@@ -781,15 +779,27 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
 }
 
 pub struct IntoIter<T, N> where N: ArrayLen<T> {
-    arr: NoDrop<N::Array>,
+    arr: MaybeUninit<N::Array>, // only the elements in `next..back` are alive
     next: usize,
     back: usize,
 }
 
+impl<T, N> IntoIter<T, N> where N: ArrayLen<T> {
+    #[inline]
+    unsafe fn as_slice(&self) -> &[T] {
+        (*self.arr.as_ptr()).as_ref()
+    }
+
+    #[inline]
+    unsafe fn as_slice_mut(&mut self) -> &mut [T] {
+        (*self.arr.as_mut_ptr()).as_mut()
+    }
+}
+
 impl<T, N> Drop for IntoIter<T, N> where N: ArrayLen<T> {
     fn drop(&mut self) {
         for i in self.next..self.back {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+            unsafe { ptr::drop_in_place(self.as_slice_mut().get_unchecked_mut(i)) };
         }
     }
 }
@@ -805,7 +815,7 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.next += 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(i))
+                ptr::read(self.as_slice().get_unchecked(i))
             })
         } else {
             None
@@ -840,7 +850,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.back -= 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(self.back))
+                ptr::read(self.as_slice().get_unchecked(self.back))
             })
         } else {
             None
-- 
2.43.0


From 5e22c3fb08fc4cb63d6e5a9ebb584ab5251a62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/15] fix: inverse of a 4x4 or larger matrix failed on a zero
 pivot

inverse() returned None for invertible matrices such as permutations, because
elimination gave up on a zero diagonal element instead of exchanging rows.
---
 src/matrix/ops.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..f011785 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,16 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
-                }
-                T::one() / d
-            };
+            // exchange rows if the pivot is zero
+            match (i..n).find(|&j| !mat[(j, i)].is_zero()) {
+                Some(j) => {
+                    mat.0.as_slice_mut().swap(i, j);
+                    inv.0.as_slice_mut().swap(i, j);
+                },
+                None => return None,
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From 07a483729b101e50d286cd9c644c129671085448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 10/15] fix: Debug formatting of a matrix without rows
 underflowed

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 8c6169b4a98a9280628c7fb6b890f71e73377637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 11/15] fix: Display dropped matrix rows whose elements are all
 empty text

Such a row also took the top or bottom bracket with it.
---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index c0c74e6..e138b59 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -355,7 +355,7 @@ impl<T, Row, Col> Display for Matrix<T, Row, Col>
                     let len = s.lines().map(|l| str_len(l)).max().unwrap_or(0);
                     if ws[j] < len { ws[j] = len; }
 
-                    let lin = s.lines().count();
+                    let lin = cmp::max(1, s.lines().count());
                     if hs[i] < lin { hs[i] = lin; }
 
                     (s, len)
-- 
2.43.0


From e7a478ca30f0fc7b6b432fb74149d25b50fd24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 12/15] fix: prelude::Matrix2f64 was an alias of an f32 matrix

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From 60c769eebbb61003c8fa192f3d5acc2933eae370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 13/15] fix: the surplus check of collect exhausted the source
 iterator

With debug assertions, collecting from an endless iterator hung instead of
panicking, because all remaining items were counted.
---
 src/vector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e24ba68..d57af17 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -752,10 +752,10 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 arr.len = i + 1;
             }
 
-            // making this `assert_eq` slows down matrix multiplication by 7x in release build!
-            debug_assert_eq!(it.count(), 0,
-                             "Vector<_, U{0}> can only be created with exactly {0} elements.",
-                             N::to_usize());
+            // making this `assert` slows down matrix multiplication by 7x in release build!
+            debug_assert!(it.next().is_none(),
+                          "Vector<_, U{0}> can only be created with exactly {0} elements.",
+                          N::to_usize());
 
             arr.into_inner()
         };
-- 
2.43.0


From c1fcb16239b7c4aa56b88bb3f821c5a03bb04096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 14/15] fix: Vector and Matrix claimed Eq for elements that are
 only PartialEq

Vector<f32, N> implemented Eq although it is not reflexive (NaN).
---
 src/matrix/mod.rs | 2 +-
 src/vector.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index e138b59..20d7321 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
diff --git a/src/vector.rs b/src/vector.rs
index d57af17..522716b 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -206,7 +206,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0


From 8111b9810ef4df54b78f9b9f53704b017d8748e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 15/15] fix: determinant of a larger matrix with a zero pivot
 took factorial time

The cofactor expansion used when a pivot is zero visits n! products in
the worst case, so that e.g. the determinant of a 16x16 permutation
matrix never returned. Exchange rows instead, as inverse does.
---
 src/matrix/ops.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index f011785..e9d6e47 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -89,19 +89,22 @@ impl<T, U, Ba, Bb, Bc> Determinant for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         let mut mat = self.clone();
+        let mut negate = false;
 
         // http://thira.plavox.info/blog/2008/06/_c.html
         for i in 0..n {
-            for j in (i+1)..n {
-                if mat[(i, i)].is_zero() {
-                    // cannot create triangular matrix, falling back
-                    return (0 .. n)
-                        .map(|i| {
-                            self[(i, 0)].clone() * self.cofactor((i, 0))
-                        })
-                        .fold(T::zero(), Add::add);
+            // exchange rows if the pivot is zero
+            if mat[(i, i)].is_zero() {
+                match ((i+1)..n).find(|&j| !mat[(j, i)].is_zero()) {
+                    Some(j) => {
+                        mat.0.as_slice_mut().swap(i, j);
+                        negate = !negate;
+                    },
+                    None => return T::zero(),
                 }
+            }
 
+            for j in (i+1)..n {
                 let d = mat[(j, i)].clone() / mat[(i, i)].clone();
 
                 for k in 0..n {
@@ -112,7 +115,8 @@ impl<T, U, Ba, Bb, Bc> Determinant for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>
             }
         }
 
-        (0..n).map(|i| mat[(i, i)].clone()).fold(T::one(), Mul::mul)
+        let det = (0..n).map(|i| mat[(i, i)].clone()).fold(T::one(), Mul::mul);
+        if negate { T::zero() - det } else { det }
     }
 }
 
-- 
2.43.0

