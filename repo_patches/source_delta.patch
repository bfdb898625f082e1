From e413d8ed2771e9d3ada731f027100127738f4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 1/8] fix: Cholesky decomposition no longer reports success on
 a NaN pivot

A comparison with NaN is false, so `sum <= 0` let NaN pivots pass, e.g. for
[[1e-38, 0, 1e38], [0, 1, 0], [1e38, 0, 1]], and returned a NaN factor.
---
 crates/minikalman/src/matrix/traits.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..bb826f2 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -1147,8 +1147,9 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
 
                 t[idx!(j * n + i)] = sum * div_el_ii;
                 if i == j {
-                    // is it positive-definite?
-                    if sum <= T::zero() {
+                    // is it positive-definite? (a NaN pivot is not)
+                    let is_positive = sum > T::zero();
+                    if !is_positive {
                         return false;
                     }
 
-- 
2.43.0


From ce972e10c1f9d01c21b9f9f6e4df01c6a818a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 2/8] fix: get_row_copy reads the requested row

The index of the row's last element is (row + 1) * cols - 1, not
(row + 1) * (cols - 1): every row but the first was read from the wrong place.
---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index bb826f2..c51a6be 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = (row + 1) * self.cols() - 1;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From 17d43d3799c520d45bcec02a5e0ff06aa95dcf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 3/8] fix: set_all, set_zero and clear only touch the matrix'
 own elements

A matrix over a larger buffer had the memory behind it overwritten as well.
---
 crates/minikalman/src/matrix/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index c51a6be..2a16e35 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -992,7 +992,8 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
-        self.as_mut_slice().fill(value);
+        let count = self.len();
+        self.as_mut_slice()[..count].fill(value);
     }
 
     /// Sets all elements of the matrix to the provided value.
-- 
2.43.0


From 5221efe89dba1212c474943d33defb75ecf7c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 4/8] fix: operations on empty matrices no longer panic

copy_to, invert_l_cholesky, mult_rowvector, multadd_rowvector, get_row_copy and
get_column_copy (and thereby mult_buffered) subtracted one from a zero size or
read the first element of an empty operand.
---
 crates/minikalman/src/matrix/traits.rs | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 2a16e35..11ac9e3 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -74,6 +74,11 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
+        // nothing to copy from a column without elements.
+        if self.rows() == 0 {
+            return;
+        }
+
         // start from the back, so target index is equal to the index of the last row.
         let mut target_index: isize = (self.rows() - 1) as _;
 
@@ -104,6 +109,11 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
+        // nothing to copy from a row without elements.
+        if self.cols() == 0 {
+            return;
+        }
+
         let mut target_index: usize = (self.cols() - 1) as _;
         let mut source_index: usize = (row + 1) * self.cols() - 1;
 
@@ -151,7 +161,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let adata = self.as_slice();
         let bdata = target.as_mut_slice();
 
-        for index in (0..=(count - 1)).rev() {
+        for index in (0..count).rev() {
             bdata[idx!(index)] = adata[idx![index]];
         }
     }
@@ -371,13 +381,10 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let cdata = c.as_mut_slice();
 
         let mut index_a: usize = 0;
-        let b0 = xdata[0];
 
         for index_c in 0..arows {
-            let mut total = adata[idx!(index_a)] * b0;
-            index_a += 1;
-
-            for j in 1..acols {
+            let mut total = T::zero();
+            for j in 0..acols {
                 total += adata[idx!(index_a)] * xdata[idx!(j)];
                 index_a += 1;
             }
@@ -423,13 +430,10 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let cdata = c.as_mut_slice();
 
         let mut index_a: usize = 0;
-        let b0 = xdata[0];
 
         for index_c in 0..arows {
-            let mut total = adata[idx!(index_a)] * b0;
-            index_a += 1;
-
-            for j in 1..acols {
+            let mut total = T::zero();
+            for j in 0..acols {
                 total += adata[idx!(index_a)] * xdata[idx!(j)];
                 index_a += 1;
             }
@@ -796,7 +800,7 @@ pub trait SquareMatrix<const N: usize, T = f32>: RowMajorSequentialData<N, N, T>
 
         // Solve the system and handle the previous solution being in the upper triangle
         // takes advantage of symmetry.
-        for i in (0..=(n - 1)).rev() {
+        for i in (0..n).rev() {
             let el_ii = mat[idx!(i * n + i)];
             let inv_el_ii = el_ii.recip();
             for j in 0..=i {
-- 
2.43.0


From ebdba45f62726d01f003cfa47c74339dbfdd180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 5/8] fix: Cholesky decomposition does not scale the diagonal
 by a stale factor

The value was overwritten right after, but computing it can overflow: with 16.16
fixed-point numbers diag(0.0001, 1000) panicked although its factor is tiny.
---
 crates/minikalman/src/matrix/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 11ac9e3..16d3d84 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -1150,7 +1150,6 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                     j_el += 1;
                 }
 
-                t[idx!(j * n + i)] = sum * div_el_ii;
                 if i == j {
                     // is it positive-definite? (a NaN pivot is not)
                     let is_positive = sum > T::zero();
@@ -1161,6 +1160,8 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                     let el_ii = sum.square_root();
                     t[idx!(i * n + i)] = el_ii;
                     div_el_ii = el_ii.recip();
+                } else {
+                    t[idx!(j * n + i)] = sum * div_el_ii;
                 }
             }
         }
-- 
2.43.0


From 4993f6c73dcb0558a15a35db9ad88c3055fba6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 6/8] fix: the nalgebra view of an undersized array no longer
 reads outside of it

MatrixData::new_array does not check the array's length, so safe code could make
nalgebra read past its end.
---
 crates/minikalman/src/matrix/nalgebra_support.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..22a3d29 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -46,6 +46,12 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     fn ptr(&self) -> *const T {
+        // nalgebra reads ROWS x COLS elements through this pointer, and the array may have
+        // been constructed without a size check.
+        assert!(
+            ROWS * COLS <= TOTAL,
+            "the array is too small for the matrix"
+        );
         self.as_slice().as_ptr()
     }
 
-- 
2.43.0


From a8d7c7ef7a9bffa5c1c29764a133731a59ed55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 7/8] fix: the libm and micromath features can be enabled
 together

Without std neither backend was selected, so the crate (whose default features
include libm) did not compile with micromath added. libm takes precedence.
---
 crates/minikalman/src/matrix/data_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/minikalman/src/matrix/data_type.rs b/crates/minikalman/src/matrix/data_type.rs
index db57526..3298e56 100644
--- a/crates/minikalman/src/matrix/data_type.rs
+++ b/crates/minikalman/src/matrix/data_type.rs
@@ -57,7 +57,7 @@ impl MatrixDataType for f32 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -73,7 +73,7 @@ impl MatrixDataType for f32 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrtf(self)
         }
@@ -92,7 +92,7 @@ impl MatrixDataType for f64 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -108,7 +108,7 @@ impl MatrixDataType for f64 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrt(self)
         }
-- 
2.43.0


From 088d23370f8f0d6a139c983806361966cdac8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 8/8] fix: the nalgebra view no longer requires std

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 22a3d29..99229e8 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -72,7 +72,7 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     unsafe fn as_slice_unchecked(&self) -> &[T] {
-        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
+        core::slice::from_raw_parts(self.ptr(), ROWS * COLS)
     }
 }
 
-- 
2.43.0

