From 64eef757bfe2c0f3e7bbba97e5d1878736ecb4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:34 +0000
Subject: [PATCH 01/25] fix: keep the original real part in complex *= and /=

The imaginary part was computed from the real part that had already been
overwritten, so compound multiplication and division disagreed with * and /
whenever the right operand had an imaginary part.
---
 src/math/cfloat/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..65e6e7e 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,9 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -223,8 +224,9 @@ impl DivAssign for Cf32 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
@@ -347,8 +349,9 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -358,8 +361,9 @@ impl DivAssign for Cf64 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
-- 
2.43.0


From 7e45fb60d42892ab610a9bcfe09961cdf0f10143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:34 +0000
Subject: [PATCH 02/25] fix: use the four-quadrant phase for Cf64

atan(y/x) folds the left half plane onto the right one and is undefined on
the imaginary axis. Cf32 already uses atan2.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From 6f28089a7858a1c0d1ff34767b54915c7eeee216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:26 +0000
Subject: [PATCH 03/25] fix: iterate over, print and export matrices without
 columns

Chunking the body by a zero row length panics, so the row iterators, Display
and to_csv all failed on an empty matrix.
---
 src/math/matrix/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..4e796da 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -299,7 +299,7 @@ impl<T> Matrix<T> {
     let start = i*cols;
     let end = i*cols + rows*cols;
 
-    self.body[start..end].chunks(cols)
+    self.body[start..end].chunks(cols.max(1))
   }
 
   /// Consumes the matrix and puts its body into an iterator.
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.rows_as_iter() {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -805,10 +805,7 @@ impl<T: Display + Copy> Matrix<T> {
   pub fn to_csv(&self, path: String) -> std::io::Result<()> {
     let mut file = File::create(path)?;
     
-    let data_row_len = self.get_shape()[1];
-    let data_chunks = self.get_body().chunks(data_row_len);
-
-    for row in data_chunks {
+    for row in self.rows_as_iter() {
       for val in row.into_iter() {
         write!(file, "{},", val)?;
       }
-- 
2.43.0


From 159c914fc85b744f0cfb528e0feff1600d6c38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:33 +0000
Subject: [PATCH 04/25] fix: accept exactly the columns that match and fit in
 add_col

Both guards were inverted: columns of the right length were refused, columns
of any other length were spliced in, and a matrix with spare capacity
reported an overflow.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 4e796da..0186123 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if self.shape[0] == 0 || col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 7bde3110b12c155d5f9e7a20b19fe0017ee695e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:41 +0000
Subject: [PATCH 05/25] fix: refuse rows wider than the capacity in add_mut_row

Only the current width was compared with the capacity, so the first row of a
matrix could be wider than the matrix allows. add_row already refuses it.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 0186123..8f92e11 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,11 +202,11 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || self.shape == [0, 0]) {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 783aea2c34f645b20cf2c3abdb30224fbd32a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:34 +0000
Subject: [PATCH 06/25] fix: report an empty kernel as an error in convolution

---
 src/math/matrix/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 8f92e11..d591984 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -494,6 +494,11 @@ impl<T: BasicOperations<T>> Matrix<T> {
     let k_shape = kernel.get_shape();
     let initial_shape = self.get_shape();
 
+    // check if the kernel is empty
+    if k_shape[0] == 0 || k_shape[1] == 0 {
+      return Err(OperationError::InvalidRHS)
+    }
+
     // check is the kernel is to big
     if k_shape[0] > initial_shape[0] || k_shape[1] > initial_shape[1] {
       return Err(OperationError::InvalidRHS)
-- 
2.43.0


From 79e584647603c766568398891e03a1e1127fe668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:42 +0000
Subject: [PATCH 07/25] fix: report a zero block size as an error in
 block_reduce

---
 src/math/matrix/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index d591984..3519413 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -543,6 +543,10 @@ impl<T: BasicOperations<T>> Matrix<T> {
   pub fn block_reduce(&self, block_size: &[usize], block_func: impl Fn(&[T]) -> T) -> Result<Self, OperationError> {
     let matrix_shape = self.get_shape();
 
+    if block_size[0] == 0 || block_size[1] == 0 {
+      return Err(OperationError::InconsistentShape)
+    }
+
     if matrix_shape[0] % block_size[0] != 0 || matrix_shape[1] % block_size[1] != 0 {
       return Err(OperationError::InconsistentShape)
     }
-- 
2.43.0


From 23affef097bc1cbdd1a643359ad3706aa2f1901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:55 +0000
Subject: [PATCH 08/25] fix: centre up-sampled values by the block's own width

---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 3519413..8aa0629 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -595,7 +595,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
-- 
2.43.0


From 24ac3c69a7385ae95299c879645d80af3196ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:57 +0000
Subject: [PATCH 09/25] fix: keep the shape when smoothing up-sampled maps with
 any odd kernel

---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 8aa0629..5c099aa 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -630,7 +630,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From 11a3890a5c9b68a8c0d62764f9504d8d47db2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:15 +0000
Subject: [PATCH 10/25] fix: keep random indices below the limit for every seed

---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..3d58e9b 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * *seed + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( (*seed * limit) / (m - 1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 7b8833350e31dac09f0e5c9296d7543dcc87f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:17 +0000
Subject: [PATCH 11/25] fix: accept every 128-bit seed in the random generators

---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 3d58e9b..45e7b14 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( (*seed * limit) / (m - 1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 65327d3566311d5e63db58246a22cb429a9be70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:30 +0000
Subject: [PATCH 12/25] fix: keep normally distributed weights finite for a
 zero draw

---
 src/math/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..a1caecd 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,8 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    /* a zero draw would put the logarithm at infinity */
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +284,8 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    /* a zero draw would put the logarithm at infinity */
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +408,8 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    /* a zero draw would put the logarithm at infinity */
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +445,8 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    /* a zero draw would put the logarithm at infinity */
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From 72dcab7726990a29e69f7e02880d3433526f92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:53 +0000
Subject: [PATCH 13/25] fix: correct the Wirtinger derivatives of the cardioid
 activation

---
 src/act/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..11dfe2a 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -264,11 +264,11 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -292,11 +292,11 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -320,11 +320,11 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -348,11 +348,11 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 /* modz */
-- 
2.43.0


From bef3a05fb2772b6b5ba6ab34ff99fc68403f3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:19 +0000
Subject: [PATCH 14/25] fix: divide the mean squared loss by the number of
 elements

---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From 6042a85b53a4ae423b297ee91bec9d8c93821c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:06 +0000
Subject: [PATCH 15/25] fix: derive the cross entropy loss instead of the
 squared error

---
 src/opt/mod.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 744a1d6..69b7c27 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -115,8 +115,28 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a Cf32>>(targ: T1, pred: T2) -> Vec<Cf32> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf32(targ, pred)
+  let real_targ = targ
+    .map(|elm| { elm.re() })
+    .collect::<Vec<_>>();
+  let targ_sum = real_targ.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  // Compute softmax of the prediction
+  let pred = pred.collect::<Vec<_>>();
+  let exp_map = pred.iter()
+    .map(|elm| { elm.norm_sq().exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  // the derivative of the squared norm is the conjugate
+  real_targ.into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      let s = exp / exp_sum;
+      p.conj() * Cf32::new(s * targ_sum - t, 0.0)
+    }).collect()
 }
 
 /// Real Cross Entropy Loss Function.
@@ -145,8 +165,28 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a Cf64>>(targ: T1, pred: T2) -> Vec<Cf64> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf64(targ, pred)
+  let real_targ = targ
+    .map(|elm| { elm.re() })
+    .collect::<Vec<_>>();
+  let targ_sum = real_targ.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  // Compute softmax of the prediction
+  let pred = pred.collect::<Vec<_>>();
+  let exp_map = pred.iter()
+    .map(|elm| { elm.norm_sq().exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  // the derivative of the squared norm is the conjugate
+  real_targ.into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      let s = exp / exp_sum;
+      p.conj() * Cf64::new(s * targ_sum - t, 0.0)
+    }).collect()
 }
 
 /// List of possible loss function to use.
-- 
2.43.0


From 4a6d958d90c5c174a79231cc5c753c9600ef85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:17 +0000
Subject: [PATCH 16/25] fix: propagate the full loss derivative through
 convolutional layers

The loss derivative in respect to the input has two terms, one from the
derivative and one from the conjugate derivative of the layer above. They
were passed on separately, so the layer below received neither the
derivative nor its conjugate. Add them up and conjugate the sum, as the
dense layer does.
---
 src/cvnn/layer/conv.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..6037c72 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -213,7 +213,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let mut dldk = Vec::new();
         let mut dldb = Vec::new();
         let mut new_dlda = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
-        let mut new_dlda_conj = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
         let filters = self.kernels.rows_as_iter();
         filters.for_each(|filter| {
           /* collecting loss derivatives to matrices */
@@ -290,10 +289,13 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
           let ((dldk_filter, dldb_filter), (new_dlda_acc, new_dlda_conj_acc)) = (oper_a(), oper_b());
           dldk.extend(dldk_filter);
           dldb.push(dldb_filter.into_iter().reduce(|acc, elm| { acc + elm }).unwrap());
+          /* both terms belong to the derivative in respect to the input */
           new_dlda.add_slice_mut(&new_dlda_acc).unwrap();
-          new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
+          new_dlda.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From b449567819b49bd631ce1608aea5585f2f9e1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:29 +0000
Subject: [PATCH 17/25] fix: check the number of channels before reading the
 first one

An input without any feature map made the convolutional layer panic
instead of being reported as an invalid input.
---
 src/cvnn/layer/conv.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 6037c72..bcebb05 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -115,6 +115,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
       IOType::Matrix(input) => {
         let kernels_shape = self.kernels.get_shape();
         let channels = kernels_shape[1];
+
+        let input_features_len = input.len();
+        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         let func = &self.func;
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
@@ -122,9 +126,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-        let input_features_len = input.len();
-        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
-
         let output_features = self.kernels
           //.rows_as_par_chunks()
           .rows_as_iter()
-- 
2.43.0


From 56eb126965589e9aeb3b176ef0a366390c9c32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:03 +0000
Subject: [PATCH 18/25] fix: report an invalid index when intercepting an empty
 network

The bound was computed as the number of layers minus one, which
underflows for a network without layers.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..07a7890 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -121,7 +121,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From 98cd323f5dd649c7d53a7e3d035db625f653775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:04 +0000
Subject: [PATCH 19/25] fix: report a missing input layer in CNetwork::add

Adding a layer to a network without an input layer panicked. Return the
error that already exists for this case.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 07a7890..525fab0 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,7 +78,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
-    let last_layer_out = self.layers.last().unwrap().get_output_shape();
+    let last_layer_out = self.get_output_shape()?;
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
     self.layers.push(layer);
-- 
2.43.0


From 767c2d16bcbd118ef246388fb6bb6f2f98a469c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:06 +0000
Subject: [PATCH 20/25] fix: treat layers without inputs or filters as not
 initialized

Dense layers without inputs and convolutional layers without filters or
channels have no weights at all, but only layers lacking both dimensions
were recognised, so such layers could be added to a network.
---
 src/cvnn/layer/conv.rs  | 2 +-
 src/cvnn/layer/dense.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index bcebb05..df7d2aa 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -20,7 +20,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
   /// 
   /// This function will soon be deleted.
   pub fn is_empty(&self) -> bool {
-    if self.kernels.get_shape() == &[0, 0] { true }
+    if self.kernels.get_shape().contains(&0) { true }
     else { false }
   }
 
diff --git a/src/cvnn/layer/dense.rs b/src/cvnn/layer/dense.rs
index 474d566..170164d 100644
--- a/src/cvnn/layer/dense.rs
+++ b/src/cvnn/layer/dense.rs
@@ -25,7 +25,7 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
   /// 
   /// This function will soon be deleted.
   pub fn is_empty(&self) -> bool {
-    if (self.weights.get_shape() == [0_usize, 0]) || (self.biases.len() == 0) {
+    if self.weights.get_shape().contains(&0) || (self.biases.len() == 0) {
       true
     } else {
       false
-- 
2.43.0


From e0dcab02f463cb5dcc83a09b4427d1c97da3a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:57 +0000
Subject: [PATCH 21/25] fix: report an index equal to the size in gen_pred

A one-hot vector of a given size has no element at that index, so the
call panicked instead of returning the overflow error.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index a1caecd..71f3218 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -296,7 +296,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -458,7 +458,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From 9dfdf588f88da73604ddac76745789d39a16a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:33 +0000
Subject: [PATCH 22/25] fix: stop image batches at the end of the data and
 complete short reads

---
 src/dataset/mod.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..d7bd6f2 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -3,7 +3,7 @@
 
 use std::fmt::Display;
 use std::{fmt::Debug, fs::File, slice::Iter, vec::IntoIter};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use crate::math::cfloat::Cf32;
 use crate::math::random::{lcgf32, lcgi};
@@ -96,6 +96,15 @@ const MINIST_TRAIN_LABEL_SIZE: usize = MINIST_TRAIN_POINTS + 8;
 const _MINIST_TEST_LABEL_SIZE: usize = 4542;
 const MINIST_IMAGE_DIMS: (usize, usize) = (28, 28);
 
+/// Fills the whole buffer from the file. Returns false if the file ends before.
+fn read_whole(file: &mut File, buffer: &mut [u8]) -> bool {
+  match file.read_exact(buffer) {
+    Ok(()) => true,
+    Err(err) if err.kind() == ErrorKind::UnexpectedEof => false,
+    Err(err) => panic!("Could not read the data: {}", err)
+  }
+}
+
 impl<T: Real + BasicOperations<T>> Dataset<T, T> {
   /// To extract a batch of real pixels from MINIST training or test dataset.
   pub fn minist_as_batch(
@@ -108,9 +117,12 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      let has_data = read_whole(data_file, &mut [0u8; 16]);
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      if !has_data || !read_whole(label_file, &mut [0u8; 8]) {
+        return Dataset::new();
+      }
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -119,8 +131,11 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* stop at the end of the data */
+      if !read_whole(data_file, image_buffer) || !read_whole(label_file, label_buffer) {
+        break;
+      }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -143,9 +158,12 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      let has_data = read_whole(data_file, &mut [0u8; 16]);
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      if !has_data || !read_whole(label_file, &mut [0u8; 8]) {
+        return Dataset::new();
+      }
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -154,8 +172,11 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* stop at the end of the data */
+      if !read_whole(data_file, image_buffer) || !read_whole(label_file, label_buffer) {
+        break;
+      }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From e225962323c83b214dd868a6b6355747593a1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:13 +0000
Subject: [PATCH 23/25] fix: reconstruct signals with an odd number of samples

---
 src/dataset/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index d7bd6f2..f741322 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -299,7 +299,8 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        /* the last point has no pair when the number of samples is odd */
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -317,11 +318,12 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(train_seed);
         
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        /* the last point has no pair when the number of samples is odd */
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -339,7 +341,7 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(test_seed);
 
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
 
       // add to the dataset
-- 
2.43.0


From 5fb70552e75fe59363aa1162c59a60225ae0447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:33 +0000
Subject: [PATCH 24/25] fix: keep reconstructed signals finite for a zero draw

---
 src/dataset/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index f741322..582a37e 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -308,7 +308,8 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        // a zero draw would put the logarithm at infinity
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -331,7 +332,8 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        // a zero draw would put the logarithm at infinity
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
-- 
2.43.0


From c76e0edebf74e27daab6777029aaa1b6bcc42f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:29 +0000
Subject: [PATCH 25/25] fix: report outputs of different lengths instead of
 comparing a prefix

---
 src/opt/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 69b7c27..37faec1 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -249,6 +249,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -263,6 +265,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -283,6 +287,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -297,6 +303,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -317,6 +325,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -330,6 +340,8 @@ impl ComplexLossFunc {
               .iter().flat_map(|elm| { elm.get_body() });
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
+
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
             
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
@@ -351,6 +363,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -364,6 +378,8 @@ impl ComplexLossFunc {
               .iter().flat_map(|elm| { elm.get_body() });
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
+
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
             
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
-- 
2.43.0

