From 81a50f516714afac9c118ec89f27d6508f6fa3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:20 +0000
Subject: [PATCH 01/37] fix: saturate factorial instead of overflowing for
 arguments above 20

---
 utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/src/lib.rs b/utils/src/lib.rs
index 855aec4..7e47e86 100644
--- a/utils/src/lib.rs
+++ b/utils/src/lib.rs
@@ -70,7 +70,7 @@ pub mod utils {
     pub const fn factorial(n: u8) -> u64 {
         match n {
             0 | 1 => 1,                         // Check for base cases: factorial of 0 and 1 is 1.
-            _ => n as u64 * factorial(n - 1),   // Recursive call to calculate the factorial for n greater than 1.
+            _ => (n as u64).saturating_mul(factorial(n - 1)),   // Recursive call to calculate the factorial for n greater than 1 (saturates when the result does not fit).
         }
     }
 
-- 
2.43.0


From ec15429503dc04aa5369687186bb68543ec63234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:38 +0000
Subject: [PATCH 02/37] fix: keep a container unchanged when reinit refuses the
 requested size

---
 linalg/src/matrix.rs | 3 +++
 linalg/src/vector.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 94b4187..2a1b24f 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -63,6 +63,9 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check the new number of rows before changing anything.
+        is_valid_cols_number(cols)?;    // Check the new number of columns before changing anything.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows, cols)?;     // Reinitialize the matrix.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c92fad8..3a45c09 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -49,6 +49,8 @@ impl<T: Default + Copy> Vector<T> {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check the new number of rows before changing anything.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows)?;           // Reinitialize the vector.
-- 
2.43.0


From 6bb9d4cf90193cb53f45ceeeedf3b37d7b61faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:08 +0000
Subject: [PATCH 03/37] fix: report an error for operations on uninitialised
 vectors and matrices

---
 linalg/src/matrix.rs | 24 +++++++++++++++---------
 linalg/src/vector.rs | 12 ++++++------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 2a1b24f..ad091b7 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -373,7 +373,7 @@ impl Matrix {
 
     /// This method is used to delete a row of a matrix of size m x n and save the deleted row into a vector of size n x 1. The result is a matrix of size m-1 x n.
     pub fn del_row(self: &mut Self, row: u8) -> Result<Vector<f32>, LinalgError> {
-        let rows = self.rows - 1;   // Calculate the new rows number.
+        let rows = self.get_rows()? - 1;   // Calculate the new rows number.
 
         is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
         is_valid_rows_number(rows)?;    // Check that the new number of rows is not zero.
@@ -465,7 +465,7 @@ impl Matrix {
     /// This method is used to fill an entire matrix of size m x n with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
         // Assign the value to each element of the matrix.
-        for row in 0..self.rows {                   // Iterate for each row of the matrix.
+        for row in 0..self.get_rows()? {                   // Iterate for each row of the matrix.
             for col in 0..self.cols {               // Iterate for each column of the matrix.
                 self.set_element(row, col, value)?; // Set the value.
             }
@@ -665,7 +665,7 @@ impl Matrix {
     // This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the matrix.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             // Iterate for each column of the matrix.
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? + scalar; // Perform addition.
@@ -783,7 +783,7 @@ impl Matrix {
     // This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the matrix.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             // Iterate for each column of the matrix.
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? - scalar; // Perform subtraction.
@@ -814,6 +814,12 @@ impl Matrix {
     /// This method is used to perform the matrix multiplication operation on two matrices of sizes m x n and (n x k) respectively.
     // Naive implementation, as it is not very efficient for large matrices (for larger matrices, use the "divide and conquer" strategy).
     pub fn mul(self: &mut Self, matrix1: &Self, matrix2: &Self) -> Result<(), LinalgError> {
+        // Check that the matrices are initialized.
+        if !self.initialized || !matrix1.initialized || !matrix2.initialized {
+            // At least one of the matrices is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         if matrix1.cols != matrix2.rows || self.rows != matrix1.rows || self.cols != matrix2.cols {
             return Err(LinalgError::InvalidSize)    // Return an error.
         }
@@ -941,7 +947,7 @@ impl Matrix {
     /// This method is used to multiply by a scalar all elements of a matrix of size m x n.
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate through each element and multiply it by the scalar.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? * scalar;
                 self.set_element(row, col, element)?;
@@ -954,7 +960,7 @@ impl Matrix {
     /// This method is used to apply an exponent to all elements of a matrix of size m x n.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
         // Iterate through each element and apply exponent.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 let element = powf(self.get_element(row, col)?, exponent);
                 self.set_element(row, col, element)?;
@@ -1220,7 +1226,7 @@ impl Matrix {
     /// This method is used to check if a matrix of size m x n is upper triangular.
     pub fn is_upper_triangular(self: &Self) -> Result<bool, LinalgError> {
         // Loops on every row except the first (which doesn't need to have null elements).
-        for row in 1..self.rows {
+        for row in 1..self.get_rows()? {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
             for col in 0..row {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
@@ -1236,7 +1242,7 @@ impl Matrix {
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
         // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.rows - 1 {
+        for row in 0..self.get_rows()? - 1 {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
@@ -1254,7 +1260,7 @@ impl Matrix {
         let mut frobenius_norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 frobenius_norm += self.get_element(row, col)? * self.get_element(row, col)?;
             }
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 3a45c09..690c978 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -178,7 +178,7 @@ impl Vector<f32> {
     /// This method is used to fill an entire vector of size m x 1 with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
         // Assign the value to each element of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             self.set_element(row, value)?;  // Set the value.
         }
 
@@ -322,7 +322,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? + scalar;  // Perform addition.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -420,7 +420,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? - scalar;  // Perform subtraction.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -450,7 +450,7 @@ impl Vector<f32> {
         let mut norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             norm += self.get_element(row)? * self.get_element(row)?;
         }
 
@@ -503,7 +503,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate through each element and multiply it by the scalar.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? * scalar;  // Peform multiplication.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -636,7 +636,7 @@ impl Vector<f32> {
     /// This method is used to apply an exponent to all elements of a vector of size m x 1.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
         // Iterate through each element and apply exponent.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = powf(self.get_element(row)?, exponent);
             self.set_element(row, element)?;
         }
-- 
2.43.0


From 66fdabcf075e9300445834de996035c46bb08b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:09 +0000
Subject: [PATCH 04/37] fix: validate add_row and add_col arguments before
 growing the matrix

---
 linalg/src/matrix.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index ad091b7..24a9a48 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -337,6 +337,14 @@ impl Matrix {
 
         is_valid_rows_number(rows)?;    // Check that the new number of rows does not exceed M_MAX.
 
+        is_valid_row(row, rows)?;       // Check that the position of the new row is valid.
+
+        // Check that the number of columns in the matrix is the same as the number of rows in the vector.
+        if self.cols != vect.get_rows()? {
+            // The number of columns in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         self.set_rows(rows)?;   // Update it.
 
         // Shift current matrix elements.
@@ -357,6 +365,14 @@ impl Matrix {
 
         is_valid_cols_number(cols)?;    // Check that the new number of columns does not exceed N_MAX.
 
+        is_valid_col(col, cols)?;       // Check that the position of the new column is valid.
+
+        // Check that the number of rows in the matrix is the same as the number of rows in the vector.
+        if self.rows != vect.get_rows()? {
+            // The number of rows in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         self.set_cols(cols)?;   // Update it.
 
         // Shift current matrix elements.
-- 
2.43.0


From e86669504942be0f25fcb7db54af7bd39cab4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:10 +0000
Subject: [PATCH 05/37] fix: make the triangular tests correct for rectangular
 matrices

---
 linalg/src/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 24a9a48..7e379a1 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1244,7 +1244,7 @@ impl Matrix {
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.get_rows()? {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
-            for col in 0..row {
+            for col in 0..min(row, self.cols) {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
                 if !allclose(self.get_element(row, col)?, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Ok(false);   // Return the result with no error.
@@ -1257,8 +1257,8 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
-        // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.get_rows()? - 1 {
+        // Loops on every row.
+        for row in 0..self.get_rows()? {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From 4178c53d79351217d87f567b6925ac9cc7c157a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:12 +0000
Subject: [PATCH 06/37] fix: size the R factor of qr_decomp for rectangular
 matrices

---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 7e379a1..fe79f31 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1186,7 +1186,7 @@ impl Matrix {
         q.copy_from(&self)?;
 
         let mut r: Matrix = Matrix::new();
-        r.init(self.rows, self.cols)?;
+        r.init(self.cols, self.cols)?;
 
         let mut tmp: Matrix = Matrix::new();
         tmp.init(self.rows, self.cols)?;
-- 
2.43.0


From 1075e0b69de98c9f840baef69f72c5f3189b8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:13 +0000
Subject: [PATCH 07/37] fix: refuse to factorise a matrix that is not square in
 lup

---
 linalg/src/linalg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 7cf2635..c2f0878 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -5,6 +5,12 @@ use libm::{fabsf, sqrtf};
 
 /// This function is used to perform LU decomposition of a matrix.
 pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
+    // Check that the matrix is square.
+    if !mat.is_square()? {
+        // The matrix is not square.
+        return Err(LinalgError::NotSquare); // Return an error.
+    }
+
     // Create the LU matrix.
     let mut lu = Matrix::new();
     lu.init(mat.get_rows()?, mat.get_cols()?)?;
-- 
2.43.0


From e6d0c9f341b074d69d410a524234413cbb3c771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:14 +0000
Subject: [PATCH 08/37] fix: do not underflow in the shifted eigen iteration of
 a 1 x 1 matrix

---
 linalg/src/linalg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index c2f0878..dc58b27 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -143,7 +143,8 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
         let mut tmp = Matrix::new();    // Create a new matrix.
         tmp.init(m, m)?;                // Initialize the new matrix with the same size as the input matrix.
 
-        if shifted {
+        // The shift is computed from the trailing 2 x 2 block, which does not exist for a 1 x 1 matrix.
+        if shifted && m > 1 {
             // Apply Wilkinson shift method to determine the shift.
             let a_ = a.get_element(m - 2, m - 2)?;
             let b = a.get_element(m - 2, m - 1)?;
-- 
2.43.0


From 44df1e9353b7c5b493b8ca21478caee0361293ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:20 +0000
Subject: [PATCH 09/37] fix: refuse direction cosine matrices that are not 3 x
 3

---
 quaternion/src/quaternion.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 7d99291..1f50b5f 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -516,6 +516,11 @@ impl Quaternion for Vector<f32> {
             return Err(LinalgError::InvalidSize);   // Return an error.
         }
 
+        // Check that the size of the direction cosine matrix is 3x3.
+        if dcm.get_rows()? != 3 || dcm.get_cols()? != 3 {
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         /*
         // Caution! Very costly in computing resources.
         if !dcm.is_orthogonal()? {
@@ -581,6 +586,11 @@ impl Quaternion for Vector<f32> {
             return Err(LinalgError::InvalidSize);   // Return an error.
         }
 
+        // Check that the size of the direction cosine matrix is 3x3.
+        if dcm.get_rows()? != 3 || dcm.get_cols()? != 3 {
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         /*
         // Caution! Very costly in computing resources.
         if !dcm.is_orthogonal()? {
@@ -630,6 +640,11 @@ impl Quaternion for Vector<f32> {
             return Err(LinalgError::InvalidSize);   // Return an error.
         }
 
+        // Check that the size of the direction cosine matrix is 3x3.
+        if dcm.get_rows()? != 3 || dcm.get_cols()? != 3 {
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         /*
         // Caution! Very costly in computing resources.
         if !dcm.is_orthogonal()? {
-- 
2.43.0


From ac5c0f8b0331944e093f662d04134483e6ed8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:32 +0000
Subject: [PATCH 10/37] fix: refuse a right-hand side of the wrong size in
 solve

---
 linalg/src/linalg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index dc58b27..0bb0962 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -65,6 +65,12 @@ pub fn solve(mat: &Matrix, b: &Vector<f32>, p: &Vector<u8>) -> Result<Vector<f32
         return Err(LinalgError::NotSquare); // Return an error.
     }
 
+    // Check that the right-hand side has as many rows as the matrix.
+    if b.get_rows()? != mat.get_rows()? {
+        // The right-hand side does not have the same number of rows as the matrix.
+        return Err(LinalgError::NotSameSize);   // Return an error.
+    }
+
     let mut x: Vector<f32> = Vector::new();
     x.init(mat.get_rows()?)?;
 
-- 
2.43.0


From 9cb0409abcd3700c0c6efca51f849cd136070e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:17 +0000
Subject: [PATCH 11/37] fix: pick the largest pivot of the current column in
 lup

---
 linalg/src/linalg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 0bb0962..82dcb05 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -28,7 +28,7 @@ pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
         let mut row_max = row;
 
         for col in (row + 1)..mat.get_cols()? {
-            if lu.get_element(p.get_element(col)?, row)? > lu.get_element(p.get_element(row_max)?, 0)? {
+            if fabsf(lu.get_element(p.get_element(col)?, row)?) > fabsf(lu.get_element(p.get_element(row_max)?, row)?) {
                 row_max = col;
             }
         }
-- 
2.43.0


From 574985b7edd54fa15d1651426d4eadd474aa7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:19 +0000
Subject: [PATCH 12/37] fix: take the sign of the row permutation in det from
 its parity

---
 linalg/src/matrix.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index fe79f31..b4fc601 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1303,15 +1303,17 @@ impl Matrix {
             determinant *= lu.get_element(p.get_element(row)?, row)?;
         }
 
-        let mut col: u8 = 0;
+        let mut inversions: u8 = 0;
 
         for row in 0..self.rows {
-            if p.get_element(row)? != row {
-                col += 1;
+            for col in (row + 1)..self.rows {
+                if p.get_element(row)? > p.get_element(col)? {
+                    inversions += 1;
+                }
             }
         }
 
-        if col != 0 && (col - 1) % 2 == 1 {
+        if inversions % 2 == 1 {
             determinant = -determinant;
         }
 
-- 
2.43.0


From e813cd8e963196df1a850c0a2ca69635237fae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:20 +0000
Subject: [PATCH 13/37] fix: build complex numbers from the given parts

---
 dsp/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 866bac9..772d865 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -34,8 +34,8 @@ impl Complex {
         is_valid_value(im)?;    // Check that the imaginary part value is valid.
 
         let z = Self {
-            re: 0.0,    // Default real part value of the complex number.
-            im: 0.0,    // Default imaginary part valueof the complex number.
+            re: re, // Real part value of the complex number.
+            im: im, // Imaginary part value of the complex number.
         };
 
         Ok(z)   // Return no error.
-- 
2.43.0


From 78276764d618d0face8460df6d9572bba7f54681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:22 +0000
Subject: [PATCH 14/37] fix: restart the inner product for every element in lr

---
 linalg/src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index b4fc601..d767c27 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1057,6 +1057,8 @@ impl Matrix {
 
         for col in 0..n {
             for j in col..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * r.get_element(k, j)?;
                 }
-- 
2.43.0


From 582b94e1693b5764d492db2d9a3fae19be346026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:23 +0000
Subject: [PATCH 15/37] fix: accept matrices with usable pivots in lu_crout and
 restart its inner products

---
 linalg/src/matrix.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index d767c27..9b7e25f 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1127,6 +1127,8 @@ impl Matrix {
         for row in 0..n {
             // Step 1 - Find U.
             for col in row..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(row, k)? * u.get_element(k, col)?;
                 }
@@ -1136,10 +1138,10 @@ impl Matrix {
                 u.set_element(row, col, element)?;
             }
 
-            sum = 0.0;
-
             // Step 2 - Find L using U.
             for col in (row+1)..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * u.get_element(k, row)?;
                 }
@@ -1147,7 +1149,7 @@ impl Matrix {
                 let u_element = u.get_element(row, row)?;
 
                 // The matrix A may be singular (non-invertible) or poor conditionned (due to numerical errors).
-                if !allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+                if allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Err(LinalgError::Singular);  // Return an error (avoid a division by 0).
                 }
 
-- 
2.43.0


From 838c3d2a29befe4884d62ddd09bc9e1c9e652ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:25 +0000
Subject: [PATCH 16/37] fix: do not call a matrix with a zero leading minor
 positive definite

---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 9b7e25f..a941300 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1508,7 +1508,7 @@ impl Matrix {
             }
 
             // Check the determinant of the submatrix.
-            if tmp.det()? < 0.0 {
+            if tmp.det()? <= 0.0 {
                 return Ok(false);
             }
         }
-- 
2.43.0


From f36ac1141589c0381291d7042126d4df292f371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:27 +0000
Subject: [PATCH 17/37] fix: leave the upper triangle of the Cholesky factor at
 zero

---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index a941300..0f5ac31 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1568,7 +1568,7 @@ impl Matrix {
                 l.set_element(col, col, EPSILON)?;
             }
 
-            for row in 0..self.rows {
+            for row in col..self.rows {
                 let mut s2: f32 = 0.0;
 
                 for k in 0..col {
-- 
2.43.0


From f953ca1d24d8f8d16bd380cdf06c2aa2331238b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:32 +0000
Subject: [PATCH 18/37] fix: report an error when the eigen iteration has not
 converged

---
 linalg/src/linalg.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 82dcb05..70c477f 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -205,11 +205,21 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
 
         // Calculate the relative variation in eigenvalues.
         delta_eigenvalues.sub(&eigenvalues, &previous_eigenvalues)?;
-        let relative_variation = delta_eigenvalues.calculate_norm()? / eigenvalues.calculate_norm()?;
+        let variation = delta_eigenvalues.calculate_norm()?;
+        let norm = eigenvalues.calculate_norm()?;
+
+        // Calculate what remains below the diagonal (it affects the eigenvalues quadratically).
+        let mut residual: f32 = 0.0;
+
+        for row in 1..m {
+            for col in 0..row {
+                residual += a.get_element(row, col)? * a.get_element(row, col)?;
+            }
+        }
 
         // Check for convergence.
-        if relative_variation < EPSILON {
-            break;
+        if variation <= EPSILON * norm && residual <= EPSILON * norm * norm {
+            return Ok((eigenvalues, eigenvectors)); // Return eigen values and eigen vectors of the matrix with no error.
         } else {
             // Update the previous eigenvalues for the next iteration.
             for k in 0..m {
@@ -219,7 +229,7 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
         }
     }
 
-    Ok((eigenvalues, eigenvectors)) // Return eigen values and eigen vectors of the matrix with no error.
+    Err(LinalgError::Unsolvable)    // The maximum number of iterations has been reached before converging.
 }
 
 /*
-- 
2.43.0


From 90daa6c5ffbff39c7faa95b6bdabff76f1dc5294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:00 +0000
Subject: [PATCH 19/37] fix: let Chiaverini's conversion return vector
 components above sqrt(1/2)

The sum under the root lies in [0, 4], so clipping the diagonal difference at
1 cut every component with a square above one half.
---
 quaternion/src/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 1f50b5f..647dca6 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -613,9 +613,9 @@ impl Quaternion for Vector<f32> {
         let dcm_12 = dcm.get_element(0, 1)?;
 
         let qw = 0.5 * sqrtf(trace + 1.0);
-        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 1.0) + 1.0);
-        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 1.0) + 1.0);
-        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 1.0) + 1.0);
+        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
+        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
+        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
 
         // Fill the quaternion.
         self.set_element(0, qw)?;
-- 
2.43.0


From e10b8ccf15da64b85c553eec4906a2b70671e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:01 +0000
Subject: [PATCH 20/37] fix: keep the pitch angle finite at gimbal lock

Rounding can push the sine of the pitch just past one, where asin is NaN.
---
 quaternion/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 647dca6..216e092 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -752,7 +752,7 @@ impl Quaternion for Vector<f32> {
         let qz = self.get_qz()?;
 
         let phi = atan2f(2.0*(qw*qx + qy*qz), 1.0 - 2.0*(qx*qx + qy*qy));   // Calculate roll angle.
-        let theta = asinf(2.0*(qw*qy - qz*qx));                             // Calculate pitch angle.
+        let theta = asinf(clip(2.0*(qw*qy - qz*qx), -1.0, 1.0));            // Calculate pitch angle.
         let psi = atan2f(2.0*(qw*qz + qx*qy), 1.0 - 2.0*(qy*qy + qz*qz));   // Calculate yaw angle.
 
         // Store each angle in the vector.
-- 
2.43.0


From ce7681dd2aeb46c8651fb04260ef9779f7d55a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:02 +0000
Subject: [PATCH 21/37] fix: take the exponential of the real part of a real
 quaternion

---
 quaternion/src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 216e092..f8856f5 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -453,7 +453,7 @@ impl Quaternion for Vector<f32> {
     fn exp(self: &mut Self) -> Result<(), LinalgError> {
         // Check if the quaternion is real.
         if self.is_real()? {
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
+            self.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(());  // Return no error.
         }
@@ -483,7 +483,7 @@ impl Quaternion for Vector<f32> {
 
         // Check if the quaternion is real.
         if self.is_real()? {
-            q_exp.fillq(1.0, 0.0, 0.0, 0.0)?;
+            q_exp.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(q_exp);   // Return the result with no error.
         }
-- 
2.43.0


From 8b64d157521f86b7588e115d532e38161f51d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:04 +0000
Subject: [PATCH 22/37] fix: test for a pure quaternion before the in-place
 exponential overwrites it

---
 quaternion/src/quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index f8856f5..ed649b8 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -458,6 +458,7 @@ impl Quaternion for Vector<f32> {
             return Ok(());  // Return no error.
         }
 
+        let is_pure = self.is_pure()?;          // Must be known before the quaternion is overwritten.
         let qw = self.get_element(0)?;          // Retrieve real part of the quaternion.
         let mut qv = self.get_vector_part()?;   // Retrieve vector part of the quaternion.
         let qv_norm = qv.calculate_norm()?;     // Calculate its norm.
@@ -468,7 +469,7 @@ impl Quaternion for Vector<f32> {
         self.fillq(cosf(qv_norm), qv.get_element(0)?, qv.get_element(1)?, qv.get_element(2)?)?;
 
         // Check if the quaternion is pure.
-        if self.is_pure()? {
+        if is_pure {
             return Ok(());  // Return no error.
         }
 
-- 
2.43.0


From 89d058ed2d1e3f53600d9eeef03a1d39dc2493b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:50 +0000
Subject: [PATCH 23/37] fix: accept half turns with a diagonal element rounded
 below -1 in Hughes's conversion

---
 quaternion/src/quaternion.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index ed649b8..71ad443 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -553,6 +553,12 @@ impl Quaternion for Vector<f32> {
             let mut e = dcm.diag(None)?;
             e.add_scalar_in_place(1.0)?;
             e.mul_by_scalar_in_place(0.5)?;
+
+            // Rounding can leave a diagonal element just below -1.
+            for row in 0..3 {
+                e.set_element(row, clip(e.get_element(row)?, 0.0, 1.0))?;
+            }
+
             e.power_elements(0.5)?;
 
             qx = e.get_element(0)?;
-- 
2.43.0


From d63ff84f09d82bee26e6e7d7b81d44afd98f414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:34 +0000
Subject: [PATCH 24/37] fix: keep the sensor readings when the correction of a
 measurement fails

---
 open_ahrs/src/accelerometer.rs | 6 ++++--
 open_ahrs/src/gyrometer.rs     | 6 ++++--
 open_ahrs/src/magnetometer.rs  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 2d6c917..6b3b158 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -182,8 +182,10 @@ impl Accelerometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements: Vector<f32> = Vector::new();
+        unbiased_measurements.init(3)?;
+        unbiased_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                           // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                        // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index dbb6f2a..00ba198 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -182,8 +182,10 @@ impl Gyrometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements: Vector<f32> = Vector::new();
+        unbiased_measurements.init(3)?;
+        unbiased_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                           // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                        // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index def25da..553dccc 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -189,8 +189,10 @@ impl Magnetometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
+        let mut unbiased_measurements: Vector<f32> = Vector::new();
+        unbiased_measurements.init(3)?;
+        unbiased_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                                // Remove static biases (hard-iron effects) from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_soft_iron_correction, &corrected_measurements.duplicate()?)?;    // Correct measurement distorsions (soft-iron effects, scale factors, axes misalignments and non-orthogonality).
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                       // Perform matrix-to-vector conversion to store the corrected measurements.
 
-- 
2.43.0


From aa1cec1b3f74450e40e96d4c2cf344295a89dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:07 +0000
Subject: [PATCH 25/37] fix: keep the previous sensor configuration when a new
 one is refused

---
 open_ahrs/src/accelerometer.rs | 8 +++++++-
 open_ahrs/src/gyrometer.rs     | 8 +++++++-
 open_ahrs/src/magnetometer.rs  | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 6b3b158..5780134 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -143,7 +143,13 @@ impl Accelerometer {
         // Check if the accelerometer has already been initialized.
         if self.initialized {
             // Apply the configuration to the accelerometer.
-            self.private_set_config(&config)?;
+            let previous_config = self.get_config()?;
+
+            if let Err(error) = self.private_set_config(&config) {
+                self.private_set_config(&previous_config)?; // Keep the previous configuration.
+                return Err(error);                          // Return an error.
+            }
+
             Ok(())  // Return no error.
         } else {
             // The accelerometer has not been configured.
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index 00ba198..ce45369 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -143,7 +143,13 @@ impl Gyrometer {
         // Check if the gyrometer has already been initialized.
         if self.initialized {
             // Apply the configuration to the gyrometer.
-            self.private_set_config(&config)?;
+            let previous_config = self.get_config()?;
+
+            if let Err(error) = self.private_set_config(&config) {
+                self.private_set_config(&previous_config)?; // Keep the previous configuration.
+                return Err(error);                          // Return an error.
+            }
+
             Ok(())  // Return no error.
         } else {
             // The gyrometer has not been configured.
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index 553dccc..c9001f2 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -150,7 +150,13 @@ impl Magnetometer {
             // Check if the magnetometer has already been initialized.
             if self.initialized {
                 // Apply the configuration to the magnetometer.
-                self.private_set_config(&config)?;
+                let previous_config = self.get_config()?;
+
+                if let Err(error) = self.private_set_config(&config) {
+                    self.private_set_config(&previous_config)?; // Keep the previous configuration.
+                    return Err(error);                          // Return an error.
+                }
+
                 Ok(())  // Return no error.
             } else {
                 // The magnetometer has not been configured.
-- 
2.43.0


From bb54425224073f7a20620fdf7022f572930efc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:09 +0000
Subject: [PATCH 26/37] fix: apply each soft iron correction between the axes
 it is named after

---
 open_ahrs/src/magnetometer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index c9001f2..b2afd7b 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -119,10 +119,10 @@ impl Magnetometer {
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
 
         self.scale_and_soft_iron_correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 2, config.zx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 2, config.xz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 0, config.yx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 2, config.yz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 0, config.zx_soft_iron_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 1, config.zy_soft_iron_correction)?;
 
         self.hard_iron_biases.set_element(0, config.x_axis_hard_iron_bias)?;
@@ -176,10 +176,10 @@ impl Magnetometer {
                 config.z_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(2, 2)?;
 
                 config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
-                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
-                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
-                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
-                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
+                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
+                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
+                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
+                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
                 config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
 
                 config.x_axis_hard_iron_bias = self.hard_iron_biases.get_element(0)?;
-- 
2.43.0


From 1719f27a5898caed03300758f1f1b1d9f4e285d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:11 +0000
Subject: [PATCH 27/37] fix: allow a filter to be initialized after a failed
 initialization

---
 open_ahrs/src/aqua.rs      | 2 ++
 open_ahrs/src/ar.rs        | 2 ++
 open_ahrs/src/davenport.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2974d8c..1bf1913 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -107,6 +107,8 @@ impl Aqua {
             return Err(OpenAHRSError::AquaFilterAlreadyInit); // Return an error.
         }
 
+        *self = Self::new()?;           // Discard what a previous failed initialization may have left.
+
         self.attitude.init(4)?;         // Initialize the attitude quaternion.
         self.attitude.fill_identity()?; // Fill it as identity quaternion.
 
diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 4af493a..d3c1164 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -59,6 +59,8 @@ impl AR {
                 return Err(OpenAHRSError::ARFilterAlreadyInit); // Return an error.
             }
 
+            *self = Self::new()?;                   // Discard what a previous failed initialization may have left.
+
             self.gyr.init(&gyrometer_config)?;      // Initialize the gyrometer.
             self.attitude.init(4)?;                 // Initialize the vector that will be used as quaternion.
             self.attitude.fillq(qw, qx, qy, qz)?;   // Set initial attitude.
diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index a180bd1..de2fda0 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -70,6 +70,8 @@ impl Davenport {
             return Err(OpenAHRSError::DavenportFilterAlreadyInit);  // Return an error.
         }
 
+        *self = Self::new()?;           // Discard what a previous failed initialization may have left.
+
         self.attitude.init(4)?;         // Initialize the attitude quaternion.
         self.attitude.fill_identity()?; // Fill it as identity quaternion.
 
-- 
2.43.0


From 6e6066560f8da8ad14502f6b3c851f459fbd4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:12 +0000
Subject: [PATCH 28/37] fix: initialize the sensors of the Davenport filter

---
 open_ahrs/src/davenport.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index de2fda0..d843a50 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -3,8 +3,8 @@ extern crate linalg;
 extern crate utils;
 extern crate libm;
 
-use crate::accelerometer::Accelerometer;
-use crate::magnetometer::Magnetometer;
+use crate::accelerometer::{Accelerometer, AccelerometerConfig};
+use crate::magnetometer::{Magnetometer, MagnetometerConfig};
 use crate::common::OpenAHRSError;
 
 use quaternion::quaternion::Quaternion;
@@ -81,6 +81,9 @@ impl Davenport {
             return Err(OpenAHRSError::InvalidDavenportWeights); // Return an error.
         }
 
+        self.acc.init(&AccelerometerConfig::default())?;    // Initialize the accelerometer.
+        self.mag.init(&MagnetometerConfig::default())?;     // Initialize the magnetometer.
+
         self.w1 = w1;   // Set accelerometer observations weight.
         self.w2 = w2;   // Set magnetometer observations weight.
 
-- 
2.43.0


From 2e004f8dd3d3182d931327c50c61ff5bdc2c309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:14 +0000
Subject: [PATCH 29/37] fix: integrate body rates on the right in the Euler
 method

---
 open_ahrs/src/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index d3c1164..c71d04c 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -150,7 +150,7 @@ impl AR {
 
                 let mut delta: Vector<f32> = Vector::new();
                 delta.init(4)?;
-                delta.mul(&w, &self.attitude)?;
+                delta.mul(&self.attitude, &w)?;
 
                 qw += delta.get_qw()?;
                 qx += delta.get_qx()?;
-- 
2.43.0


From 09c032992c17426816f6e8a82b4b69c098488276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:15 +0000
Subject: [PATCH 30/37] fix: use matrix powers in the Taylor series method

---
 open_ahrs/src/ar.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index c71d04c..c6edf37 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -8,7 +8,6 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use libm::{cosf, sinf};
-use utils::utils::factorial;
 use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
 
@@ -122,13 +121,13 @@ impl AR {
                 } else if self.method == NIM::TaylorSeries {
                     omega.mul_by_scalar_in_place(0.5 * self.ts)?;
 
+                    let mut s = temp.duplicate()?;
+
                     for n in 1..=self.order {
                         // S = 0.5 * dt * Omega
-                        let mut s = omega.duplicate()?;
                         // A' = S^n / !n
-                        s.power_elements(n as f32)?;
-                        let factor = factorial(n);
-                        s.mul_by_scalar_in_place(1.0 / factor as f32)?;
+                        s.mul(&s.duplicate()?, &omega)?;
+                        s.mul_by_scalar_in_place(1.0 / n as f32)?;
                         // A = A + A'
                         temp.add_in_place(&s)?;
                     }
-- 
2.43.0


From eaf4607092b3a38df7cecb739d667f072da012e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:45 +0000
Subject: [PATCH 31/37] fix: interpolate unit vectors that have the same
 direction

---
 linalg/src/vector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 690c978..5190951 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -1,6 +1,6 @@
 extern crate utils;
 
-use utils::utils::{is_valid_value, in_range, allclose};
+use utils::utils::{is_valid_value, in_range, allclose, clip};
 use libm::{acosf, sinf, sqrtf, powf};
 
 use crate::common::{M_MAX, EPSILON, LinalgError};
@@ -581,7 +581,12 @@ impl Vector<f32> {
 
         // Perform scalar product.
         let scalar = vect1.dot_product(&vect2)?;
-        let theta = acosf(scalar);  // Angle between the axis of the first vector and the second one.
+        let theta = acosf(clip(scalar, -1.0_f32, 1.0_f32));    // Angle between the axis of the first vector and the second one.
+
+        // Check if the vectors have (almost) the same direction, in which case the sine of the angle cannot be used as a divisor.
+        if theta <= EPSILON {
+            return self.lerp(vect1, vect2, alpha);
+        }
 
         // Create a copy of the first vector.
         let mut v1 = Self::new();
-- 
2.43.0


From 9671f7d068d5b6934da5a7a0818df9218a62ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:46 +0000
Subject: [PATCH 32/37] fix: correct the MARG attitude with the direction of
 the acceleration

---
 open_ahrs/src/aqua.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 1bf1913..2632232 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -374,7 +374,9 @@ impl Aqua {
             // Accelerometer-based correction step.
             let mut dcm_local_to_global = gyr_quat.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
-            temp.mul(&dcm_local_to_global, &a_local.convert_to_matrix()?)?;
+            let mut a_local_normalized = a_local.duplicate()?;
+            a_local_normalized.normalize()?;    // Only the direction of the acceleration is used to determine the quaternion.
+            temp.mul(&dcm_local_to_global, &a_local_normalized.convert_to_matrix()?)?;
             let a_global = temp.col_to_vector(0)?;
 
             // Retrieve vector components.
-- 
2.43.0


From e51768fb799234f94f6c069c1944f86675b23f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:48 +0000
Subject: [PATCH 33/37] fix: start every adaptive gain from the configured gain

---
 open_ahrs/src/aqua.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2632232..e81880b 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -403,11 +403,13 @@ impl Aqua {
 
             acc_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
+            let mut alpha = self.alpha;
+
             if self.adaptive {
-                self.alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
+                alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
-            let acc_quat_interpolated = Self::interpolate(&acc_quat, self.alpha, self.t_acc)?;
+            let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
             self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
-- 
2.43.0


From f3832b3be70df1c02324cbf74320ab6ea7dbe781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:49 +0000
Subject: [PATCH 34/37] fix: keep the adaptive gain between zero and the
 configured gain

---
 open_ahrs/src/aqua.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index e81880b..25887ba 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -246,7 +246,7 @@ impl Aqua {
 
         // Check if magnitude error falls within the specified thresholds.
         if self.t1 < norm_error && norm_error < self.t2 {
-			new_gain = gain*(self.t1 - norm_error)/self.t1;
+			new_gain = gain*(self.t2 - norm_error)/(self.t2 - self.t1);
 		}
 
         // If the magnitude error is below or equal to the first threshold, the gain doesn't change.
-- 
2.43.0


From 15b684b41bd8118bbc828231b095b402e5ff0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:50 +0000
Subject: [PATCH 35/37] fix: accept a magnetic field that points south in MARG
 mode

---
 open_ahrs/src/aqua.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 25887ba..3f02761 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -441,10 +441,20 @@ impl Aqua {
             }
             */
 
-            qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
             qx = 0.0;
             qy = 0.0;
-            qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+
+            if lx >= 0.0 {
+                qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+                qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+            } else {    // Same quaternion without the division by zero when the magnetic field points south.
+                qw = fabsf(ly) / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
+                qz = sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+
+                if ly < 0.0 {
+                    qz = -qz;
+                }
+            }
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-- 
2.43.0


From f37a1cc8f1c56c362ebb2c5d5717dae6cf2b1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:02 +0000
Subject: [PATCH 36/37] fix: keep the estimated attitude when an Aqua update
 fails

---
 open_ahrs/src/aqua.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 3f02761..0209df5 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -339,6 +339,8 @@ impl Aqua {
         let mut mag_quat: Vector<f32> = Vector::new();  // Quaternion defining the orientation of the system and determined by magnetometer and gyrometer measurements.
         mag_quat.init(4)?;                              // Initialize it.
 
+        let mut attitude = self.attitude.duplicate()?;  // The estimated attitude is only replaced once the whole update has succeeded.
+
         let mut temp = Matrix::new();
         temp.init(3, 1)?;
 
@@ -412,10 +414,10 @@ impl Aqua {
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
-            self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
+            attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
 
             // Magnetometer-based correction step.
-            let mut dcm_local_to_global = self.attitude.convert_to_dcm()?;
+            let mut dcm_local_to_global = attitude.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
             temp.mul(&dcm_local_to_global, &m_local.convert_to_matrix()?)?;
             // Global frame magnetic vector (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 18, eq. 54).
@@ -468,7 +470,7 @@ impl Aqua {
 
             let mag_quat_interpolated = Self::interpolate(&mag_quat, self.beta, self.t_mag)?;
 
-            self.attitude.mul(&self.attitude.duplicate()?, &mag_quat_interpolated)?;
+            attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
@@ -512,10 +514,11 @@ impl Aqua {
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-            self.attitude.mul(&acc_quat, &mag_quat)?;
+            attitude.mul(&acc_quat, &mag_quat)?;
         }
 
-        self.attitude.normalize()?;
+        attitude.normalize()?;
+        self.attitude = attitude;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From ae1a238872d8522ed3d4e3ff2bdf153d45bbdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:58 +0000
Subject: [PATCH 37/37] fix: keep the vector part of half turns in Chiaverini's
 method

The sign of a null difference is zero, so every half turn was converted to
the zero quaternion. The sign function of the method is 1 there.
---
 quaternion/src/quaternion.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 71ad443..d37c6d8 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -5,7 +5,7 @@ extern crate libm;
 use linalg::vector::Vector;
 use linalg::matrix::Matrix;
 use linalg::common::{EPSILON, LinalgError, E};
-use utils::utils::{allclose, clip, Sign};
+use utils::utils::{allclose, clip};
 use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf};
 
 pub trait Quaternion {
@@ -619,10 +619,13 @@ impl Quaternion for Vector<f32> {
         let dcm_21 = dcm.get_element(1, 0)?;
         let dcm_12 = dcm.get_element(0, 1)?;
 
+        // The sign is 1 for a null value, which is the case of half-turns.
+        let sign = |value: f32| if value < 0.0 { -1.0_f32 } else { 1.0_f32 };
+
         let qw = 0.5 * sqrtf(trace + 1.0);
-        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
-        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
-        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
+        let qx = 0.5 * sign(dcm_32 - dcm_23) * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
+        let qy = 0.5 * sign(dcm_13 - dcm_31) * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
+        let qz = 0.5 * sign(dcm_21 - dcm_12) * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
 
         // Fill the quaternion.
         self.set_element(0, qw)?;
-- 
2.43.0

