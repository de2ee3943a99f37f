From 35893d57c5e5a8f4863efc881cbf77b4feb816d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 01/24] fix: has_sorted_indexes no longer underflows on empty
 leading rows

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From fcceb7ddd915f9ca8fb103e5a45693a320262989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 02/24] fix: has_canonical_format no longer overflows a full
 index type

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 56d704373b0185076cbf7be08dbae5fffe5ad367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 03/24] fix: CSC subtraction and scaling operators passed index
 and pointer arrays swapped

---
 src/csc/std_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From 1d3313275aad77240848ead0e223d3d7ffff4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 04/24] fix: CSR and CSC addition and subtraction operators
 refuse mismatched shapes

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From 0ea600cc966f9ea56f14778c5ed2860aefb0f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 05/24] fix: CSR to coordinate conversion ignores storage
 beyond the stored entries

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..d4111cc 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -364,13 +364,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     pub fn to_coo(&self) -> Coo<I, T> {
         // let values = vec![T::zero(); self.values.len()];
         // copy(values, self.values);
-        let values = self.values.clone();
+        let nnz = self.nnz();
+        let values = self.values[..nnz].to_vec();
 
         // let colidx = vec![I::zero(); self.colidx.len()];
         // copy(colidx, self.colidx);
-        let colidx = self.colidx.clone();
+        let colidx = self.colidx[..nnz].to_vec();
 
-        let mut rowidx = vec![I::zero(); self.colidx.len()];
+        let mut rowidx = vec![I::zero(); nnz];
 
         expandptr(self.rows, &self.rowptr, &mut rowidx);
 
-- 
2.43.0


From 9d3a46bc24d586c1f89ff6c2c535397c582d7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 06/24] fix: CSR and CSC from_dense accept a matrix without
 rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..8218288 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index d4111cc..b4fe530 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From b4f12b814792468810c95450286842b19510928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 07/24] fix: CSR get sums duplicate entries

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index b4fe530..022a431 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -496,13 +496,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
-        // Iterate over the column indices of row k.
+        // Iterate over the column indices of row i.
+        let mut value = T::zero(); // If not found, the element is zero.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                value += self.values[k]; // Duplicate entries are summed.
             }
         }
 
-        T::zero() // If not found, the element is zero.
+        value
     }
 }
-- 
2.43.0


From c417c7fe6714878ace743adc731eb5b7d81e2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 08/24] fix: csr_count_diagonals no longer underflows below the
 main diagonal

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..d5760eb 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_usize().unwrap() as isize - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From 4dadbf3890ad34d6a2fc0fa2d6752688fe8331ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 09/24] fix: sums, differences and products no longer keep
 unused storage past nnz

---
 src/csc/csc.rs     | 4 +++-
 src/csc/std_ops.rs | 8 ++++++--
 src/csr/csr.rs     | 6 ++++--
 src/csr/std_ops.rs | 8 ++++++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 8218288..4089f9b 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -296,7 +296,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             &mut values,
         );
 
-        CSC::new(rows, cols, rowidx, colptr, values)
+        let mut c_mat = CSC::new(rows, cols, rowidx, colptr, values)?;
+        c_mat.prune()?; // cancellation leaves nnz below the bound
+        Ok(c_mat)
     }
 
     /// Creates a new CSC matrix with only the selected rows and columns of the receiver.
diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index 543d110..2c65e88 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -41,7 +41,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
+    let mut c_mat = CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap();
+    c_mat.prune().unwrap();
+    c_mat
 }
 
 #[opimps::impl_ops(Sub)]
@@ -68,7 +70,9 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
+    let mut c_mat = CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap();
+    c_mat.prune().unwrap();
+    c_mat
 }
 
 #[opimps::impl_ops(Mul)]
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 022a431..fce5212 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -214,7 +214,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     }
 
     // Prune removes empty space after all non-zero elements.
-    fn prune(&mut self) -> Result<()> {
+    pub(super) fn prune(&mut self) -> Result<()> {
         if self.rowptr.len() != self.rows + 1 {
             return Err(format_err!("index pointer has invalid length"));
         }
@@ -291,7 +291,9 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             &mut values,
         );
 
-        CSR::new(rows, cols, rowptr, colidx, values)
+        let mut c_mat = CSR::new(rows, cols, rowptr, colidx, values)?;
+        c_mat.prune()?; // cancellation leaves nnz below the bound
+        Ok(c_mat)
     }
 
     /// Creates a new CSR matrix with only the selected rows and columns
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index 040d24a..5f4a0e7 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -40,7 +40,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
-    CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
+    let mut c_mat = CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap();
+    c_mat.prune().unwrap();
+    c_mat
 }
 
 #[opimps::impl_ops(Sub)]
@@ -67,7 +69,9 @@ fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
-    CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
+    let mut c_mat = CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap();
+    c_mat.prune().unwrap();
+    c_mat
 }
 
 #[opimps::impl_ops(Mul)]
-- 
2.43.0


From 0d85127b56b75e8e075e1744b387235c66d5ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 10/24] fix: products and general element-wise merges refuse
 results too large for the index type

---
 src/row.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index d5760eb..1cff00a 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -433,13 +433,13 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
     // std::vector<T> sums(n_col, 0);
     let mut sums: Vec<T> = vec![T::zero(); n_col];
 
-    let mut nnz = I::zero();
+    let mut nnz: usize = 0;
 
     c_p[0] = I::zero();
 
     for i in 0..n_row {
         let mut head: isize = -2;
-        let mut length: I = I::zero();
+        let mut length: usize = 0;
 
         let jj_start = a_p[i].to_usize().unwrap();
         let jj_end = a_p[i + 1].to_usize().unwrap();
@@ -457,16 +457,16 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
                 if next[k] == -1 {
                     next[k] = head;
                     head = k as isize;
-                    length += I::one();
+                    length += 1;
                 }
             }
         }
 
-        for _jj in 0..length.to_usize().unwrap() {
+        for _jj in 0..length {
             if sums[head as usize] != T::zero() {
-                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
-                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
-                nnz += I::one();
+                c_j[nnz] = I::from(head).unwrap();
+                c_x[nnz] = sums[head as usize];
+                nnz += 1;
             }
 
             let temp = head as usize;
@@ -476,7 +476,7 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
             sums[temp] = T::zero();
         }
 
-        c_p[i + 1] = nnz;
+        c_p[i + 1] = I::from(nnz).unwrap();
     }
 }
 
@@ -522,12 +522,12 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
     // std::vector<T> B_row(n_col, 0);
     let mut b_row: Vec<T> = vec![T::zero(); n_col];
 
-    let mut nnz: I = I::zero();
+    let mut nnz: usize = 0;
     c_p[0] = I::zero();
 
     for i in 0..n_row {
         let mut head: isize = -2;
-        let mut length: I = I::zero();
+        let mut length: usize = 0;
 
         //add a row of A to A_row
         let i_start = a_p[i].to_usize().unwrap();
@@ -540,7 +540,7 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             if next[j] == -1 {
                 next[j] = head;
                 head = j as isize;
-                length += I::one();
+                length += 1;
             }
         }
 
@@ -555,19 +555,19 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             if next[j] == -1 {
                 next[j] = head;
                 head = j as isize;
-                length += I::one();
+                length += 1;
             }
         }
 
         // scan through columns where A or B has
         // contributed a non-zero entry
-        for _jj in 0..length.to_usize().unwrap() {
+        for _jj in 0..length {
             let result: T2 = op(a_row[head as usize], b_row[head as usize]);
 
             if result.nonzero() {
-                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
-                c_x[nnz.to_usize().unwrap()] = result;
-                nnz += I::one();
+                c_j[nnz] = I::from(head).unwrap();
+                c_x[nnz] = result;
+                nnz += 1;
             }
 
             let temp = head as usize;
@@ -578,7 +578,7 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             b_row[temp] = T::zero();
         }
 
-        c_p[i + 1] = nnz;
+        c_p[i + 1] = I::from(nnz).unwrap();
     }
 }
 
-- 
2.43.0


From 7959d30bf0c23c25b1966d85ea7670cb9f87b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 11/24] fix: stacking refuses positions too large for the index
 type instead of wrapping

---
 src/coo/coo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..9a70281 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -413,7 +413,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
             b_mat
                 .rowidx
                 .iter()
-                .map(|&r| r + I::from(a_mat.rows).unwrap()),
+                .map(|&r| I::from(r.to_usize().unwrap() + a_mat.rows).unwrap()),
         );
 
         let mut colidx = Vec::with_capacity(nnz);
@@ -487,7 +487,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
             b_mat
                 .colidx
                 .iter()
-                .map(|&c| c + I::from(a_mat.cols).unwrap()),
+                .map(|&c| I::from(c.to_usize().unwrap() + a_mat.cols).unwrap()),
         );
 
         let mut values = Vec::with_capacity(nnz);
-- 
2.43.0


From 1919173105b94cf1410e9ca65a85a5597948148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 12/24] fix: Coo upper no longer overflows the index type

---
 src/coo/coo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 9a70281..095174b 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,12 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            // A sum too large for the index type is past every column.
+            let keep = match self.rowidx[i].checked_add(&k) {
+                Some(c) => c <= self.colidx[i],
+                None => k < I::zero(),
+            };
+            if keep {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From 3822057bdaa7cce1e705e7f4e58cd8c17b83cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 13/24] fix: strong components of a graph without nodes

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..4e3394a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 9c7c518e1e7a614ac15d9e932ae7574f0a03ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 14/24] fix: strong components no longer corrupt the stack on
 repeated edges

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 4e3394a..59c2c0b 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -187,7 +187,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A repeated edge may lead to the node already on top of the stack.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From 3b8c67673b0c61857d6562941a7c68daf790c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 15/24] fix: component count of a graph without edges is zero,
 not an error

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 59c2c0b..e1fe381 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -361,6 +361,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp); // no node has entries
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From d280087832b37d7e51d6c8611efd68b5f7e6a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 16/24] fix: negative imaginary parts were printed with two
 signs in tables

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From cccdfe386c1d7c6b53ff162a1dd21caa159f5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 17/24] fix: eigs answers every product request of the native
 solver

---
 src/eigen/real.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..9176348 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -19,6 +19,9 @@ const WHICH_LARGEST_MAGNITUDE: &str = "LM";
 // First call to the reverse communication interface
 const IDO_FIRST: i32 = 0;
 
+// Compute  Y = OP * X  for the initial vector, as for IDO_COMPUTE1.
+const IDO_COMPUTE0: i32 = -1;
+
 // Compute  Y = OP * X  where
 // IPNTR(1) is the pointer into WORKD for X,
 // IPNTR(2) is the pointer into WORKD for Y.
@@ -96,9 +99,9 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         drop(lock);
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
             let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 4ba0f4cc7f488295ba1d387351b4c9e7a57d02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 18/24] fix: eigs passes the native solver buffers of the
 documented size

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 9176348..9f13676 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -137,8 +137,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
-    let mut workev = vec![0.0; 2 * ncv];
+    let ldz = n;
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
         let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 9793d940e3c9594f73f1ab981bdd1f15e6346d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 19/24] fix: eigs returns the imaginary parts and the real
 eigenvectors it computed

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 9f13676..7104e37 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -182,7 +182,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     // for i in 0..d.len() {
     //     d[i] = Complex64::new(dr[i], di[i]);
     // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], di[i])).collect();
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
@@ -193,7 +193,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
-- 
2.43.0


From 4e8c1f3636d330656e84111b46326d9c1ea2e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 20/24] fix: eigs refuses every eigenvalue count outside its
 range

---
 src/eigen/real.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 7104e37..6e643d3 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -43,8 +43,12 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    if nev == 0 || nev + 1 >= n {
+        return Err(format_err!(
+            "invalid nev: {} (0 < nev < {})",
+            nev,
+            n.saturating_sub(1)
+        ));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
-- 
2.43.0


From e671b787037c11874380131a1b357847a6d27f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 21/24] fix: eigs holds its lock for the whole computation

---
 src/eigen/real.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 6e643d3..b3bab7c 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -80,8 +80,11 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // The native library keeps state between the steps of one computation, so
+    // the lock is held until the computation ends.
+    let _lock = MUTEX.lock().unwrap_or_else(|e| e.into_inner());
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -100,7 +103,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
     while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
@@ -108,7 +110,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -127,7 +128,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -145,7 +145,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -173,7 +172,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
     if info != 0 {
         // return ArpackError(info);
-- 
2.43.0


From e418c58a8041e28aadeacda28aa65e9571d6ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:51 +0000
Subject: [PATCH 22/24] fix: eigs refuses the largest count without overflow

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index b3bab7c..27cc714 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -43,7 +43,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev == 0 || nev + 1 >= n {
+    if nev == 0 || nev >= n.saturating_sub(1) {
         return Err(format_err!(
             "invalid nev: {} (0 < nev < {})",
             nev,
-- 
2.43.0


From a649ac14bb8af9a0ae302e0e16b592d40e65a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:23 +0000
Subject: [PATCH 23/24] fix: eigs drops a pair that converged only in half

---
 src/eigen/real.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 27cc714..5230375 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -188,8 +188,11 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
+    // A pair that did not converge as a whole has only half of its vector.
+    let count = usize::min(nconv, nev + 1);
+
     let mut i = 0;
-    while i < nev + 1 {
+    while i < count {
         if di[i].abs() == 0.0 {
             // zz[i] = make([]complex128, n)
             let j = i * n;
@@ -205,7 +208,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             // Ritz vector associated with the Ritz value with negative
             // imaginary part is simply the complex conjugate of the Ritz
             // vector associated with the positive imaginary part.
-            if i < nev {
+            if i + 1 < count {
                 let j = i * n;
                 let zr = &z[j..j + n];
                 let j = (i + 1) * n;
-- 
2.43.0


From 17da8c0b632d3607aa909a5eac2ab4bc1e82c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 24/24] fix: Coo::upper reserved room for every column of the
 matrix

The upper triangle of a matrix with many columns and few entries asked for
memory in proportion to the columns, and ended the program where that was
more than there is; it never needs more than the stored entries.
---
 src/coo/coo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 095174b..6e905b3 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -335,7 +335,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     /// Provides the upper triangular portion of the matrix in
     /// coordinate format.
     pub fn upper(&self, k: I) -> Coo<I, T> {
-        let c = (self.nnz() / 2) + self.cols;
+        let c = min(self.nnz(), (self.nnz() / 2).saturating_add(self.cols));
         let mut rowidx = Vec::with_capacity(c);
         let mut colidx = Vec::with_capacity(c);
         let mut values = Vec::with_capacity(c);
-- 
2.43.0

