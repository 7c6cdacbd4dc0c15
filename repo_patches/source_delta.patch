From f190d9ae22f6580787d88c9e255b076a6728c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:20 +0000
Subject: [PATCH 01/46] fix: reset the coarsening count of a patch when its
 operators are rebuilt

Building twice on an adaptive mesh kept the counts of the first build, so the
second build and every later stage used operators and data of mismatched sizes.
---
 src/HPSAlgorithm.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..2b75916 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -131,6 +131,8 @@ public:
                 // Leaf callback
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
+                // Operators are rebuilt at the resolution of the patch
+                patch.n_coarsens = 0;
                 if (std::get<bool>(app.options["cache-operators"])) {
                     if (!matrixCache.contains("T_leaf")) {
                         matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
@@ -504,6 +506,9 @@ public:
         // app.logHead("  omega = %i", omega.globalID);
         // app.logHead("  tau = %i", tau.globalID);
 
+        // The operators of tau are (re)built at the resolution of its own grid
+        tau.n_coarsens = 0;
+
         // Steps for the merge (private member functions)
         coarsen_(tau, alpha, beta, gamma, omega);
         createIndexSets_(tau, alpha, beta, gamma, omega);
-- 
2.43.0


From c4ccdda8e73fa93a051eab3835e847195c79a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:50 +0000
Subject: [PATCH 02/46] fix: solve stage with a homogeneous RHS uses zero
 particular data on the root

The upwards stage leaves the root's particular Neumann data unset (or stale from
an earlier load) when homogeneous-rhs is set, so solving with a boundary function
threw a size mismatch or used the data of the earlier load.
---
 src/HPSAlgorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 2b75916..2798ba5 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -406,7 +406,8 @@ public:
             Vector<NumericalType> r = concatenate(rVectors);
             Vector<NumericalType> a = concatenate(aVectors);
             Vector<NumericalType> b = concatenate(bVectors);
-            Vector<NumericalType>& h = rootPatch.vectorH();
+            // With a homogeneous RHS, the upwards stage does not set the particular Neumann data
+            Vector<NumericalType> h = std::get<bool>(app.options["homogeneous-rhs"]) ? Vector<NumericalType>(4*M, 0) : rootPatch.vectorH();
             Matrix<NumericalType>& T = rootPatch.matrixT();
             Vector<NumericalType>& g = rootPatch.vectorG();
 
-- 
2.43.0


From ce73348ef504fe061161a9ac5a6db65e4770e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:50 +0000
Subject: [PATCH 03/46] fix: cache leaf operators per level

One cached operator was used for the leaves of every level, although it scales
with the grid spacing: adaptive meshes gave wrong solutions with cache-operators.
---
 src/HPSAlgorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 2798ba5..4180541 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -134,10 +134,12 @@ public:
                 // Operators are rebuilt at the resolution of the patch
                 patch.n_coarsens = 0;
                 if (std::get<bool>(app.options["cache-operators"])) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    // Leaf operators scale with the grid spacing, so only leaves on the same level share one
+                    std::string T_leaf_key = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(T_leaf_key)) {
+                        matrixCache[T_leaf_key] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[T_leaf_key];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From 27fda48cbd277f3debcee5c8a6a7c77dec2501cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:03 +0000
Subject: [PATCH 04/46] fix: give the HPS options their default values

The stages read cache-operators and homogeneous-rhs unconditionally, so a program
that sets neither (the README's) ended with std::bad_variant_access.
---
 src/EllipticForestApp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/EllipticForestApp.hpp b/src/EllipticForestApp.hpp
index 45a4dd5..3aa9129 100644
--- a/src/EllipticForestApp.hpp
+++ b/src/EllipticForestApp.hpp
@@ -50,7 +50,10 @@ public:
      * @brief Options instance for storing app-global options
      * 
      */
-    Options options{};
+    Options options{std::map<std::string, Options::OptionTypes>{
+        {"cache-operators", false},
+        {"homogeneous-rhs", false}
+    }};
 
     /**
      * @brief Timer instance for managing timers
-- 
2.43.0


From 7cc7a6d5b01028ef43da3ab84866b2b6a6474eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:37 +0000
Subject: [PATCH 05/46] fix: create the leaf solver's index sets on its own
 process and free them

The leaf solve is local to a rank, but its index sets were created collectively on
MPI_COMM_WORLD, so ranks with different numbers of leaves wait for each other
forever; they were also never destroyed, leaking two of them per leaf solve.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..c7af886 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
@@ -212,8 +212,11 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         std::vector<double> xv;
         xv.assign(x_data, x_data + N);
         Vector<double> x_vector(xv);
+        VecRestoreArray(x, &x_data);
 
         // Clean up
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
-- 
2.43.0


From 66433dfba1d5ba5e16fbdc4d7f02cf0245e53f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 06/46] fix: Vector ranges return the entries, not the indices

---
 src/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..61ebccd 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From 2e3de34245bad3c0665f408e08e457ead60a9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 07/46] fix: Vector bounds checks reject the index one past the
 end

---
 src/Vector.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 61ebccd..d568a6c 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -309,7 +309,7 @@ public:
      * @return Vector<NumericalType> 
      */
     Vector<NumericalType> getSegment(std::size_t startIndex, std::size_t length) {
-        if (startIndex + length > size_) {
+        if (startIndex > size_ || length > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::getSegment] Index mismatch. `startIndex` + `length` is greater than size of vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tlength = " + std::to_string(length) + "\n";
@@ -334,7 +334,7 @@ public:
      * @param vec Vector of data to set into this vector
      */
     void setSegment(std::size_t startIndex, const Vector<NumericalType>& vec) {
-        if (startIndex + vec.size() > size_) {
+        if (startIndex > size_ || vec.size() > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::setSegment] Index mismatch. `startIndex` + `vec.size()` is greater than size of host vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tvec.size() = " + std::to_string(vec.size()) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] < 0 || I[i] >= size_) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] < 0 || I[i] >= size_) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From 6661efe7e7cad4e0f713b4d1e322b306089713c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 08/46] fix: Matrix::getCol copies every row of the column

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..beb072b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 4a46e3eb74597cc5f62823044ce5e830b7ad455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 09/46] fix: Matrix::operator*= multiplies

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index beb072b..af9816a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 6e2055f3da0628478df44c7d650f0c3a5f3bbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 10/46] fix: Matrix bounds checks reject indices one past the
 end

---
 src/Matrix.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index af9816a..e575fc4 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,17 +332,21 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] < 0 || I[i] >= nrows_) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] < 0 || J[j] >= ncols_) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
                     error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
                 res(i,j) = operator()(I[i], J[j]);
             }
@@ -369,7 +373,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +401,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -481,7 +485,7 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> getBlock(std::size_t row_index, std::size_t col_index, std::size_t row_length, std::size_t col_length) {
-        if (row_index + row_length > nrows_) {
+        if (row_index > nrows_ || row_length > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\trowLength = " + std::to_string(row_length) + "\n";
@@ -489,7 +493,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + col_length > ncols_) {
+        if (col_index > ncols_ || col_length > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tcolLength = " + std::to_string(col_length) + "\n";
@@ -517,7 +521,7 @@ public:
      * @param mat Sub-matrix to set
      */
     void setBlock(std::size_t row_index, std::size_t col_index, Matrix<NumericalType>& mat) {
-        if (row_index + mat.nrows() > nrows_) {
+        if (row_index > nrows_ || mat.nrows() > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tmat.nrows() = " + std::to_string(mat.nrows()) + "\n";
@@ -525,7 +529,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + mat.ncols() > ncols_) {
+        if (col_index > ncols_ || mat.ncols() > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tmat.ncols() = " + std::to_string(mat.ncols()) + "\n";
@@ -709,14 +713,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
-- 
2.43.0


From 81d954c4011c085795be83809fe12cb3119713c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 11/46] fix: solving a singular system throws instead of
 returning garbage

---
 src/Matrix.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index e575fc4..01e570e 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -900,7 +900,9 @@ static Vector<double> solve(Matrix<double>& A, Vector<double>& b) {
 
     // Check output
     if (INFO_) {
-        std::cerr << "[EllipticForest::Matrix::solve] Fortran call to `dgesv_` returned non-zero flag of: " << INFO_ << std::endl;
+        std::string error_msg = "[EllipticForest::Matrix::solve] Fortran call to `dgesv_` returned non-zero flag of: " + std::to_string(INFO_);
+        std::cerr << error_msg << std::endl;
+        throw std::runtime_error(error_msg);
     }
 
     return x;
@@ -949,7 +951,9 @@ static Matrix<double> solve(Matrix<double>& A, Matrix<double>& B) {
 
     // Check output
     if (INFO_) {
-        std::cerr << "[EllipticForest::Matrix::solve] Fortran call to `dgesv_` returned non-zero flag of: " << INFO_ << std::endl;
+        std::string error_msg = "[EllipticForest::Matrix::solve] Fortran call to `dgesv_` returned non-zero flag of: " + std::to_string(INFO_);
+        std::cerr << error_msg << std::endl;
+        throw std::runtime_error(error_msg);
     }
 
     return X.T();
-- 
2.43.0


From e059c3d36a01c02a83b688122e6a1d2767cada45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:47 +0000
Subject: [PATCH 12/46] fix: Matrix rejects data that do not fill its shape

---
 src/Matrix.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 01e570e..7868eea 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -143,8 +143,18 @@ public:
     Matrix(std::size_t nrows, std::size_t ncols, std::vector<NumericalType> data) :
         nrows_(nrows),
         ncols_(ncols),
-        data_(data)
-            {}
+        data_(data) {
+
+        if (data_.size() != nrows_ * ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::Matrix] Size of data is not the same as `nrows` times `ncols`:\n";
+            error_msg += "\tdata.size() = " + std::to_string(data_.size()) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::invalid_argument(error_msg);
+        }
+
+    }
 
     /**
      * @brief Construct a new Matrix object from an initializer list
@@ -156,8 +166,18 @@ public:
     Matrix(std::size_t nrows, std::size_t ncols, std::initializer_list<NumericalType> init_list) :
         nrows_(nrows),
         ncols_(ncols),
-        data_(init_list)
-            {}
+        data_(init_list) {
+
+        if (data_.size() != nrows_ * ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::Matrix] Size of data is not the same as `nrows` times `ncols`:\n";
+            error_msg += "\tdata.size() = " + std::to_string(data_.size()) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::invalid_argument(error_msg);
+        }
+
+    }
 
     /**
      * @brief Construct a new Matrix object from another matrix (copy constructor)
-- 
2.43.0


From 98d7c08bff0cae639f6375bdb0f266b619911a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:47 +0000
Subject: [PATCH 13/46] fix: coarse-to-fine interpolation for one and two
 coarse cells

---
 src/SpecialMatrices.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..dc3b5de 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -145,19 +145,18 @@ public:
     InterpolationMatrixCoarse2Fine(std::size_t nfine) :
         Matrix<NumericalType>(nfine, nfine/2, 0) {
 
-        int k = 3;
+        // Fewer than three coarse cells: the edge falls back to linear (or constant) extrapolation
+        int k = std::min<int>(3, this->ncols_);
         Vector<NumericalType> edge_coefficients = {1.40625, -0.5625, 0.15625};
+        if (k == 2) edge_coefficients = {1.25, -0.25};
+        if (k == 1) edge_coefficients = {1};
         for (auto i = 0; i < this->nrows_; i++) {
             for (auto j = 0; j < this->ncols_; j++) {
                 if (i == 0 && j == 0) {
-                    this->operator()(i,j) = edge_coefficients[0];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[2];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[l];
                 }
                 else if (i == this->nrows_-1 && j == this->ncols_-k) {
-                    this->operator()(i,j) = edge_coefficients[2];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[0];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[k-1-l];
                 }
                 else if (i == 2*j+1 && i%2 == 1 && i != this->nrows_-1) {
                     this->operator()(i,j) = 0.75;
-- 
2.43.0


From 9e891357e3506e5a123672aa3510ac50140f3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:00 +0000
Subject: [PATCH 14/46] fix: every quadtree traversal points the forest at its
 own tree

Only the node pre-order traversal did; the others used whatever the forest
pointed at before, which is not a quadtree for one that was just built.
---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..ec6cd4b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -257,6 +257,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -278,6 +279,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -299,6 +301,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -321,6 +324,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -344,6 +348,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From dd66173be594178424a072ebed496d8b810e5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:00 +0000
Subject: [PATCH 15/46] fix: free the received copies of other ranks' nodes
 after a merge or split

Every merge and split across ranks leaked a full copy of each child.
---
 src/Quadtree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index ec6cd4b..675f875 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -466,6 +466,7 @@ public:
 		else {
 			// Quadrant is a branch; call branch callback
 			std::vector<Node<T>*> children{4};
+			std::vector<Node<T>*> received_children;
 			if (node->pfirst == node->plast) {
 				// Node is owned by single rank
 				for (int i = 0; i < 4; i++) {
@@ -490,6 +491,7 @@ public:
 						if (child == nullptr) {
 							// child = quadtree.node_factory->createChildNode(node, i, node->pfirst, node->plast);
 							child = new Node<T>(node->getComm());
+							received_children.push_back(child);
 						}
 
 						// Broadcast node
@@ -510,6 +512,11 @@ public:
 				cont = quadtree.visit_family_fn(node, children);
 			}
 
+			// The copies of other ranks' children only live for the callback
+			for (auto* child : received_children) {
+				delete child;
+			}
+
 		}
 		return cont;
 
-- 
2.43.0


From 8d5319dafa12899c478fa3eb8287ba7ae32eca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 16/46] fix: Quadtree deletes its nodes when destroyed or
 replaced

Its documentation says so.  The nodes and their communicators leaked, so a
program that refines often enough runs out of communicators.
---
 src/QuadNode.hpp |  3 ++-
 src/Quadtree.hpp | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/QuadNode.hpp b/src/QuadNode.hpp
index 8f56967..cc2e2a2 100644
--- a/src/QuadNode.hpp
+++ b/src/QuadNode.hpp
@@ -101,7 +101,8 @@ public:
 	}
 
 	~Node() {
-		if (node_comm_set) {
+		int mpi_finalized; MPI_Finalized(&mpi_finalized);
+		if (node_comm_set && !mpi_finalized) {
 			MPI_Comm_free(&node_comm);
 		}
 	}
diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 675f875..87f8e08 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -200,12 +200,7 @@ public:
 	 * 
 	 */
 	~Quadtree() {
-		// Iterate through map and delete any owned nodes
-		// for (typename NodeMap::iterator iter = map.begin(); iter != map.end(); ++iter) {
-		// 	if (iter->second != nullptr) {
-		// 		delete iter->second;
-		// 	}
-		// }
+		deleteNodes();
 	}
 
 	/**
@@ -216,6 +211,7 @@ public:
 	 */
 	Quadtree& operator=(Quadtree&& other) {
 		if (this != &other) {
+			deleteNodes();
 			map = other.map;
 			// Set map seconds to nullptr so destructor doesn't delete them
 			for (typename NodeMap::iterator iter = other.map.begin(); iter != other.map.end(); ++iter) {
@@ -373,6 +369,17 @@ public:
 		return map["0"]->data;
 	}
 
+	/**
+	 * @brief Deletes the owned nodes and clears the map
+	 * 
+	 */
+	void deleteNodes() {
+		for (typename NodeMap::iterator iter = map.begin(); iter != map.end(); ++iter) {
+			delete iter->second;
+		}
+		map.clear();
+	}
+
 	/**
 	 * @brief Callback provided to `p4est_search_reorder` for node traversals
 	 * 
-- 
2.43.0


From dccc5ecfacf407ea7276901dae81794b602737e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:06 +0000
Subject: [PATCH 17/46] fix: ranks without leaves take no part in merges,
 splits and solves

A node's communicator included such ranks when they lie between its first
and last rank, so its other ranks waited for them forever; and the solve
stage dereferenced the root node they do not have.
---
 src/HPSAlgorithm.hpp | 21 +++++++++++++++++++++
 src/MPI.cpp          | 10 ++++++++++
 src/MPI.hpp          | 10 ++++++++++
 src/Quadtree.hpp     | 23 +++++++++++++++++++++--
 4 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 4180541..03f7b8d 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -299,6 +299,13 @@ public:
         app.addTimer("solve-stage");
         app.timers["solve-stage"].start();
 
+        // A rank without any leaves has nothing to solve
+        if (!mesh.quadtree.hasRoot()) {
+            app.timers["solve-stage"].stop();
+            app.logHead("End HPS Solve Stage");
+            return;
+        }
+
         // Set Dirichlet data on root patch
         boundary_data_function(mesh.quadtree.root());
 
@@ -352,6 +359,13 @@ public:
         app.addTimer("solve-stage");
         app.timers["solve-stage"].start();
 
+        // A rank without any leaves has nothing to solve
+        if (!mesh.quadtree.hasRoot()) {
+            app.timers["solve-stage"].stop();
+            app.logHead("End HPS Solve Stage");
+            return;
+        }
+
         // Set up data for Dirichlet solve
         PatchType& rootPatch = mesh.quadtree.root();
         PatchGridType& rootGrid = rootPatch.grid();
@@ -457,6 +471,13 @@ public:
         app.addTimer("solve-stage");
         app.timers["solve-stage"].start();
 
+        // A rank without any leaves has nothing to solve
+        if (!mesh.quadtree.hasRoot()) {
+            app.timers["solve-stage"].stop();
+            app.logHead("End HPS Solve Stage");
+            return;
+        }
+
         setBoundaryData_(mesh.quadtree.root(), boundaryData, boundaryTypes);
 
         // mesh.quadtree.split([&](PatchType& tau, PatchType& alpha, PatchType& beta, PatchType& gamma, PatchType& omega){
diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..662b360 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -37,6 +37,16 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
 
 }
 
+void communicatorSubset(Communicator super_comm, const std::vector<int>& ranks, int tag, Communicator* sub_comm) {
+    Group super_group;
+    MPI_Comm_group(super_comm, &super_group);
+    Group sub_group;
+    MPI_Group_incl(super_group, ranks.size(), ranks.data(), &sub_group);
+    MPI_Comm_create_group(super_comm, sub_group, tag, sub_comm);
+    MPI_Group_free(&super_group);
+    MPI_Group_free(&sub_group);
+}
+
 void communicatorSetName(Communicator comm, const std::string& name) {
     MPI_Comm_set_name(comm, name.c_str());
 }
diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..06f4e12 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -127,6 +127,16 @@ public:
  */
 void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, int tag, Communicator* sub_comm);
 
+/**
+ * @brief Creates a sub communicator from a list of ranks on the super communicator
+ * 
+ * @param super_comm Existing super communicator
+ * @param ranks Ranks on super communicator
+ * @param tag Message tag
+ * @param sub_comm [out] Reference to declared, but not created, sub communicator; null on the other ranks
+ */
+void communicatorSubset(Communicator super_comm, const std::vector<int>& ranks, int tag, Communicator* sub_comm);
+
 /**
  * @brief Sets the name of the communicator
  * 
diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 87f8e08..8ccea3c 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -6,6 +6,7 @@
 #ifndef QUADTREE_HPP_
 #define QUADTREE_HPP_
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <ostream>
@@ -143,12 +144,20 @@ public:
 				// Compute unique path
 				std::string path = p4est::p4est_quadrant_path(quadrant);
 
+				// Ranks in between that hold no leaves do not traverse the tree and own no nodes
+				std::vector<int> node_ranks;
+				for (int r = pfirst; r <= plast; r++) {
+					if (p4est->global_first_quadrant[r] < p4est->global_first_quadrant[r+1]) {
+						node_ranks.push_back(r);
+					}
+				}
+
 				// Create the node communicator
 				MPI::Communicator node_comm;
-				MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
+				MPI::communicatorSubset(MPI_COMM_WORLD, node_ranks, 0, &node_comm);
 
 				// Check if quadrant is owned by this rank
-				bool owned = pfirst <= rank && rank <= plast;
+				bool owned = std::find(node_ranks.begin(), node_ranks.end(), rank) != node_ranks.end();
 
 				// If owned, create Node in map
 				if (owned) {
@@ -360,6 +369,16 @@ public:
 
 	}
 
+	/**
+	 * @brief Checks if this rank has the root node; a rank without any leaves does not
+	 * 
+	 * @return true 
+	 * @return false 
+	 */
+	bool hasRoot() {
+		return map["0"] != nullptr;
+	}
+
 	/**
 	 * @brief Returns the root data of the quadtree
 	 * 
-- 
2.43.0


From 8dd793ed087113217200860519858bfff5610603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:06 +0000
Subject: [PATCH 18/46] fix: empty vectors can be sent, received and broadcast

Taking their element type and address read an element they do not have.
---
 src/MPI.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 06f4e12..1b29a45 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -322,7 +322,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return Datatype 
      */
-    static inline Datatype getType(std::vector<T>& vec) { return TypeTraits<T>::getType(vec[0]); }
+    static inline Datatype getType(std::vector<T>& vec) { T value{}; return TypeTraits<T>::getType(value); }
 
     /**
      * @brief Returns the size of the std::vector
@@ -338,7 +338,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return T* 
      */
-    static inline T* getAddress(std::vector<T>& vec) { return &vec.front(); }
+    static inline T* getAddress(std::vector<T>& vec) { return vec.data(); }
 
 };
 
-- 
2.43.0


From 9e5398835d91609e014676fb064bfc7b18ae9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:06 +0000
Subject: [PATCH 19/46] fix: broadcast of a string resizes the receiver's
 string

Receivers read as many characters as the incoming string has from their own,
possibly shorter, string.
---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 662b360..1a99a17 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -78,7 +78,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From be728b3ee7a010e67e29c206b1b3aa430f60f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:19 +0000
Subject: [PATCH 20/46] fix: argument order of the generic allgatherv

It does not compile when instantiated.
---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 1b29a45..2761680 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -305,7 +305,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From a40ece364c07f48b139fd7846e61e32de23d7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:27 +0000
Subject: [PATCH 21/46] fix: copies of a ParallelVector share its Petsc vector
 instead of destroying it twice

---
 src/Vector.hpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index d568a6c..fa74278 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1021,7 +1021,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1102,6 +1102,39 @@ public:
 
     // }
 
+    // Copies share the Petsc vector, which is destroyed along with the last of them
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        raw_data(other.raw_data),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        if (is_created) {
+            PetscObjectReference((PetscObject) vec);
+        }
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) {
+                PetscObjectReference((PetscObject) other.vec);
+            }
+            if (is_created) {
+                VecDestroy(&vec);
+            }
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            raw_data = other.raw_data;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
-- 
2.43.0


From f0af9e320c4b76b3a5051f18421a1d00b192a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:27 +0000
Subject: [PATCH 22/46] fix: copies of a ParallelMatrix share its Petsc matrix,
 assignment frees the replaced one

---
 src/Matrix.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 7868eea..95187d4 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1273,11 +1273,20 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Copies share the Petsc matrix, which is destroyed along with the last of them
+        if (is_created) {
+            PetscObjectReference((PetscObject) mat);
+        }
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) {
+                MatDestroy(&mat);
+            }
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
-- 
2.43.0


From 2fc279063586bbb2ce4720cc4888f17bc2a61155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:27 +0000
Subject: [PATCH 23/46] fix: ParallelMatrix reports the local sizes Petsc
 decided on

---
 src/Matrix.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 95187d4..b6852a7 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1163,6 +1163,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setFromOptions();
+        updateLocalSizes();
     
     }
 
@@ -1177,6 +1178,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setType(matrix_type);
+        updateLocalSizes();
     
     }
 
@@ -1194,6 +1196,7 @@ public:
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
+        updateLocalSizes();
 
     }
 
@@ -1211,6 +1214,7 @@ public:
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
+        updateLocalSizes();
 
     }
 
@@ -1346,6 +1350,12 @@ public:
         return MatSetType(mat, matrix_type);
     }
 
+    // Replaces PETSC_DECIDE by the sizes Petsc decided on
+    Petsc::ErrorCode updateLocalSizes() {
+        MatSetUp(mat);
+        return MatGetLocalSize(mat, &local_rows, &local_cols);
+    }
+
     Petsc::ErrorCode setFromOptions() {
         return MatSetFromOptions(mat);
     }
-- 
2.43.0


From 9085043b92c5d66002cb669d2238982681ab982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:46 +0000
Subject: [PATCH 24/46] fix: ParallelIdentityMatrix of a given type keeps its
 ones

---
 src/SpecialMatrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index dc3b5de..15dd30a 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -59,7 +59,7 @@ public:
 
         //
         MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
-        MatSetType(this->mat, matrix_type);
+        MatConvert(this->mat, matrix_type, MAT_INPLACE_MATRIX, &this->mat);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From aa8f36fcd797274ef6454e34f75c10e892d1db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 25/46] fix: option values keep their text, sign and exponent

---
 src/Options.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..ed8276d 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -1,5 +1,9 @@
 #include "Options.hpp"
 
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
+
 namespace EllipticForest {
 
 Options::Options()
@@ -95,23 +99,29 @@ Options::OptionTypes Options::checkValue(std::string value) {
         return (bool) false;
     }
     else if (isDouble(value)) {
-        return (double) std::stod(value);
+        return (double) std::strtod(value.c_str(), nullptr);
     }
     else if (isInt(value)) {
         return (int) std::stoi(value);
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    // The whole string has to be a decimal number that is not an integer
+    if (str.empty() || str.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
+    char* end;
+    std::strtod(str.c_str(), &end);
+    return *end == '\0' && !isInt(str);
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    // The whole string has to be digits, maybe with a sign, and the number has to fit
+    if (str.find_first_not_of("0123456789", str[0] == '-' || str[0] == '+') != std::string::npos) return false;
+    char* end;
+    errno = 0;
+    long number = std::strtol(str.c_str(), &end, 10);
+    return end != str.c_str() && errno == 0 && number >= INT_MIN && number <= INT_MAX;
 }
 
 } // NAMESPACE : EllipticForest
\ No newline at end of file
-- 
2.43.0


From 06d110b4e69b9808c768f56cbfa216f764380163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 26/46] fix: text options from a file keep the blanks inside
 them

---
 src/Options.cpp | 3 ++-
 src/Options.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index ed8276d..71c8547 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -88,7 +88,8 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    str.erase(0, str.find_first_not_of(" \t\r"));
+    str.erase(str.find_last_not_of(" \t\r") + 1);
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..b4ef348 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -128,7 +128,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From 161f979af27cb02c7c3949ffb24afdbc319ad2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 27/46] fix: sections of option files with CRLF line ends are
 recognised

---
 src/Options.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 71c8547..986b832 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -51,8 +51,7 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        stripWhitespace(line);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
-- 
2.43.0


From 02690f0c8eca8524688aae7f2271b0dea7944677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 28/46] fix: too short a file name for options is rejected like
 any other wrong one

---
 src/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 986b832..f2a5d8b 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -22,7 +22,7 @@ void Options::setOption(std::string const key, OptionTypes const value) {
 }
 
 void Options::setFromFile(std::string filename) {
-    if (filename.substr(filename.length() - 3) == "ini") {
+    if (filename.length() >= 3 && filename.substr(filename.length() - 3) == "ini") {
         // Read from .ini file
         readINIFile(filename, "EllipticForest");
     }
-- 
2.43.0


From fc69507d70fd90719e3d555a6bdec5d2705e2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 29/46] fix: short command line options are typed like long
 ones

---
 src/InputParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputParser.cpp b/src/InputParser.cpp
index 3bad9cb..2850df4 100644
--- a/src/InputParser.cpp
+++ b/src/InputParser.cpp
@@ -27,7 +27,7 @@ void InputParser::parse(Options& options) {
                 if (option.find('=') != std::string::npos) {
                     std::string value = option.substr(option.find('=') + 1);
                     option = option.substr(0, option.find('='));
-                    options[option] = value;
+                    options[option] = options.checkValue(value);
                 }
                 else {
                     options[option] = "";
-- 
2.43.0


From 53389c946676247ce59a9d62639a4adc67e193c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:10 +0000
Subject: [PATCH 30/46] fix: VTK text of a vector keeps its numbers' precision,
 and works for empty vectors

---
 src/Vector.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index fa74278..31d9f25 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
+#include <sstream>
 #include <string>
 
 #include <petsc.h>
@@ -727,8 +729,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return "0";
         NumericalType min = *std::min_element(data_.begin(), data_.end());
-        return std::to_string(min);
+        return toText(min);
     }
 
     /**
@@ -737,8 +740,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return "0";
         NumericalType max = *std::max_element(data_.begin(), data_.end());
-        return std::to_string(max);
+        return toText(max);
     }
 
     /**
@@ -748,10 +752,19 @@ public:
      */
     virtual std::string getData() {
         std::string str = "";
-        for (auto p : data_) { str += std::to_string(p) + " "; }
+        for (auto p : data_) { str += toText(p) + " "; }
         return str;
     }
 
+protected:
+
+    // Text that reads back as the same number
+    static std::string toText(NumericalType value) {
+        std::ostringstream oss;
+        oss << std::setprecision(std::numeric_limits<NumericalType>::max_digits10) << value;
+        return oss.str();
+    }
+
 };
 
 /**
-- 
2.43.0


From ec365a4b0b1b486a77c1a70856eda6d481f25fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:10 +0000
Subject: [PATCH 31/46] fix: copies of a vector keep its name, type and
 component count

---
 src/Vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 31d9f25..bac48ae 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -109,6 +109,9 @@ public:
         std::vector<NumericalType> dataCopy = v.data();
         size_ = sizeCopy;
         data_ = dataCopy;
+        name_ = v.name_;
+        vtkComponents_ = v.vtkComponents_;
+        vtkType_ = v.vtkType_;
     }
     
     /**
@@ -119,6 +122,9 @@ public:
     Vector(const Vector& v) {
         size_ = v.size();
         data_ = v.data();
+        name_ = v.name_;
+        vtkComponents_ = v.vtkComponents_;
+        vtkType_ = v.vtkType_;
     }
 
     /**
-- 
2.43.0


From df7e6a06ecd7ef08bf50820e684279ec5a72841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:10 +0000
Subject: [PATCH 32/46] fix: one VTK offset and type per cell of a mesh

---
 src/Mesh.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..e35c434 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -241,13 +241,10 @@ public:
                             index + 3
                         };
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From 1a1800e9e7cce49bc87f1c2f7970045394893d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:10 +0000
Subject: [PATCH 33/46] fix: refining a mesh again replaces its VTK points and
 cells

---
 src/Mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index e35c434..5d8e007 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -185,6 +185,13 @@ public:
      */
     void setMeshFromQuadtree() {
 
+        npoints = 0;
+        ncells = 0;
+        points = {};
+        connectivity = {};
+        offsets = {};
+        types = {};
+
         points.name() = "points";
         points.setNumberOfComponents("3");
         connectivity.name() = "connectivity";
-- 
2.43.0


From 632aa4cc00b15afa5d6ab8d8b7f4a3e9e4163ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:10 +0000
Subject: [PATCH 34/46] fix: a mesh writes its VTK files on its own
 communicator

---
 src/Mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 5d8e007..2656f65 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -407,7 +407,7 @@ public:
             snprintf(buffer, 32, "%04i", number);
             meshFilename += "-" + std::string(buffer);
         }
-        PUnstructuredGridVTK pvtu{};
+        PUnstructuredGridVTK pvtu{this->getComm()};
         pvtu.buildMesh(*this);
         for (auto& meshFunction : mesh_functions) {
             pvtu.addCellData(*meshFunction);
-- 
2.43.0


From b2c972aba497db127539acda0942a6c0901001fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 35/46] fix: a mesh frees the vectors of the functions it
 sampled

---
 src/Mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 2656f65..425da69 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -1,6 +1,8 @@
 #ifndef MESH_HPP_
 #define MESH_HPP_
 
+#include <memory>
+
 #include "Vector.hpp"
 #include "Quadtree.hpp"
 #include "MPI.hpp"
@@ -375,6 +377,7 @@ public:
         });
 
         Vector<double>* meshFunctionVector = new Vector<double>(ncells);
+        sampled_functions_.emplace_back(meshFunctionVector);
         meshFunctionVector->name() = meshFunctionName;
         int i = 0;
         iterateCells([&](double xc, double yc){
@@ -391,6 +394,7 @@ public:
      */
     void clearMeshFunctions() {
         mesh_functions.clear();
+        sampled_functions_.clear();
     }
 
     /**
@@ -429,6 +433,9 @@ public:
 
 private:
 
+    // Vectors of the functions the mesh sampled itself (the others belong to the user)
+    std::vector<std::shared_ptr<Vector<double>>> sampled_functions_{};
+
     // Variables to pass to p4est_refine via this pointer
     /**
      * @brief The refine function
-- 
2.43.0


From 369566f6be79c32c664d01b375d81efa622bd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 36/46] fix: VTK files can be written more than once

---
 src/VTK.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..43d8dcc 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -101,6 +101,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        root_.children.clear();
         root_.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
@@ -184,6 +185,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        root_.children.clear();
         root_.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
@@ -283,6 +285,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        root_.children.clear();
         root_.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
-- 
2.43.0


From 79654bb82eac67fa437269d9067019b2100e342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 37/46] fix: free the data array nodes of written VTK files

---
 src/VTK.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 43d8dcc..42f1680 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -2,6 +2,14 @@
 
 namespace EllipticForest {
 
+// Deletes the data array nodes made for the nodes of a file that has been written
+static void deleteChildren(std::vector<XMLNode*> nodes) {
+    for (auto& node : nodes) {
+        for (auto& child : node->children) delete child;
+        node->children.clear();
+    }
+}
+
 XMLNode* DataArrayNodeBase::toVTK() {
     XMLNode* node_data_array = new XMLNode("DataArray");
     node_data_array->addAttribute("type", getType());
@@ -113,6 +121,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLTree tree(root_);
         tree.write(filename);
+        deleteChildren({&node_cell_data, &node_point_data, &node_coordinates});
 
     }
     else {
@@ -201,6 +210,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 
         XMLTree tree(root_);
         tree.write(filename);
+        deleteChildren({&node_points, &node_cells, &node_cell_data, &node_point_data});
         
     }
     else {
@@ -298,6 +308,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         // Write to file
         XMLTree tree(root_);
         tree.write(filenameBase + ".pvtu");
+        deleteChildren({&node_p_points, &node_p_pointData, &node_p_cell_data});
 
     }
 
-- 
2.43.0


From 7deed7ba6f2a2166645375e3a1616a3a8ab28a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 38/46] fix: parallel VTK index declares its own file type

---
 src/VTK.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 42f1680..7d683d4 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -222,7 +222,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -230,7 +230,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
-- 
2.43.0


From 53adac685a210a25cb3029709c6fc97ffc911cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 39/46] fix: pieces are named relative to the parallel VTK
 index

---
 src/VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 7d683d4..7bb914a 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -290,7 +290,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             snprintf(str_buffer, 256, filename.c_str(), i);
             filename = std::string(str_buffer);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", filename.substr(filename.find_last_of('/') + 1)); // Relative to the metadata file
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From 4ebd093057e29298f6ac8c94b9ced084827b047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 40/46] fix: names of VTK files are not format strings and not
 cut off

---
 src/VTK.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 7bb914a..460d134 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -250,10 +250,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    std::string filename = filenameBase + str_buffer;
     vtu.toVTK(filename);
 
     // Head rank writes metadata file
@@ -286,9 +285,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
+            filename = filenameBase + str_buffer;
             XMLNode node_piece("Piece");
             node_piece.addAttribute("Source", filename.substr(filename.find_last_of('/') + 1)); // Relative to the metadata file
             node_piece_vector.push_back(node_piece);
-- 
2.43.0


From 2c715abb172f47fed0a91a566b9da0a8176941a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 41/46] fix: special characters in XML attributes are escaped

---
 src/XMLTree.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..1e1d1c5 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -38,13 +38,26 @@ void XMLTree::write(std::string filename) {
     file.close();
 }
 
+// Replaces the characters that have a meaning in an attribute
+static std::string escape(const std::string& text) {
+    std::string escaped = "";
+    for (auto c : text) {
+        if (c == '&') escaped += "&amp;";
+        else if (c == '<') escaped += "&lt;";
+        else if (c == '>') escaped += "&gt;";
+        else if (c == '"') escaped += "&quot;";
+        else escaped += c;
+    }
+    return escaped;
+}
+
 void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write header
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escape(attributePair.second) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
-- 
2.43.0


From bf7e7d00bafdca7f1f559b2022644b31d81f0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:11 +0000
Subject: [PATCH 42/46] fix: building a rectilinear grid again replaces its
 coordinates

---
 src/VTK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 460d134..f16afb0 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -49,6 +49,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear();
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
-- 
2.43.0


From bbee13b47a6db5f48527066da73f6be2a940f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:31 +0000
Subject: [PATCH 43/46] fix: stopping a timer that is not running adds no time

---
 src/Timer.cpp | 3 +++
 src/Timer.hpp | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index e9b31e8..3904f5d 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -7,9 +7,12 @@ Timer::Timer()
 
 void Timer::start() {
     startTime_ = Clock::now();
+    running_ = true;
 }
 
 double Timer::stop() {
+    if (!running_) return 0;
+    running_ = false;
     endTime_ = Clock::now();
     std::chrono::duration<double> diff = endTime_ - startTime_;
     accumulatedTime_ += diff.count();
diff --git a/src/Timer.hpp b/src/Timer.hpp
index 499c5c1..472e892 100644
--- a/src/Timer.hpp
+++ b/src/Timer.hpp
@@ -35,7 +35,7 @@ public:
     void start();
 
     /**
-     * @brief Stops the timer and returns the elapsed time
+     * @brief Stops the timer and returns the elapsed time (zero if the timer is not running)
      * 
      * @return double 
      */
@@ -62,6 +62,12 @@ private:
      */
     double accumulatedTime_ = 0;
 
+    /**
+     * @brief Flag for a started timer that has not been stopped yet
+     * 
+     */
+    bool running_ = false;
+
     /**
      * @brief Start time of trigger
      * 
-- 
2.43.0


From f968fba8559cd4e1bce61d2a22ca12fe69ff3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:31 +0000
Subject: [PATCH 44/46] fix: the destroyed application object is no longer
 handed out

---
 src/EllipticForestApp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 98e405b..d2b65f5 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -57,6 +57,8 @@ EllipticForestApp::~EllipticForestApp() {
 #endif
         MPI_Finalize();
     }
+
+    if (this->actualClassPointer_ == this) this->actualClassPointer_ = nullptr;
 }
 
 void EllipticForestApp::addTimer(std::string name) {
-- 
2.43.0


From 62fad4c2159d41076a58dc86a8358d3f69c98d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:02 +0000
Subject: [PATCH 45/46] fix: Vector's -=, *= and /= with one of its own entries
 use the entry's old value

---
 src/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index bac48ae..8d355c6 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -591,7 +591,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator-=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator-=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] -= rhs;
         }
@@ -633,7 +633,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator*=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator*=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] *= rhs;
         }
@@ -668,7 +668,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator/=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator/=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] /= rhs;
         }
-- 
2.43.0


From d93308ed7903862ca25f97f65897224c16fcd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:27 +0000
Subject: [PATCH 46/46] fix: a build no longer uses leaf operators cached by an
 earlier build

---
 src/HPSAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 03f7b8d..08a3a03 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -125,6 +125,9 @@ public:
         app.addTimer("build-stage");
         app.timers["build-stage"].start();
 
+        // Leaf operators of an earlier build may be of another mesh or other coefficients
+        matrixCache = DataCache<Matrix<NumericalType>>{};
+
         mesh.quadtree.merge(
             [&](Node<PatchType>* leaf_node){
                 // app.log("Leaf callback: path = " + leaf_node->path);
-- 
2.43.0

