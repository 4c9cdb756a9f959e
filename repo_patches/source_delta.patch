From 4e900ca572f2c2558d0d6edefe4656632578c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 01/47] fix: assigning an empty matrix empties the destination

---
 include/malg/matrix.hpp | 62 +++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..8f62c7b 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -261,17 +261,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -285,17 +283,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -307,17 +303,15 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -354,7 +348,7 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
-- 
2.43.0


From a1effffd417e3df3ff4de8bf59ebc0140337c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 02/47] fix: a moved-from matrix is left empty

---
 include/malg/matrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 8f62c7b..9ff1efa 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,9 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The source has no data left.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -354,6 +356,9 @@ public:
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The source has no data left.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 5c88700982bc6be83b0106f54d3bf3b30186d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 03/47] fix: assigning to a matrix a view on itself reads the
 data before replacing it

---
 include/malg/matrix.hpp | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 9ff1efa..1bfde77 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -285,17 +285,8 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
+        // The source may be a view on this matrix, read it before we change it.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
@@ -305,17 +296,8 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
+        // The source may be a view on this matrix, read it before we change it.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
-- 
2.43.0


From 909246a455f4721002a159514893b5cc813d74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 04/47] fix: matrices and vectors of another element type can
 be assigned and converted, also from temporaries

---
 include/malg/matrix.hpp | 29 +----------------------------
 include/malg/vector.hpp | 28 ----------------------------
 2 files changed, 1 insertion(+), 56 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 1bfde77..8f62112 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -178,17 +178,6 @@ public:
         rhs._cols = 0;
     }
 
-    /// @brief Construct a new Matrix object.
-    /// @tparam T2 the type of the other matrix.
-    /// @param rhs the other matrix.
-    template <typename T2>
-    explicit Matrix(Matrix<T2> &&rhs)
-        : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
-    {
-        // Nothing to do.
-    }
-
     /// @brief Destroy the Matrix object.
     virtual ~Matrix() override
     {
@@ -307,23 +296,7 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
-                }
-            }
-        }
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..18bac78 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -129,20 +129,6 @@ public:
         }
     }
 
-    /// @brief Copy construct a new Vector object.
-    /// @param other the other vector.
-    template <typename T2>
-    explicit Vector(Vector<T2> &&other)
-        : _data(),
-          _size()
-    {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
-    }
-
     /// @brief Destroy the Vector object.
     ~Vector()
     {
@@ -254,20 +240,6 @@ public:
         return *this;
     }
 
-    /// @brief Assignment operator.
-    /// @param other the other vector.
-    /// @returns this vector.
-    template <typename T2>
-    inline auto &operator=(Vector<T2> &&other)
-    {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
-        return *this;
-    }
-
     /// @brief Provides a pointer to the begining of the vector.
     /// @returns the pointer.
     inline const_iterator begin() const
-- 
2.43.0


From deeb058ee9223fb927610078211fdbad06117b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 05/47] fix: linear indexing of a cofactor view of a non-square
 matrix

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From dc45cdcbabe01996a7c9ce2dfbab3feca9b27c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 06/47] fix: assigning a cofactor view to another writes the
 elements through, as for views

---
 include/malg/view.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..6a8148b 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -316,6 +316,19 @@ public:
         return *this;
     }
 
+    /// @brief Assign operator.
+    /// @param rhs the other view.
+    /// @returns a reference to this view.
+    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    {
+        assert(this->rows() == rhs.rows());
+        assert(this->cols() == rhs.cols());
+        for (std::size_t r = 0; r < rhs.rows(); ++r)
+            for (std::size_t c = 0; c < rhs.cols(); ++c)
+                this->at(r, c) = rhs(r, c);
+        return *this;
+    }
+
     /// @brief Returns a pointer to the content.
     /// @returns the pointer.
     inline T *data() override
-- 
2.43.0


From a30691729afb7917f97f58ba7619fb00e13c660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 07/47] fix: extracting from a start beyond the matrix is
 rejected

---
 include/malg/utility.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..e689724 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -346,6 +346,12 @@ inline auto extract(const MatrixBase<T> &matrix,
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     end_column      = std::min(matrix.cols(), end_column);
+    if (start_row >= end_row) {
+        throw std::invalid_argument("The starting row is outside the matrix.");
+    }
+    if (start_column >= end_column) {
+        throw std::invalid_argument("The starting column is outside the matrix.");
+    }
     Matrix<data_type> result(end_row - start_row, end_column - start_column, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         for (std::size_t c = start_column; c < end_column; ++c) {
@@ -375,6 +381,9 @@ inline auto extract_column(const MatrixBase<T> &matrix,
     }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
+    if (start_row >= end_row) {
+        throw std::invalid_argument("The starting row is outside the matrix.");
+    }
     Vector<data_type> result(end_row - start_row, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         result[r - start_row] = matrix(r, column);
@@ -402,6 +411,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     }
     using data_type = std::remove_const_t<T>;
     end_column      = std::min(matrix.cols(), end_column);
+    if (start_column >= end_column) {
+        throw std::invalid_argument("The starting column is outside the matrix.");
+    }
     Vector<data_type> result(end_column - start_column, data_type(0.));
     for (std::size_t c = start_column; c < end_column; ++c) {
         result[c - start_column] = matrix(row, c);
-- 
2.43.0


From 2fc0fb576ccbd4b5fd3a829cc31952a3dde645b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 08/47] fix: in-place matrix product with a non-square matrix
 is rejected

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..9aaa2ad 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the second matrix must be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From 4df2bcda4d4637353bc979a3c8f15f6a63b4c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 09/47] fix: matrix-vector products with incompatible sizes are
 rejected

---
 include/malg/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 9aaa2ad..6f0a5f9 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -928,6 +928,10 @@ inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -973,6 +977,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From de388062e726a24e5ef19c47feaacfbaaaff2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 10/47] fix: determinant of a singular matrix larger than 4x4
 is zero

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..201faae 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From ce5654f11e01005e16991dd10e1c3b42e707b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 11/47] fix: trace of a matrix with more rows than columns

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 6f0a5f9..c2e2515 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1232,7 +1232,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From 7074184c17b44ff441284f4d368f1cc887e78051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 12/47] fix: find returns the first or last n indices

---
 include/malg/utility.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index e689724..6a26ccc 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -954,11 +954,10 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + static_cast<std::ptrdiff_t>(n));
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - static_cast<std::ptrdiff_t>(n), index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From d3ac9beb007b00d5134a592c4bddf762ea3f2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 13/47] fix: element-wise functions (abs, real, imag, ...)
 return the computed values

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index c2e2515..7ae4e2c 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1004,9 +1004,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1023,7 +1025,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From e9a4088d26ef3d10f98f8f4ddad8073fa342904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 14/47] fix: simulate sets the last time stamp

---
 include/malg/control/control.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..63284c4 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,7 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From 5f211584d7e2db36672e52d7153da892459132c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 15/47] fix: the comparison tolerance is shared by all
 translation units

---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..e5b87e0 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -12,7 +12,7 @@
 namespace malg::feq
 {
 
-static inline auto &tolerance()
+inline auto &tolerance()
 {
     static double tol = 1e-06;
     return tol;
-- 
2.43.0


From 4f84fdbb5de2069c9420038d0cfc9287daa5413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 16/47] fix: reading from an exhausted or truncated file does
 not use uninitialised values

---
 include/malg/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..b854b13 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -161,8 +161,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -188,8 +188,8 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From b055dc03025f6bc512a947d7581f2d73ff3ddc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 17/47] fix: in-place operators between a matrix or vector and
 a scalar update the operand and return it

---
 include/malg/math.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 7ae4e2c..045e408 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 3e668a0faef7f523b667541864a07dad1600093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 18/47] fix: a complex scalar can multiply a vector from the
 left

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 045e408..83aee5a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -853,7 +853,7 @@ inline auto operator*(const malg::Vector<T1> &a, const T2 &b)
 /// @param a the vector.
 /// @param b the scalar.
 /// @returns a vector containing the multiplication of the scalar for the vector.
-template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1>, T1>>
+template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1> || malg::is_complex_v<T1>, T1>>
 inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 {
     // Select the right type.
-- 
2.43.0


From 1fc6d3fe8e4a5aa3d1b8b707f48dbb2c5684331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 19/47] fix: approximate comparison between values of different
 types

---
 include/malg/feq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index e5b87e0..b2cda15 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -26,7 +26,8 @@ inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    using abs_type_t = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    return std::abs(a - b) <= tolerance() * std::max<abs_type_t>(std::abs(a), std::abs(b));
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
-- 
2.43.0


From 91b9b208a7bd6b52cc842ba5a542b5d6cdc4617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 20/47] fix: all and any accept complex elements

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 83aee5a..d4dd7fb 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1333,7 +1333,7 @@ template <typename T>
 inline bool all(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] == 0) {
+        if (a[i] == T(0)) {
             return false;
         }
     }
@@ -1348,7 +1348,7 @@ template <typename T>
 inline bool all(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] == 0) {
+        if (v[i] == T(0)) {
             return false;
         }
     }
@@ -1363,7 +1363,7 @@ template <typename T>
 inline bool any(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] != 0) {
+        if (a[i] != T(0)) {
             return true;
         }
     }
@@ -1378,7 +1378,7 @@ template <typename T>
 inline bool any(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] != 0) {
+        if (v[i] != T(0)) {
             return true;
         }
     }
-- 
2.43.0


From 5c7a1893dda4e54eb9e116a2071149391fa9c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 21/47] fix: sign, norms and column length accept both real and
 complex elements

---
 include/malg/math.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index d4dd7fb..115f959 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1143,10 +1143,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1155,10 +1156,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
@@ -1178,11 +1180,11 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param r_end the ending row.
 /// @returns the mangnitude of the column vector.
 template <typename T>
-inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
+inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
@@ -1393,7 +1395,7 @@ inline auto square_norm(const malg::Vector<T> &v)
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1412,7 +1414,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1429,7 +1431,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
@@ -1480,7 +1482,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
-- 
2.43.0


From c196513ab1ae7f4799c89ac84df5bfbb28522994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 22/47] fix: identity can be built without an explicit diagonal
 value

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 6a26ccc..3c58121 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -63,7 +63,7 @@ inline auto eye(std::size_t rows, std::size_t cols, T value)
 /// @param value value for the diagonal.
 /// @returns the identity matrix.
 template <typename T>
-inline auto identity(std::size_t N, T value)
+inline auto identity(std::size_t N, T value = T(1))
 {
     return utility::eye<T>(N, N, value);
 }
-- 
2.43.0


From 4eec1c012d45865d9ef0b367028e2d8a584690ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 23/47] fix: a vector can be stacked to a matrix

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 3c58121..9c73dbb 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From 8f6f4f9522cb09cde3a20314ef1b42ac0544644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 24/47] fix: structural predicates (diagonal, triangular, zero,
 constant, identity) accept every matrix

---
 include/malg/utility.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 9c73dbb..58f68e9 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -571,7 +571,7 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
         for (std::size_t j = 0; j < matrix.cols(); ++j) {
-            if ((i != j) && (matrix(i, j) != 0)) {
+            if ((i != j) && (matrix(i, j) != T(0))) {
                 return false;
             }
         }
@@ -586,7 +586,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -596,7 +601,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[0]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -654,7 +664,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.cols(); ++j) {
+            if (matrix(i, j) != T((i == j) ? 1 : 0)) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
@@ -712,7 +729,7 @@ inline auto is_lower_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = r + 1; c < matrix.cols(); ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
@@ -732,7 +749,7 @@ inline auto is_upper_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < r; ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
-- 
2.43.0


From 7cd93fca102b98240a7532a53040677ea8d55af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 25/47] fix: hermitian transpose returns a complex matrix

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 201faae..f7447df 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From 51486c1655d32049e393e94cb1b91bfee5213029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 26/47] fix: LU decomposition of constant views

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index f7447df..1ecfd40 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -314,8 +314,8 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
         throw std::invalid_argument("The input matrix is not square.");
     }
     std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    Matrix<std::remove_const_t<T>> l(N, N, 0);
+    Matrix<std::remove_const_t<T>> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
-- 
2.43.0


From 0480cf5f06e13cbac5f2fc0a75f5c7bd6a94ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 27/47] fix: the observability matrix can be computed

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 63284c4..363aaaf 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -195,7 +195,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
-- 
2.43.0


From 07b6b8f97078342515dbdfc61bda41d2613d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 28/47] fix: polyreduce accepts complex coefficients

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 363aaaf..eb6efda 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -228,7 +228,7 @@ inline auto polyreduce(const Vector<T> &a)
 {
     std::size_t i, j;
     for (j = 0; j < a.size(); ++j) {
-        if (a[j] != 0) {
+        if (a[j] != T(0)) {
             break;
         }
     }
-- 
2.43.0


From c528a8fff95ab425e91b3bf2a074d4bce0273566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 29/47] fix: to_cpp can be used

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index b854b13..2577cf9 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -330,13 +330,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -354,20 +354,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From c97066f2a60faabd985bb1c5b67562f60f4715aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 30/47] fix: constant complex values are recognised as complex

---
 include/malg/type_traits.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..c81e6fc 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,13 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief Specialization for constant complex values (e.g., the elements of constant views).
+/// @tparam T the internal type of a complex.
+template <typename T>
+struct is_complex<const std::complex<T>> : public std::true_type {
+    using type = T; ///< An alias for T.
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From 6c437c298f4462bf37c3e200a39cc30427652689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 31/47] fix: product of a scalar and a vector

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 115f959..6ae1b3b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -859,9 +859,9 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From 9918d68ed6b3a472dec2674e116505efbdafbd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 32/47] fix: QR decomposition and solve can be used, and
 reflect zero columns and wide matrices

---
 include/malg/linalg.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 1ecfd40..de25385 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -266,12 +266,16 @@ inline auto qr_decomposition(const Matrix<T> &A)
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
     // This function is required to build the householder.
     static auto make_householder = [](const Vector<data_type_t> &a) {
+        // There is nothing to mirror.
+        if (malg::feq::approximately_equal_to_zero(malg::square_norm(a))) {
+            return utility::eye(a.size(), a.size(), data_type_t(1.));
+        }
         // Find prependicular vector to mirror.
         auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -282,7 +286,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
     Matrix<data_type_t> H(R.rows(), R.rows(), data_type_t(0.));
 
     // Compute Q and R.
-    for (std::size_t i = 0; i < (R.cols() - (R.cols() == R.rows())); ++i) {
+    for (std::size_t i = 0; i < std::min(R.cols(), R.rows() - 1); ++i) {
         // Initialize holder.
         for (std::size_t r = 0; r < H.rows(); ++r) {
             for (std::size_t c = 0; c < H.cols(); ++c) {
@@ -290,7 +294,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
         // Update Q and R.
         Q = Q * H;
         R = H * R;
@@ -360,9 +364,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From f69b8caeb5b7ae844bd79c0221b6c39bc93ac2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 33/47] fix: determinant of matrices larger than 4x4 with
 pivots that are zero but for the round-off

---
 include/malg/linalg.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index de25385..1ca9277 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -165,6 +165,19 @@ inline auto determinant(const MatrixBase<CT> &matrix)
     for (c = 0; c < N; ++c) {
         // If we have a negative value on the diagonal, we need to move it
         // somewhere else.
+        if constexpr (!std::is_integral_v<T>) {
+            // A pivot which is zero but for the round-off would make the result
+            // meaningless, so we select the element with the largest magnitude.
+            for (k = c, r = c + 1; r < N; ++r) {
+                if (std::abs(A(r, c)) > std::abs(A(k, c))) {
+                    k = r;
+                }
+            }
+            if (k != c) {
+                utility::swap_rows(A, c, k);
+                det *= -1;
+            }
+        }
         if (malg::feq::approximately_equal_to_zero(A(c, c))) {
             // Right now, I'm trying to find a place below the current
             k = c + 1;
-- 
2.43.0


From 0860f029ff3fa6abe7429644ae37850060d73c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 34/47] fix: a view with elements is not empty

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From 1706e2680298d2926e5c26eef3dec31900646897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 35/47] fix: a view that starts beyond the (possibly shrunk)
 matrix has no elements

---
 include/malg/view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 6a8148b..79a9d66 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -73,14 +73,16 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return std::min(_row.stop, _matrix->rows()) - _row.start;
+        const std::size_t stop = std::min(_row.stop, _matrix->rows());
+        return (stop > _row.start) ? (stop - _row.start) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return std::min(_col.stop, _matrix->cols()) - _col.start;
+        const std::size_t stop = std::min(_col.stop, _matrix->cols());
+        return (stop > _col.start) ? (stop - _col.start) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0


From 942801616d88126e00046bdd3ff59e37ce786d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 36/47] fix: the element-wise exponential does not transpose
 the matrix

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 1ca9277..c20bc76 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -403,10 +403,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From b87f2c576f2437a5d56892e6918550ed2a07225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 37/47] fix: element-wise product and linear combination of
 different element types

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 6ae1b3b..535a143 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1200,7 +1200,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1212,7 +1212,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From c98d9959a364501b0cb54c946dca504ce33f5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 38/47] fix: in-place operations with an element of the operand
 itself as scalar use its value throughout

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 535a143..392f543 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -262,7 +262,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -294,7 +294,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 23d0be5f4182b4fe888799be9cd96fad0a4b60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 39/47] fix: compare distinguishes matrices that differ at the
 first element from equal ones

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 58f68e9..7794230 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -1000,10 +1000,10 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
         if (A[i] < B[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (A[i] > B[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
@@ -1025,10 +1025,10 @@ inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
         if (a[i] < b[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (a[i] > b[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
-- 
2.43.0


From 7fe92a99ee49adf4dcf00da6c34c9fd4ec9bff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 40/47] fix: a matrix with a non-zero diagonal is not skew
 symmetric

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 7794230..63559ad 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -550,7 +550,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0


From 9dcce3a8ed11bb5271c4fbe700f27b02b049cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 41/47] fix: pole placement requires as many poles as there are
 states

---
 include/malg/control/control.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index eb6efda..41a858a 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -300,6 +300,11 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
         std::cerr << "acker: poles must be a vector.\n";
         exit(1);
     }
+    // There must be a pole for each state.
+    if (poles.cols() != A.rows()) {
+        std::cerr << "acker: the number of poles must be equal to the number of states.\n";
+        exit(1);
+    }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-- 
2.43.0


From 79e95cfffec6d7c8ca7c4ae3e8146a481cbb332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 42/47] fix: reducing a zero polynomial of complex coefficients
 gives one coefficient with every compiler

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 41a858a..c646a5d 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -233,7 +233,7 @@ inline auto polyreduce(const Vector<T> &a)
         }
     }
     if (j == a.size()) {
-        return Vector<T>({ 0 });
+        return Vector<T>(1, T(0));
     }
     Vector<T> c(a.size() - j);
     for (i = j; i < a.size(); ++i) {
-- 
2.43.0


From 4c1fef9a8ba7f8303b98b44a45c767a40114f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 43/47] fix: the Hessenberg reduction stays unitary when a
 column is zero but for rounding

---
 include/malg/eigen.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..4244e57 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -69,9 +69,11 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
             U[i] = H(i, k);
             ulength += std::norm(U[i]);
         }
-        ulength = std::max(std::sqrt(ulength), std::numeric_limits<T>::epsilon());
-        for (int i = k + 1; i < N; i++) {
-            U[i] /= ulength;
+        ulength = std::sqrt(ulength);
+        if (ulength > 0) {
+            for (int i = k + 1; i < N; i++) {
+                U[i] /= ulength;
+            }
         }
 
         // Householder Matrix: P = I - 2 U U*T
-- 
2.43.0


From 321172f94f388c43dc3cd01058c9c514a59b53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 44/47] fix: the QR iteration deflates and shifts by what is
 not triangular yet, so that it converges

---
 include/malg/eigen.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 4244e57..44b8a27 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -160,10 +160,17 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
     while ((residual > TOLERANCE) && (iter < ITERMAX)) {
         Told = UT;
 
-        // Spectral shift
-        std::complex<T> mu = wilkinson_shift(UT);
-        if (abs(mu) < std::numeric_limits<T>::epsilon()) {
-            mu = 1.0; // prevent unitary matrices causing a problem
+        // Spectral shift, taken from the leading part which is not triangular yet
+        std::size_t active = UT.rows();
+        const T negligible = std::numeric_limits<T>::epsilon() * malg::square_norm(UT);
+        while ((active > 1) && (std::abs(UT(active - 1, active - 2)) <= negligible)) {
+            --active;
+            UT(active, active - 1) = 0.;
+        }
+        std::complex<T> mu = wilkinson_shift(malg::utility::extract(UT, 0, active, 0, active));
+        if ((iter % 10 == 0) && (active > 1)) {
+            // prevent matrices on which the shift makes no progress (e.g., unitary ones) causing a problem
+            mu = UT(active - 1, active - 1) + T(0.75) * std::abs(UT(active - 1, active - 2));
         }
         UT = malg::linear_combination(UT, 1.0, I, -mu);
 
-- 
2.43.0


From 679dfa628beed5547a53c028c00caf245f4218b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 45/47] fix: eigen.hpp can be included more than once

---
 include/malg/eigen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 44b8a27..28aefd1 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
-- 
2.43.0


From 219e66f4341618090bd7fc95581fa2ab2e77a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 46/47] fix: the MATLAB text of a complex vector is MATLAB
 syntax

---
 include/malg/io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 2577cf9..8eae628 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -284,7 +284,11 @@ inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
     std::stringstream ss;
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
-        ss << v[i];
+        if constexpr (malg::is_complex_v<T>) {
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
+        } else {
+            ss << v[i];
+        }
         if (i < (v.size() - 1)) {
             ss << " ";
         }
-- 
2.43.0


From cedf3d4d38d2237acd37c39c872fe49e050b77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 47/47] fix: eigenvectors of matrices with small elements

The factorisations behind eigen took every element below the machine
epsilon for zero, whatever the size of the elements of the matrix.
---
 include/malg/eigen.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 28aefd1..c48f961 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -16,7 +16,9 @@
 #include "malg/math.hpp"
 #include "malg/matrix.hpp"
 
+#include <algorithm>
 #include <complex>
+#include <limits>
 
 namespace malg::eigen
 {
@@ -52,6 +54,8 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
     int N  = A.rows();
     auto P = malg::utility::identity<std::complex<T>>(N);
     auto H = A;
+    // What counts as zero, for matrices with small elements too.
+    const T zero = std::numeric_limits<T>::epsilon() * std::min<T>(1, malg::infinity_norm(A));
     for (int k = 0; k < N - 2; k++) // k is the working column
     {
         // X vector, based on the elements from k+1 down in the k-th column
@@ -62,7 +66,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
         std::complex<T> rho(1.0, 0.);
         auto xk  = H(k + 1, k);
         auto axk = std::abs(xk);
-        if (axk > std::numeric_limits<T>::epsilon()) {
+        if (axk > zero) {
             rho = -xk / axk;
         }
         U[k + 1]     = xk - rho * xlength;
@@ -102,10 +106,12 @@ auto qr_factorise_givens(const malg::Matrix<std::complex<T>> &A)
 {
     malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows());
     malg::Matrix<std::complex<T>> R(A);
+    // What counts as zero, for matrices with small elements too.
+    const T zero = std::numeric_limits<T>::epsilon() * std::min<T>(1, malg::infinity_norm(A));
     for (std::size_t i = 1, j = 0; i < A.rows(); ++i, j = i - 1) {
         // i : The row number
         // j : aiming to zero the element one place below the diagonal.
-        if (std::abs(R(i, j)) < std::numeric_limits<T>::epsilon()) {
+        if (std::abs(R(i, j)) <= zero) {
             continue;
         }
         // Form the Givens malg::Matrix<std::complex<T>>
@@ -215,6 +221,9 @@ auto eigenvectorUpper(const malg::Matrix<std::complex<T>> &M)
     // Columns of E will hold the eigenvectors.
     malg::Matrix<std::complex<T>> E(N, N, 0.);
 
+    // What counts as zero, for matrices with small elements too.
+    const T zero = std::numeric_limits<T>::epsilon() * std::min<T>(1, malg::infinity_norm(M));
+
     malg::Matrix<std::complex<T>> TT = M;
     for (int L = N - 1; L >= 0; L--) // find Lth eigenvector, working from the bottom
     {
@@ -235,9 +244,9 @@ auto eigenvectorUpper(const malg::Matrix<std::complex<T>> &M)
         for (int i = L - 1; i >= 0; i--) {
             V[i] = 0.0;
             for (int j = i + 1; j <= L; j++) V[i] -= TT(i, j) * V[j];
-            if (std::abs(TT(i, i)) < std::numeric_limits<T>::epsilon()) // problem with repeated eigenvalues
+            if (std::abs(TT(i, i)) <= zero) // problem with repeated eigenvalues
             {
-                if (std::abs(V[i]) > std::numeric_limits<T>::epsilon()) {
+                if (std::abs(V[i]) > zero) {
                     ok = false; // incomplete set; use the lower-L one only
                 }
                 V[i] = 0.0;
-- 
2.43.0

