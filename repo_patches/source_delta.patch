From e6d71cee1d6acd741841dcfb30957a10a4fde133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 01/78] fix: matrix self-assignment, copies of empty matrices
 and moved-from state

---
 inc/susa/matrix.h | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..400b1a5 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -90,7 +90,7 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     size_t          sizet_rows;
     size_t          sizet_cols;
     size_t          sizet_objects;
-    T*              T_default;
+    T               T_default{};
     Allocator       alloc;
     T*              _matrix;
 
@@ -392,7 +392,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
 , alloc()
 , _matrix(nullptr)
 {
@@ -401,8 +400,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
-: T_default(new T)
-, alloc()
+: alloc()
 , _matrix(nullptr)
 {
 
@@ -422,8 +420,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
-: T_default(new T)
-, alloc()
+: alloc()
 , _matrix(nullptr)
 {
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
@@ -435,8 +432,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
-: T_default(new T)
-, alloc(mat_arg.alloc)
+: alloc(mat_arg.alloc)
 , _matrix(nullptr)
 {
     this->sizet_rows      = mat_arg.sizet_rows;
@@ -451,8 +447,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
-: T_default(new T)
-, _matrix(nullptr)
+: _matrix(nullptr)
 {
     size_t sizet_rows;
     size_t sizet_cols;
@@ -467,8 +462,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tinitial)
-: T_default(new T)
-, _matrix(nullptr)
+: _matrix(nullptr)
 {
     size_t sizet_rows;
     size_t sizet_cols;
@@ -489,15 +483,16 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
+: alloc(std::move(mat_arg.alloc))
 {
-    sizet_rows          = mat_arg.sizet_rows;
-    sizet_cols          = mat_arg.sizet_cols;
-    sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
-    _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
-    mat_arg._matrix     = nullptr;
+    sizet_rows             = mat_arg.sizet_rows;
+    sizet_cols             = mat_arg.sizet_cols;
+    sizet_objects          = mat_arg.sizet_objects;
+    _matrix                = mat_arg._matrix;
+    mat_arg.sizet_rows     = 0;
+    mat_arg.sizet_cols     = 0;
+    mat_arg.sizet_objects  = 0;
+    mat_arg._matrix        = nullptr;
 }
 
 
@@ -505,7 +500,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
 , alloc()
 , _matrix(nullptr)
 {
@@ -514,7 +508,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 
 template <typename T, typename Allocator> matrix <T, Allocator>::~matrix() noexcept
 {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
 }
 
@@ -901,7 +894,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
-  return *T_default;
+  return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_row, size_t sizet_col ) const
@@ -921,7 +914,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
-    return *T_default;
+    return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_elem ) const
@@ -1292,6 +1285,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
@@ -1471,6 +1466,10 @@ template <typename T, typename Allocator>
 bool matrix <T, Allocator>::allocate(size_t sz_objects)
 {
     SUSA_ASSERT_MESSAGE(_matrix == nullptr, "not deallocated and may cause memory leak");
+
+    // an empty matrix does not own any memory
+    if (sz_objects == 0) return false;
+
     try
     {
         _matrix = alloc.allocate(sz_objects);
-- 
2.43.0


From 35e42e77b715d92e0b2ff147e97152229b8f5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 02/78] fix: matrix::right() on vectors started one element
 early

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 400b1a5..64ff897 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -819,7 +819,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
-- 
2.43.0


From 9de090fa0884cb6894f198ffb09a6a8692386ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 03/78] fix: bounds checks of matrix set_row, set_col,
 swap_rows and swap_cols

---
 inc/susa/matrix.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 64ff897..f70e35b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -612,8 +612,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -625,8 +625,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
@@ -660,6 +660,9 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "the column index is out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -673,6 +676,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "the row index is out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
-- 
2.43.0


From 6e99ff2e68d4e6582fbf464d860f8099296f7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 04/78] fix: out of range matrix accesses return a default when
 assertions are disabled

---
 inc/susa/matrix.h | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f70e35b..4082f6b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -519,7 +519,12 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
-  return _matrix[get_lindex(sizet_row,sizet_col)];
+  if (sizet_row < sizet_rows && sizet_col < sizet_cols && _matrix != nullptr)
+  {
+    return _matrix[get_lindex(sizet_row,sizet_col)];
+  }
+
+  return T();
 }
 
 template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t sizet_elem ) const
@@ -528,7 +533,12 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
-  return this->_matrix[sizet_elem];
+  if (sizet_elem < this->sizet_objects && _matrix != nullptr)
+  {
+    return this->_matrix[sizet_elem];
+  }
+
+  return T();
 }
 
 template <typename T, typename Allocator> inline size_t matrix <T, Allocator>::get_lindex(size_t sizet_row, size_t sizet_col) const
@@ -577,7 +587,9 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
-    matrix <T, Allocator> mat_ret(1, sizet_cols);
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+
+    matrix <T, Allocator> mat_ret(1, sizet_cols, T());
 
     if (sizet_row < sizet_rows)
     {
@@ -592,7 +604,9 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
-    matrix <T, Allocator> mat_ret(sizet_rows, 1);
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+
+    matrix <T, Allocator> mat_ret(sizet_rows, 1, T());
 
     if (sizet_col < sizet_cols)
     {
@@ -789,6 +803,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -800,6 +815,9 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -821,6 +839,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
@@ -834,6 +853,9 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -860,7 +882,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -874,7 +896,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -900,6 +922,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
+  // a previous out of range access may have changed the default value
+  T_default = T();
   return T_default;
 }
 
@@ -920,6 +944,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
+    // a previous out of range access may have changed the default value
+    T_default = T();
     return T_default;
 }
 
-- 
2.43.0


From 62cf4925f87750bf877290a0aca3a68e9c59807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 05/78] fix: operators on mismatched sizes returned
 uninitialized elements when assertions are disabled

---
 inc/susa/matrix.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4082f6b..b937ad1 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1101,6 +1101,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] + mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1153,6 +1157,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] - mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1203,6 +1211,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] * mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1253,6 +1265,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] / mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
-- 
2.43.0


From a0cd659c90c642df861fb5258c70771147e83c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 06/78] fix: parsing of strings without any element read before
 the buffer

---
 inc/susa/matrix.h | 21 ++++++++++-----------
 src/matrix.cpp    |  3 ++-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b937ad1..8d1ba3e 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1415,6 +1415,16 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
     pre_parser(str_string);
 
+    if (str_string.empty())
+    {
+        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
+        _matrix         = nullptr;
+        sizet_rows      = 0;
+        sizet_cols      = 0;
+        sizet_objects   = 0;
+        return false;
+    }
+
     size_t sizet_size  = 0;                     // linear size of the matrix (#rows * #columns)
     size_t sizet_cols_ = 0;                     // number of columns
     size_t sizet_rows_ = 0;                     // number of rows
@@ -1454,17 +1464,6 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     if (sizet_cols_ % sizet_rows_ != 0) return false;
     
 
-    if (sizet_size == 0)
-    {
-        sizet_rows      = 0;
-        sizet_cols      = 0;
-        sizet_objects   = 0;
-        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_size);
-        _matrix = nullptr;
-        return false;
-    }
-
-
     sizet_rows = sizet_rows_;
     sizet_cols = sizet_cols_ / sizet_rows_;
 
diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..5f7457d 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -101,7 +101,8 @@ void pre_parser(std::string& str_string)
     }
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
+    if (int_counter == 0) str_string.clear();
+    else if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
     else str_string.erase(int_counter,int_length - 1);
 }
 
-- 
2.43.0


From 507b2cf7567128418def09e21ffaccf1892726c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 07/78] fix: reject matrix strings with rows of different
 lengths

---
 inc/susa/matrix.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 8d1ba3e..6a8a91d 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1428,6 +1428,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     size_t sizet_size  = 0;                     // linear size of the matrix (#rows * #columns)
     size_t sizet_cols_ = 0;                     // number of columns
     size_t sizet_rows_ = 0;                     // number of rows
+    size_t sizet_prev  = 0;                     // number of columns up to the end of the previous row
+    size_t sizet_first = 0;                     // number of columns in the first row
+    bool   bool_equal  = true;                  // true if all the rows have the same number of columns
     int int_length     = str_string.length();   // length of the input string
 
 
@@ -1441,6 +1444,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             // since the number of rows are counted by number of space and the
             // spaces around ';' are cut, we also count a column here !
             sizet_cols_++;
+            if (sizet_first == 0) sizet_first = sizet_cols_;
+            if (sizet_cols_ - sizet_prev != sizet_first) bool_equal = false;
+            sizet_prev = sizet_cols_;
             break;
 
         case 0xA:
@@ -1460,9 +1466,11 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     sizet_rows_++;
     sizet_size = sizet_cols_ * sizet_rows_;
 
-    SUSA_ASSERT_MESSAGE(sizet_cols_ % sizet_rows_ == 0, "the number of columns are not equal in each row.");
-    if (sizet_cols_ % sizet_rows_ != 0) return false;
-    
+    if (sizet_first != 0 && sizet_cols_ - sizet_prev != sizet_first) bool_equal = false;
+
+    SUSA_ASSERT_MESSAGE(bool_equal, "the number of columns are not equal in each row.");
+    if (!bool_equal) return false;
+
 
     sizet_rows = sizet_rows_;
     sizet_cols = sizet_cols_ / sizet_rows_;
-- 
2.43.0


From a764ffa172ec0d38d55afda137e7c9ce93069e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 08/78] fix: matrix rows longer than 4096 characters were
 parsed as zeros

---
 inc/susa/matrix.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 6a8a91d..30c04f5 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -31,8 +31,6 @@
 #ifndef SUSA_MATRIX_H
 #define SUSA_MATRIX_H
 
-#define MAX_STR_LEN     4096
-
 #include <type_traits>
 
 #include <susa/debug.h>
@@ -1494,18 +1492,19 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
 
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    std::string str_row;
+    std::string str_elem;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        if (!std::getline(ss_all, str_row, ';')) str_row.clear();
+        std::stringstream ssrow(str_row);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            if (!std::getline(ssrow, str_elem, ' ')) str_elem.clear();
+            if (!(std::istringstream(str_elem) >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From 74ed5ef10e0ed8fc5d92720373f6b387266a0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 09/78] fix: strings of a single number were parsed as more
 than one element

---
 src/matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 5f7457d..0df3c0b 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -72,7 +72,7 @@ void pre_parser(std::string& str_string)
         int_counter++;
     }
     // Update the string according to its new shape/size
-    str_string.erase(int_counter,int_length - 1);
+    str_string.erase(int_counter);
     int_length = str_string.length();
     str_string = str_string + std::string("  ");
 
@@ -102,8 +102,8 @@ void pre_parser(std::string& str_string)
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
     if (int_counter == 0) str_string.clear();
-    else if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    else if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1);
+    else str_string.erase(int_counter);
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From bb8f0f78ad953e48b8ee483451f5793232988777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 10/78] fix: horizontal concat of matrices with different
 number of columns

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From 53764a0bc21db0ddc7d572e5d0d9e7d48262d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 11/78] fix: hermitian() did not compile

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From 8d7868e6a0ddb810f3790d8e1896d23385fd1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 12/78] fix: determinant of integer matrices overflowed

---
 inc/susa/linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 3bd21f9..9f455b3 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -164,7 +164,7 @@ double det(const matrix <T, Allocator> &mat_arg)
         }
         else if (sizet_rows == 2)
         { // 2 x 2
-            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);
+            dbl_ret = (double)mat_arg(0, 0) * (double)mat_arg(1, 1) - (double)mat_arg(1, 0) * (double)mat_arg(0, 1);
         }
         else
         { // 3 x 3 and more
@@ -180,7 +180,7 @@ double det(const matrix <T, Allocator> &mat_arg)
                     SUSA_LOG_ERR("falling into an infinite loop avoided.");
                     return dbl_ret;
                 }
-                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
+                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * (double)mat_arg(0, sizet_col) * det(mat_minor);
             }
         }
     }
-- 
2.43.0


From d77cc07f568054d6857373f88f744dbd81b44042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 13/78] fix: rank of integer matrices used integer divisions

---
 inc/susa/linalg.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 9f455b3..acc923f 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -379,6 +379,19 @@ matrix<T, Allocator> eye(size_t sizet_n)
 template <typename T, template <typename> typename Allocator>
 unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
 {
+    if constexpr (std::is_integral_v<T>)
+    {
+        // the elimination needs a division that is not available for the integral types
+        susa::matrix <double, Allocator<double>> mat_dbl(mat_arg.shape());
+        for (size_t sz_indx = 0; sz_indx < mat_arg.size(); ++sz_indx)
+        {
+            mat_dbl(sz_indx) = (double)mat_arg(sz_indx);
+        }
+        return rank(mat_dbl, epsilon);
+    }
+    else
+    {
+
     unsigned int uint_ret = 0;
     size_t sz_rows = mat_arg.no_rows();
     size_t sz_cols = mat_arg.no_cols();
@@ -417,6 +430,8 @@ unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
     }
 
     return uint_ret;
+
+    }
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From b72eab3ee8938148a8afe90d8b66b8d395d8951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 14/78] fix: LUP decomposition chose the pivots from the input
 matrix

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..f9385cd 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -233,7 +233,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From 1daac5386697fb04b0ab0c349d7a6ad7ee5268da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 15/78] fix: pivot candidates of the alternative LUP
 decomposition

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index f9385cd..c446cb6 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -321,7 +321,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From a89c0f8e862c40cd3430c0a563063cd289c588c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 16/78] fix: LU and LUP solvers kept a reference to a temporary
 matrix

---
 inc/susa/solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index c446cb6..629a455 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -65,7 +65,7 @@ template <class T> class lu
     const matrix<T>&    get_lower() const { return mat_lower; }
 
   private:
-    const matrix <T>&   mat_a;
+    const matrix <T>    mat_a;
     matrix <T>          mat_upper;
     matrix <T>          mat_lower;
 
@@ -134,7 +134,7 @@ template <class T> class lup
 
   private:
     matrix <T>          mat_lu;
-    const matrix <T>&   mat_a;
+    const matrix <T>    mat_a;
     matrix <size_t>     mat_p;
     matrix <T>          mat_pp;
 
-- 
2.43.0


From e38facbee0ff61c96aa30e70a40c58a4d3d10433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 17/78] fix: solve() ignored a scalar right hand side

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 629a455..7fc1423 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -269,7 +269,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || !(mat_b.is_vector() || mat_b.is_scalar()) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From 6bbbf90c1b731084b915b99bac7905d49cccea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 18/78] fix: LU decomposition divided by a zero pivot and
 reported success

---
 inc/susa/solver.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 7fc1423..b7414da 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -199,6 +199,9 @@ template <class T> bool lu<T>::decompose()
             }
             else
             {
+                // the decomposition does not exist without pivoting
+                if (mat_upper(i,i) == T(0)) return false;
+
                 T sum = 0;
                 for (size_t j = 0; j < i; j++)
                 {
-- 
2.43.0


From 528c33b84824830bc0350e627e0502e65b0e2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 19/78] fix: SVD of matrices with more columns than rows

---
 src/svd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..d0f4b13 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -61,6 +61,9 @@ int svd(const matrix <float> &mat_arg_a,
     int n = mat_arg_a.no_cols();
     int p = (m > n)?n:m;
 
+    // a matrix with more columns than rows is decomposed through its transpose
+    if (m < n) return svd(transpose(mat_arg_a), mat_arg_v, mat_arg_s, mat_arg_u);
+
     int flag, i, its, j, jj, k, l, nm;
     double c, f, h, s, x, y, z;
     double anorm = 0.0, g = 0.0, scale = 0.0;
-- 
2.43.0


From 7ca0ece45f946c372ecd4256ff9fc50865acaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 20/78] fix: SVD of matrices with zero singular values dropped
 the cancellation factor

---
 src/svd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index d0f4b13..25b7a49 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -230,6 +230,7 @@ int svd(const matrix <float> &mat_arg_a,
                 for (i = l; i <= k; i++)
                 {
                     f = s * rv1(i);
+                    rv1(i) = c * rv1(i);
                     if (fabs(f) + anorm != anorm)
                     {
                         g = (double)mat_arg_s(i);
-- 
2.43.0


From 1313f253be79668a78d9f2ab52f6110839d823d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 21/78] fix: SVD of rank deficient matrices lost the
 orthogonality of U and V

---
 src/svd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index 25b7a49..8fcebcb 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -84,7 +84,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = i; k < m; k++)
                 scale += fabs((double)mat_arg_u(k,i));
-            if (scale)
+            if (scale + anorm != anorm)
             {
                 for (k = i; k < m; k++)
                 {
@@ -118,7 +118,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = l; k < n; k++)
                 scale += fabs((double)mat_arg_u(i,k));
-            if (scale)
+            if (scale + anorm != anorm)
             {
                 for (k = l; k < n; k++)
                 {
-- 
2.43.0


From 465d3c95ab84daa44d4245efab1297be8000403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 22/78] fix: mean of integer matrices with a negative sum

---
 inc/susa/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..f1ca1ef 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -344,7 +344,8 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        if constexpr (std::is_integral_v<T>) T_ret = static_cast<T>(T_ret / static_cast<long long>(mat_arg.size()));
+        else T_ret /= mat_arg.size();
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -358,7 +359,8 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            if constexpr (std::is_integral_v<T>) T_ret = static_cast<T>(T_ret / static_cast<long long>(no_rows));
+            else T_ret /= no_rows;
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
-- 
2.43.0


From 84c4887602050645973d293655522239d3872f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 23/78] fix: mean of integer vectors with a negative sum

---
 inc/susa/statistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..eec48d8 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,7 +61,8 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    if constexpr (std::is_integral_v<T>) return static_cast<T>(tMean / static_cast<long long>(vec_arg.size()));
+    else return (tMean/vec_arg.size());
 }
 
 
-- 
2.43.0


From 904b48f239c54280e35b533d9d2ff58717ade4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 24/78] fix: variance and standard deviation of integers were
 truncated

---
 inc/susa/statistics.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index eec48d8..521e000 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -69,8 +69,14 @@ template <class T> T mean(std::vector <T> vec_arg)
 
 template <class T> double var(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tVar = 0;
+    double tMean = 0;
+    double tVar = 0;
+    for (int i=0; i<vec_arg.size(); i++)
+    {
+        tMean += vec_arg[i];
+    }
+    tMean /= vec_arg.size();
+
     for (int i=0; i<vec_arg.size(); i++)
     {
         tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
@@ -84,14 +90,7 @@ template <class T> double var(std::vector <T> vec_arg)
 
 template <class T> double stdv(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tStd = 0;
-    for (int i=0; i<vec_arg.size(); i++)
-    {
-        tStd += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
-    }
-
-    return (sqrt(tStd/vec_arg.size()));
+    return std::sqrt(var(vec_arg));
 }
 } // NAMESPACE SUSA
 #endif // STATISTICS_H
-- 
2.43.0


From 2527d741b9a79856bf0a04926a04633d2b45809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 25/78] fix: abs() skipped the first element and did not
 compile for the fundamental types

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index f1ca1ef..7e9d135 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -373,7 +373,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -382,9 +382,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From 162060d511ef44ce99148db0d15c0e00fae279a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 26/78] fix: max() of a scalar matrix

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 7e9d135..140b31f 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -449,7 +449,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else if (mat_arg.no_rows() > 0 && mat_arg.no_cols() > 0)
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 21d8e445708e76bac16e448884e1598e69bd7ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 27/78] fix: log2() of values with the most significant bit set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 140b31f..766f4b0 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-- 
2.43.0


From 38a62b3e95aeb119f1265b5a72ff310f634a9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 28/78] fix: mod() lost the precision of large integers

---
 src/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..8c2793d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,9 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    long int lint_ret = lint_a % lint_mod;
+    if (lint_ret != 0 && ((lint_ret < 0) != (lint_mod < 0))) lint_ret += lint_mod;
+    return lint_ret;
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From ad853fecea94fe8c99b887157cbb7a4a737ea65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 29/78] fix: diff() of constant or empty vectors

---
 inc/susa/base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 766f4b0..14d847a 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -285,8 +285,10 @@ T log2(T int_arg)
     return (ret - 1);
 }
 
-template <typename T> std::vector <T> diff(std::vector <T> &vec_arg)
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg)
 {
+    if (vec_arg.empty()) return std::vector <T>();
+
     std::vector <T> vec_diff(vec_arg.size() - 1, T(0));
 
     for (size_t i = 0; i < vec_arg.size() - 1; i++)
-- 
2.43.0


From 7006d54a89543ca29c49532ac515e315cb0084c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 30/78] fix: norm() of complex matrices

---
 inc/susa/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 14d847a..14aa5a8 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -506,7 +506,8 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
+            if constexpr (is_complex<T>::value) mat_ret(0) += std::norm(mat_arg(uint_i));
+            else mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
         }
         mat_ret(0) = std::sqrt(mat_ret(0));
     }
@@ -517,7 +518,8 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
+                if constexpr (is_complex<T>::value) mat_ret(uint_col) += std::norm(mat_arg(uint_row,uint_col));
+                else mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
             }
             mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
         }
-- 
2.43.0


From 5a4a977289599a6375037f08a48819a1fd825923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 31/78] fix: ccode copies released the generators twice and the
 default constructor left them dangling

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..c896231 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen;   // Dynamic array of generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..efce91d 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -30,18 +30,15 @@ namespace susa {
 
 ccode::ccode()
 {
-    uint_k = 1;
-    uint_n = 0;
-    uint_m = 0;
+    uint_k     = 1;
+    uint_n     = 0;
+    uint_m     = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -56,12 +53,14 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.assign(uint_n, 0);
     }
     catch(const std::bad_alloc& e)
     {
         SUSA_ABORT("failed to allocate memory for generators.");
     }
+
+    zero_state();
 }
 
 
@@ -70,6 +69,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 void ccode::set_generator(uint32_t uint_gen, uint32_t uint_gen_indx)
 {
     SUSA_ASSERT_MESSAGE(uint_gen_indx < uint_n, "id exceeded the number of generators.");
+    if (uint_gen_indx >= this->uint_gen.size()) return;
     this->uint_gen[uint_gen_indx] = oct_to_dec(uint_gen);
 }
 
-- 
2.43.0


From e91e7bf9dcc01add8f1d9de6ef4251e811af59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 32/78] fix: ccode::rate() was truncated to an integer

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index c896231..d8fd8af 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float)uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From 65645a1e5c708e3d75eb074cd81df72cf613a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 33/78] fix: ccode memory mask overflowed for 31 memories

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index efce91d..e68b66d 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -49,7 +49,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = susa::pow(2, uint_m) - 1;
+    uint_mmask       = ((uint32_t)1 << uint_m) - 1;
 
     try
     {
-- 
2.43.0


From 2b3c5d2595f2fa63a64acb8431b2e117dee1a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 34/78] fix: BCJR decoder of ccode started from uninitialized
 state metrics

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index e68b66d..2e55c3e 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -186,12 +186,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 0df32f463fc5d898875a8244b92768425725a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 35/78] fix: BCJR decoder of ccode ignored the prior of the
 zero input

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 2e55c3e..3e4b4a0 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -216,7 +216,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * dbl_arg);
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
-- 
2.43.0


From 27147dfaa50136208c934ab40fef1c925476d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 36/78] fix: MLSE decoder with a known initial state started
 from uninitialized metrics

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..dd6b968 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states, 1, 0);
     }
 
 
-- 
2.43.0


From e729c528e3e8fc7fb224db6016f54b0e8c8c9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 37/78] fix: MLSE decoder with an unknown initial state was not
 maximum likelihood

---
 inc/susa/channel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index dd6b968..63c235c 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -360,7 +360,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_first(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l))(0);
         mat_first(uint_i) *= mat_first(uint_i);
-        mat_metric_past(uint_i) = mat_first(uint_i)/uint_l;
+        mat_metric_past(uint_i) = mat_first(uint_i);
     }
 
 
@@ -396,7 +396,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_last(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l))(0);
         mat_last(uint_i) *= mat_last(uint_i);
-        mat_metric_next(uint_i) += mat_last(uint_i)/uint_l;
+        mat_metric_past(uint_i) += mat_last(uint_i);
     }
 
 
@@ -417,7 +417,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_ret(uint_stage - 1) = mat_pam(uint_curr_input);
         uint_curr_state = mat_previous_state(uint_curr_state,uint_stage - 1);
     }
-    mat_ret = concat(flipud(get_mem_state(min(mat_first)(0))),mat_ret);
+    mat_ret = concat(flipud(get_mem_state(uint_curr_state)),mat_ret);
 
     return mat_ret;
 } // DECODE_MLSE
-- 
2.43.0


From 92277b82cce4196381a2b7a31ee2a174c453f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 38/78] fix: upsample() did not write the inserted zeros

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From 5d0335f294b58174e986cee4409819b8ba0f58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 39/78] fix: filter and convolution of scalars returned empty
 matrices

---
 inc/susa/signal.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..20ef093 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,7 +209,7 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
         // for column vector
         size_ret_len = size_x + size_length;
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -271,15 +279,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     {
         size_length = mat_arg_a.size() - 1;
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
-
-    }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
     }
     else
     {
-- 
2.43.0


From cc56a9908f0dfbd1353caa9709d0999df7a85d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 40/78] fix: bitset::set() set only a part of the elements

---
 src/sets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..ba778bd 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,9 +94,9 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
+    for (size_t index = 0; index < uint_set_size; index++)
     {
-      unsigned int byte = index / 8;
+      size_t       byte = index / 8;
       unsigned int bit  = index % 8;
       this->_matrix[byte] |= (0x01 << bit);
     }
-- 
2.43.0


From 57f76a14d9347b05672383eb3989d4d193b6582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 41/78] fix: sort() stopped before the elements were sorted

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..cb72906 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From 9601a1d4cf93ef7b11070e462b9f04268f002895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 42/78] fix: dijkstra returned uninitialized predecessors

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index cb72906..dc9e3a3 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -258,7 +258,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From ece14a458080c693ee5f1f95f1ebc068c0fcc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 43/78] fix: dijkstra truncated fractional weights

---
 inc/susa/search.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index dc9e3a3..5050205 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -257,7 +257,10 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   if (!mat_graph.is_square()) return (matrix <unsigned int> ());
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
-  susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
+  // the costs of fractional weights are fractional too
+  using cost_t = std::conditional_t<std::is_floating_point_v<T>, double, unsigned int>;
+
+  susa::matrix <cost_t> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
@@ -266,13 +269,13 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   nset.set();
 
 
-  unsigned int uint_min       = 0;
+  cost_t       uint_min       = 0;
   unsigned int uint_min_index = 0;
-  unsigned int uint_alt       = 0;
+  cost_t       uint_alt       = 0;
   while (nset.any())
   {
 
-    uint_min = std::numeric_limits <unsigned int>::max();
+    uint_min = std::numeric_limits <cost_t>::max();
     for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++)
     {
       if (nset.exists(uint_index) && dist(uint_index) < uint_min)
-- 
2.43.0


From 0c5b98e8c9d0bb2d69247986a109dff62fba21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 44/78] fix: select routines repeated or ignored elements

---
 inc/susa/search.h | 54 +++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 5050205..1e89391 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,8 +113,8 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
+    matrix <bool> mat_selected(uint_size, 1, false);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
 
@@ -128,20 +128,24 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
 
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        bool bool_found = false;
+        uint_min_index = 0;
+        T_min = T(0);
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
+            if (!mat_selected(uint_j) && (!bool_found || mat_arg(uint_j) < T_min))
             {
+                bool_found = true;
                 uint_min_index = uint_j;
-                T_min = mat_ret(uint_j);
+                T_min = mat_arg(uint_j);
             }
         }
 
+        if (!bool_found) break;
+
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        mat_selected(uint_min_index) = true;
     }
 
     return mat_index;
@@ -156,8 +160,8 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
+    matrix <bool> mat_selected(uint_size, 1, false);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
@@ -170,20 +174,24 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        bool bool_found = false;
+        uint_min_index = 0;
+        T_min = T(0);
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
+            if (!mat_selected(mat_limited_index(uint_j)) && (!bool_found || mat_arg(mat_limited_index(uint_j)) < T_min))
             {
+                bool_found = true;
                 uint_min_index = mat_limited_index(uint_j);
-                T_min = mat_ret(mat_limited_index(uint_j));
+                T_min = mat_arg(mat_limited_index(uint_j));
             }
         }
 
+        if (!bool_found) break;
+
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        mat_selected(uint_min_index) = true;
     }
 
     return mat_index;
@@ -196,8 +204,8 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
+    matrix <bool> mat_selected(uint_size, 1, false);
 
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num,
@@ -212,20 +220,24 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        bool bool_found = false;
+        uint_max_index = 0;
+        T_max = T(0);
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
+            if (!mat_selected(uint_j) && (!bool_found || mat_arg(uint_j) > T_max))
             {
+                bool_found = true;
                 uint_max_index = uint_j;
-                T_max = mat_ret(uint_j);
+                T_max = mat_arg(uint_j);
             }
         }
 
+        if (!bool_found) break;
+
         mat_index(uint_i) = uint_max_index;
 
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        mat_selected(uint_max_index) = true;
     }
 
     return mat_index;
-- 
2.43.0


From fe2ff553934002e5e0ca039b2a99a1d0307bd365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 45/78] fix: select routines refused to select all the elements

---
 inc/susa/search.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 1e89391..58dc4ed 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -116,7 +116,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     matrix <unsigned int> mat_index(uint_num, 1, 0);
     matrix <bool> mat_selected(uint_size, 1, false);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
 
     if (uint_size < uint_num)
     {
@@ -163,7 +163,7 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     matrix <unsigned int> mat_index(uint_num, 1, 0);
     matrix <bool> mat_selected(uint_size, 1, false);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
@@ -208,7 +208,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     matrix <bool> mat_selected(uint_size, 1, false);
 
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num,
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num,
       "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
-- 
2.43.0


From 02ebe979d91dbd1797d5493ffc1d3981a22869f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 46/78] fix: rng without a seed used an uninitialized state

---
 src/rng.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..da8c93d 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -32,6 +32,7 @@ namespace susa {
 rng::rng()
 {
     uint_index = 0;
+    init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
-- 
2.43.0


From c400fa55b2528de6782a747c256f98a3d861e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 47/78] fix: rng did not generate the MT19937 sequence

---
 src/rng.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index da8c93d..436fd4f 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -150,6 +150,9 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    // the numbers are generated from the seeded state before the first extraction
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
@@ -221,7 +224,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From ada81dec9612ce851236644d4611e8c35c782e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 48/78] fix: mt copies released the state twice

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From 5291903479757c6c64908811ea10711c93848396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 49/78] fix: mt::nonuniform left elements uninitialized when
 the probabilities sum up to less than one

---
 src/mt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index 27859eb..a8ad8ea 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -281,7 +281,7 @@ unsigned int mt::nonuniform()
 
 matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
 {
-  matrix <unsigned int> mat_rand(uint_length, 1);
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
-- 
2.43.0


From a138a16246c2c42e523f72abe882726f7e31afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 50/78] fix: rrcosine: compute the frequency grid in floating
 point, not in wrapping unsigned arithmetic

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From 4658ccd73db045b51d62d43b032af4f6885483bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 51/78] fix: allocator_log: count an allocation only once it
 has succeeded

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From 1b7e561781b44af088d60a0ad5cf788a7021ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 52/78] fix: array::clone allocates the requested length, not
 the previous one

---
 inc/susa/array.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..4101480 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -172,16 +172,17 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
+      if (_matrix != nullptr)
       {
         alloc.deallocate(_matrix, uint_total);
       }
-      _matrix       = alloc.allocate(uint_total);
+      _matrix       = nullptr;
+      uint_total    = 0;
+      _matrix       = alloc.allocate(length);
       uint_total    = length;
     }
   
-    std::memset(_matrix, 0x00, sizeof(T) * length);
-    std::memcpy(_matrix, data, sizeof(T) * length);
+    if (length != 0) std::memcpy(_matrix, data, sizeof(T) * length);
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From 436cf97296bdf5263543be24c2465af241ab9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 53/78] fix: array: self-assignment, copies of empty arrays and
 default construction

---
 inc/susa/array.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 4101480..c10077d 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -140,6 +140,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
+  , uint_num_dims(0)
   , T_default(new T)
   , uint_get_step(0)
   , alloc()
@@ -215,25 +216,38 @@ namespace susa
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    _matrix       = nullptr;
+
+    if (arg._matrix != nullptr)
+    {
+      _matrix     = alloc.allocate(uint_total);
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
+    if (this == &arg) return *this;
+
+    if (_matrix != nullptr)
     {
       alloc.deallocate(_matrix, uint_total);
+      _matrix     = nullptr;
+      uint_total  = 0;
     }
-    uint_total    = arg.uint_total;
+
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (arg._matrix != nullptr)
+    {
+      _matrix     = alloc.allocate(arg.uint_total);
+      uint_total  = arg.uint_total;
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
 
     return *this;
   }
-- 
2.43.0


From 488a0a44d20ec3f5c1d3bc0607c45ee07bcbd185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 54/78] fix: array: the out-of-range element is a
 value-initialised member that survives a move

---
 inc/susa/array.h | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index c10077d..8c69b27 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,7 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
-      return *T_default;
+      return T_default;
     }
 
     template <typename... Args>
@@ -121,7 +121,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    T T_default;
 
     std::vector<size_t> vec_get;
     size_t uint_get_step;
@@ -141,7 +141,7 @@ namespace susa
   array<T, Allocator>::array()
   : uint_total(0)
   , uint_num_dims(0)
-  , T_default(new T)
+  , T_default()
   , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
@@ -151,7 +151,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array(std::initializer_list<size_t> list)
   : vec_dims(list)
-  , T_default(new T)
+  , T_default()
   , alloc()
   {
     uint_total = 1;
@@ -188,7 +188,8 @@ namespace susa
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(array &&arg)
-  : alloc(std::move(arg.alloc))
+  : T_default()
+  , alloc(std::move(arg.alloc))
   {
 
     uint_total      = arg.uint_total;
@@ -197,17 +198,15 @@ namespace susa
     vec_get         = std::vector<size_t>(uint_num_dims);
     uint_get_step   = 0;
 
-    T_default          = arg.T_default;
     _matrix         = arg._matrix;
-  
-    arg.T_default      = nullptr;
+
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(const array &arg)
-  : T_default(new T)
+  : T_default()
   , alloc(arg.alloc)
   {
 
@@ -255,7 +254,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
@@ -289,7 +287,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -307,7 +305,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -326,7 +324,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From 1c90b91de66b36520c973f80d6f6c90f4ceb0885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 55/78] fix: array: indexing keeps no state, so that const
 arrays can be read

---
 inc/susa/array.h | 69 +++++++++---------------------------------------
 1 file changed, 12 insertions(+), 57 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 8c69b27..a4a6254 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -112,7 +112,7 @@ namespace susa
     }
 
     template <typename... Args>
-    size_t get_raw_index(size_t uint_elem, Args... uint_args)
+    size_t get_raw_index(size_t uint_elem, Args... uint_args) const
     {
       return index(uint_elem, uint_args...);
     }
@@ -123,17 +123,13 @@ namespace susa
     size_t uint_num_dims;
     T T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
-    T T_get_value;
-
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(size_t uint_elem) const;
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -142,7 +138,6 @@ namespace susa
   : uint_total(0)
   , uint_num_dims(0)
   , T_default()
-  , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
   {
@@ -161,9 +156,6 @@ namespace susa
     }
 
     uint_num_dims = vec_dims.size();
-    uint_get_step = 0;
-    vec_get = std::vector<size_t>(uint_num_dims);
-
     _matrix = alloc.allocate(uint_total);
   }
 
@@ -195,8 +187,6 @@ namespace susa
     uint_total      = arg.uint_total;
     vec_dims        = arg.vec_dims;
     uint_num_dims   = vec_dims.size();
-    vec_get         = std::vector<size_t>(uint_num_dims);
-    uint_get_step   = 0;
 
     _matrix         = arg._matrix;
 
@@ -213,8 +203,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
     _matrix       = nullptr;
 
     if (arg._matrix != nullptr)
@@ -238,8 +226,6 @@ namespace susa
 
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
 
     if (arg._matrix != nullptr)
     {
@@ -310,7 +296,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -328,7 +314,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
     size_t uint_elem = 0;
@@ -354,49 +340,18 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
+  size_t array<T, Allocator>::index(size_t uint_elem) const
   {
+    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-    size_t ret;
-
-    if (uint_get_step == 0)
-    {
-      vec_get       = std::vector<size_t>(uint_num_dims);
-      uint_get_step = 0;
-
-      SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
-    }
-    else
-    {
-
-      SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
-
-      ret = index(vec_get);
-    }
-
-    vec_get = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
-
-    return ret;
+    return uint_elem;
   }
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
-
-    SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-    vec_get[uint_get_step] = uint_elem;
-    uint_get_step++;
-    return index(uint_args...);
+    return index(std::vector<size_t>{uint_elem, static_cast<size_t>(uint_args)...});
   }
 
 } // namespace susa
-- 
2.43.0


From 80e1e128bd8864a0390d2e4dfd6b47b7485c3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 56/78] fix: array: indexing with too many arguments does not
 read past the dimensions

---
 inc/susa/array.h | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index a4a6254..8cc1b54 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -246,34 +246,7 @@ namespace susa
   template <typename T, typename Allocator>
   T array<T, Allocator>::get(std::initializer_list<size_t> list) const
   {
-
-    SUSA_ASSERT(_matrix != nullptr);
-
-    size_t uint_elem      = 0;
-    size_t uint_dim_count = 0;
-    size_t uint_factor    = 1;
-
-    for (auto dim_size : list)
-    {
-
-      uint_factor = 1;
-      for (size_t indx = 0; indx < uint_dim_count; ++indx)
-      {
-        uint_factor *= vec_dims[indx];
-      }
-
-      uint_elem += dim_size * uint_factor;
-      uint_dim_count++;
-    }
-
-    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-    if (uint_elem < uint_total && _matrix != nullptr)
-    {
-      return _matrix[uint_elem];
-    }
-
-    return T_default;
+    return get(std::vector<size_t>(list));
   }
 
   template <typename T, typename Allocator>
@@ -321,6 +294,10 @@ namespace susa
     size_t uint_dim_count = 0;
     size_t uint_factor = 1;
 
+    SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+
+    if (list.size() > uint_num_dims) return uint_total;
+
     for (auto dim_size : list)
     {
 
-- 
2.43.0


From 3a1a51fe49709ce07d104d7bc2e12383f9e11242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 57/78] fix: array: a write to an out-of-range element does not
 change later out-of-range reads

---
 inc/susa/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 8cc1b54..59c5766 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,6 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
+      T_default = T();
       return T_default;
     }
 
@@ -264,7 +265,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -283,7 +284,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From 3046efd8fba4673a481ccb808316fe57a0a19767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 58/78] fix: qam: orders that are not perfect squares (8, 128)
 got a wrong grid and aborted

---
 inc/susa/modulation.h |  1 -
 src/modulation.cpp    | 20 +++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..9dc556e 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -75,7 +75,6 @@ class qam {
     unsigned int    uint_m;          // Number of symbols in constellation
 
     matrix < std::complex <double> > mat_s;
-    matrix < std::complex <double> > mat_axis;
 
 };
 
diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..41e7c15 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -44,21 +44,23 @@ qam::qam(unsigned int uint_m)
 : uint_m(uint_m)
 {
     uint_bps                = log2(uint_m);
-    double          dbl_p   = sqrt(uint_m);
-    unsigned int    uint_l  = (unsigned int)(uint_m/dbl_p);
 
-    // Constellation generation
-    mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
-    mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
+    SUSA_ASSERT_MESSAGE(uint_m > 1, "the modulation order must be greater than one.");
+
+    // The most nearly square grid that has uint_m points: a square one when
+    // the order is a perfect square (4, 16, 64, ...), rectangular otherwise (8, 128, ...).
+    unsigned int    uint_w  = std::max(1u, (unsigned int)std::sqrt((double)uint_m));
+    while (uint_m % uint_w != 0) uint_w--;
+    unsigned int    uint_l  = uint_m / uint_w;
 
-    for (unsigned int i=0; i < dbl_p; i++)
-        mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
+    // Constellation generation
+    mat_s    = matrix < std::complex <double> > (uint_l, uint_w, std::complex <double>(0,0));
 
     for (unsigned int i=0; i < uint_l; i++)
     {
-        for (unsigned int j=0; j < uint_l; j++)
+        for (unsigned int j=0; j < uint_w; j++)
         {
-            mat_s(i,j) = std::complex <double> (mat_axis(i).real(), mat_axis(j).imag());
+            mat_s(i,j) = std::complex <double> (i - (uint_l - 1)/2.0, j - (uint_w - 1)/2.0);
         }
     }
 
-- 
2.43.0


From 026ddc26c3896b1aaf17e96cc5520d04a97cf5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 59/78] fix: operators, matmul and reshape dereferenced null or
 returned unwritten elements after a failed allocation when assertions are
 disabled

---
 inc/susa/linalg.h |  2 ++
 inc/susa/matrix.h | 23 ++++++++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index acc923f..e385527 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -60,6 +60,8 @@ matrix <T, Allocator> matmul(const matrix <T, Allocator> &mat_argl, const matrix
     if (mat_argl.no_cols() == mat_argr.no_rows())
     {
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_cols, 0);
+        if (mat_ret._matrix == NULL) return mat_ret;
+
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
         {
             for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 30c04f5..852af19 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -761,6 +761,7 @@ matrix <T, Allocator> matrix <T, Allocator>::reshape(size_t sizet_rows, size_t s
     matrix <T, Allocator> mat_ret;
     if ((sizet_rows * sizet_cols) != sizet_objects) return mat_ret;
     mat_ret = *this;
+    if (mat_ret.sizet_objects != sizet_objects) return mat_ret;
     mat_ret.resize(sizet_rows, sizet_cols);
     return mat_ret;
 }
@@ -1086,7 +1087,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.sizet_rows, mat_argl.sizet_cols);
-    size_t sizet_size = mat_argl.sizet_rows * mat_argl.sizet_cols;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1111,7 +1112,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1125,7 +1126,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1142,7 +1143,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1167,7 +1168,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1181,7 +1182,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1196,7 +1197,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1221,7 +1222,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1235,7 +1236,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1250,7 +1251,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1275,7 +1276,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
-- 
2.43.0


From 32831e8609c019c56dcbe688bbf61ad838ad4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 60/78] fix: mean of narrow integers wrapped when their sum
 exceeded the element type

---
 inc/susa/base.h       | 14 ++++++++------
 inc/susa/statistics.h |  6 ++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 14aa5a8..d0dd917 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -339,7 +339,9 @@ template <typename T, typename Allocator>
 matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
 {
     matrix <T, Allocator>   mat_ret;
-    T                       T_ret(0);
+    // a sum of narrow integers exceeds their range although the mean does not
+    using accumulator = std::conditional_t<std::is_integral_v<T>, std::conditional_t<std::is_unsigned_v<T>, unsigned long long, long long>, T>;
+    accumulator             T_ret(0);
 
     if (mat_arg.no_rows() == 1 || mat_arg.no_cols() == 1)
     {
@@ -347,9 +349,9 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        if constexpr (std::is_integral_v<T>) T_ret = static_cast<T>(T_ret / static_cast<long long>(mat_arg.size()));
+        if constexpr (std::is_integral_v<T>) T_ret /= static_cast<accumulator>(mat_arg.size());
         else T_ret /= mat_arg.size();
-        mat_ret = matrix <T, Allocator> (1, 1, T_ret);
+        mat_ret = matrix <T, Allocator> (1, 1, static_cast<T>(T_ret));
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
     {
@@ -362,10 +364,10 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            if constexpr (std::is_integral_v<T>) T_ret = static_cast<T>(T_ret / static_cast<long long>(no_rows));
+            if constexpr (std::is_integral_v<T>) T_ret /= static_cast<accumulator>(no_rows);
             else T_ret /= no_rows;
-            mat_ret(uint_col)   = T_ret;
-            T_ret               = T(0);
+            mat_ret(uint_col)   = static_cast<T>(T_ret);
+            T_ret               = accumulator(0);
         }
     }
 
diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index 521e000..db8ff38 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -55,13 +55,15 @@ template <class T> double stdv(std::vector <T> vec_arg);
 
 template <class T> T mean(std::vector <T> vec_arg)
 {
-    T tMean=0;
+    // a sum of narrow integers exceeds their range although the mean does not
+    using accumulator = std::conditional_t<std::is_integral_v<T>, std::conditional_t<std::is_unsigned_v<T>, unsigned long long, long long>, T>;
+    accumulator tMean=0;
     for (int i=0; i<vec_arg.size(); i++)
     {
         tMean += vec_arg[i];
     }
 
-    if constexpr (std::is_integral_v<T>) return static_cast<T>(tMean / static_cast<long long>(vec_arg.size()));
+    if constexpr (std::is_integral_v<T>) return static_cast<T>(tMean / static_cast<accumulator>(vec_arg.size()));
     else return (tMean/vec_arg.size());
 }
 
-- 
2.43.0


From b05056f886a82123b37d7543ba1d26ff6b64daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 61/78] fix: norm of integer matrices overflowed in the squares

---
 inc/susa/base.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index d0dd917..d579577 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -502,28 +502,32 @@ template <typename T, typename Allocator>
 matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
 {
     matrix <T, Allocator> mat_ret;
+    // the squares of integers exceed their range although the norm does not
+    using accumulator = std::conditional_t<std::is_integral_v<T>, double, T>;
+    accumulator T_sum(0);
 
     if (mat_arg.is_vector())
     {
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            if constexpr (is_complex<T>::value) mat_ret(0) += std::norm(mat_arg(uint_i));
-            else mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
+            if constexpr (is_complex<T>::value) T_sum += std::norm(mat_arg(uint_i));
+            else T_sum += static_cast<accumulator>(mat_arg(uint_i)) * mat_arg(uint_i);
         }
-        mat_ret(0) = std::sqrt(mat_ret(0));
+        mat_ret(0) = static_cast<T>(std::sqrt(T_sum));
     }
     else
     {
         mat_ret = matrix <T, Allocator> (1, mat_arg.no_cols(), T(0));
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
         {
+            T_sum = accumulator(0);
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                if constexpr (is_complex<T>::value) mat_ret(uint_col) += std::norm(mat_arg(uint_row,uint_col));
-                else mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
+                if constexpr (is_complex<T>::value) T_sum += std::norm(mat_arg(uint_row,uint_col));
+                else T_sum += static_cast<accumulator>(mat_arg(uint_row,uint_col)) * mat_arg(uint_row,uint_col);
             }
-            mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
+            mat_ret(uint_col) = static_cast<T>(std::sqrt(T_sum));
         }
     }
     return mat_ret;
-- 
2.43.0


From a9bb25be35372b4c3442a60fcb9da5de0b938c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 62/78] fix: mod() of the smallest integer by minus one
 overflowed

---
 src/base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base.cpp b/src/base.cpp
index 8c2793d..459f9fc 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,6 +80,7 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
+    if (lint_mod == -1) return 0; // the remainder of the smallest integer overflows
     long int lint_ret = lint_a % lint_mod;
     if (lint_ret != 0 && ((lint_ret < 0) != (lint_mod < 0))) lint_ret += lint_mod;
     return lint_ret;
-- 
2.43.0


From a1c7e0b83a3e5cb010a91c8f2baf2d25b3cc114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 63/78] fix: let decode_mlse with unknown state accept as many
 symbols as there are taps

The inner part of such a signal has one sample only, which matrix::mid()
refuses to return.
---
 inc/susa/channel.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 63c235c..5bb7ab5 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -343,8 +343,6 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     size_t uint_num_stages = sz_length - 2 * uint_l;
     size_t uint_num_states = uint_num_states_mem;
 
-    matrix <T> mat_new_arg = mat_arg.mid(uint_l, sz_length - uint_l - 1);
-
     matrix <T> mat_metric_past(uint_num_states, 1);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
@@ -376,7 +374,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
                 dbl_next_output = this->next_output(uint_state,uint_pam_index);
                 uint_next_state = this->next_state(uint_state,uint_pam_index);
 
-                dbl_metric = (dbl_next_output - mat_new_arg(uint_stage)) * (dbl_next_output - mat_new_arg(uint_stage));
+                dbl_metric = (dbl_next_output - mat_arg(uint_l + uint_stage)) * (dbl_next_output - mat_arg(uint_l + uint_stage));
 
                 if ((dbl_metric + mat_metric_past(uint_state)) < mat_metric_next(uint_next_state)) {
                     mat_metric_next(uint_next_state) = dbl_metric + mat_metric_past(uint_state);
-- 
2.43.0


From 9c6bbf15368e6754e2e8fd2cda4034bfd77e492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 64/78] fix: keep the costs of dijkstra beyond the range of int

Paths that cost more than the largest int were taken for nonexistent, and
large unsigned weights wrapped around.
---
 inc/susa/search.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 58dc4ed..9f3a87a 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -270,9 +270,11 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   // the costs of fractional weights are fractional too
-  using cost_t = std::conditional_t<std::is_floating_point_v<T>, double, unsigned int>;
+  using cost_t = std::conditional_t<std::is_floating_point_v<T>, double, unsigned long long>;
 
-  susa::matrix <cost_t> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
+  const cost_t unreached = std::numeric_limits<cost_t>::max();
+
+  susa::matrix <cost_t> dist(uint_num_nodes, 1, unreached);
   susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
@@ -287,7 +289,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   while (nset.any())
   {
 
-    uint_min = std::numeric_limits <cost_t>::max();
+    uint_min = unreached;
     for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++)
     {
       if (nset.exists(uint_index) && dist(uint_index) < uint_min)
@@ -297,6 +299,8 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
       }
     }
 
+    if (uint_min == unreached) break; // no path leads to the rest of the nodes
+
     nset.reset(uint_min_index);
 
 
-- 
2.43.0


From 1c10e64e3c63c5afa19681702edbee89da49dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 65/78] fix: awgn computed the power of the signal in its own
 narrow type

---
 inc/susa/modulation.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 9dc556e..0d2fc13 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -98,15 +98,20 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     // N0 = P / gamma
     // Noise_var = N0 / 2
 
-    double P;
-    if constexpr (is_complex<T>::value)
-    {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
-    }
-    else
+    // the power of narrow types exceeds their range, so it is accumulated in double
+    double P = 0;
+    for (size_t indx = 0; indx < mat_signal.size(); indx++)
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        if constexpr (is_complex<T>::value)
+        {
+            P += std::norm(std::complex<double>(mat_signal(indx).real(), mat_signal(indx).imag()));
+        }
+        else
+        {
+            P += (double)mat_signal(indx) * (double)mat_signal(indx);
+        }
     }
+    P = ovs * P / mat_signal.size();
 
     double gamma        = std::pow(10, flt_snr_db/10);
     double N0           = P / gamma;
-- 
2.43.0


From e78bb16a920a0f4c0d419cbc7cea18473b783904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 66/78] fix: SUSA_ASSERT was silently disabled by NDEBUG

---
 inc/susa/debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/debug.h b/inc/susa/debug.h
index 9688ed9..02a7afe 100644
--- a/inc/susa/debug.h
+++ b/inc/susa/debug.h
@@ -57,7 +57,7 @@ namespace susa
 #define SUSA_ASSERT_MESSAGE(EX,MSG) ((void)0)
 #else
 #define SUSA_ABORT(MSG) (susa::assert_log(__FILE__, __func__, __LINE__, "abort", #MSG))
-#define SUSA_ASSERT(EX) ((EX) ? (void)0 : assert(EX))
+#define SUSA_ASSERT(EX) ((EX) ? (void)0 : susa::assert_log(__FILE__, __func__, __LINE__, #EX, "assertion"))
 #define SUSA_ASSERT_MESSAGE(EX,MSG) ((EX) ? (void)0 : susa::assert_log(__FILE__, __func__, __LINE__, #EX, #MSG))
 #endif
 
-- 
2.43.0


From 46a428193bdd43f919a00cbb605a7ac6eff9dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 67/78] fix: timestamp shared the static buffer of localtime
 between threads

---
 src/utility.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 566be7c..b2ff8f2 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -57,11 +57,13 @@ std::string timestamp()
     time_t rawtime;
     std::stringstream ss_itos;
     std::stringstream ss_ret;
-    tm *ptm;
+    tm broken_down;
+    tm *ptm = &broken_down;
 
 
     time(&rawtime);
-    ptm = localtime(&rawtime);
+    tzset();
+    localtime_r(&rawtime, ptm);
     ss_ret << std::string("20");
 
     ss_itos.str(std::string());
-- 
2.43.0


From 3818f9e040207f0e72c1a7a851709318a756da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 68/78] fix: bitset::pop never ended on sets of more than 2^32
 positions

---
 src/sets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index ba778bd..7d64b5c 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -65,7 +65,7 @@ namespace susa
 
   size_t bitset::pop()
   {
-    for (unsigned int uint_index = 0; uint_index < uint_set_size; uint_index++)
+    for (size_t uint_index = 0; uint_index < uint_set_size; uint_index++)
     {
       if (exists(uint_index))
       {
-- 
2.43.0


From a9175d2772ec070a436a5ff4dae8f9e91a55e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 69/78] fix: bitset mixed up positions beyond 2^35

---
 src/sets.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 7d64b5c..503baf7 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -44,7 +44,7 @@ namespace susa
 
     if (index >= uint_set_size) return;
 
-    unsigned int byte = index / 8;
+    size_t byte = index / 8;
     unsigned int bit  = index % 8;
 
 
@@ -56,7 +56,7 @@ namespace susa
   {
     if (exists(index))
     {
-      unsigned int byte = index / 8;
+      size_t byte = index / 8;
       unsigned int bit  = index % 8;
       if (byte > nbytes) return;
       this->_matrix[byte] ^= (0x01 << bit);
@@ -85,7 +85,7 @@ namespace susa
   bool bitset::exists(size_t index)
   {
     if (index >= uint_set_size) return false;
-    unsigned int byte = index / 8;
+    size_t byte = index / 8;
     unsigned int bit  = index % 8;
 
     if (byte > nbytes) return false;
-- 
2.43.0


From 585666de223d70864f5f676ed2e5300331534194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 70/78] fix: ccode: too many memories shifted beyond the width
 of the mask

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 3e4b4a0..1448121 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -49,7 +49,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = ((uint32_t)1 << uint_m) - 1;
+    uint_mmask       = uint_m < 32 ? ((uint32_t)1 << uint_m) - 1 : 0;
 
     try
     {
-- 
2.43.0


From 7ec16dc60ef50a434a8b9a462ed56e6ec78d1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 71/78] fix: a matrix of char parsed the characters of its text
 instead of numbers

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 852af19..14a5699 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1496,7 +1496,7 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     std::string str_row;
     std::string str_elem;
 
-    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
+    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t> || std::is_same_v<T, char>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-- 
2.43.0


From 8a5016bf5a50a8a3beb792ed7753157a2300b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 72/78] fix: mt::nonuniform(length) was declared but not
 defined

---
 src/mt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mt.cpp b/src/mt.cpp
index a8ad8ea..136024a 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -304,6 +304,15 @@ matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned
   return mat_rand;
 }
 
+matrix <unsigned int> mt::nonuniform(unsigned int uint_length)
+{
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
+
+  for (unsigned int uint_indx = 0; uint_indx < uint_length; uint_indx++) mat_rand(uint_indx) = nonuniform();
+
+  return mat_rand;
+}
+
 void mt::set_probabilities(matrix <double> mat_probabilities)
 {
   this->mat_probabilities = mat_probabilities;
-- 
2.43.0


From f489c462fbd3d9b292562c37043002582fe75d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 73/78] fix: matrices and arrays whose number of elements
 overflows were created with too little memory

---
 inc/susa/array.h  |  4 +++-
 inc/susa/matrix.h | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 59c5766..63251b8 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -153,7 +153,9 @@ namespace susa
     uint_total = 1;
     for (auto dim_size : vec_dims)
     {
-      uint_total *= dim_size;
+      // a number of elements that does not fit makes the allocation fail
+      uint_total = (dim_size != 0 && uint_total > std::numeric_limits<size_t>::max() / dim_size) ?
+                   std::numeric_limits<size_t>::max() : uint_total * dim_size;
     }
 
     uint_num_dims = vec_dims.size();
diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 14a5699..2d20374 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -104,6 +104,12 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
 
     bool    allocate(size_t sz_objects);
 
+    // the number of elements; it saturates when it does not fit, so that the allocation fails
+    static size_t count(size_t sz_rows, size_t sz_cols)
+    {
+        return (sz_rows != 0 && sz_cols > std::numeric_limits<size_t>::max() / sz_rows) ? std::numeric_limits<size_t>::max() : sz_rows * sz_cols;
+    }
+
   public:
     //! Constructor
     matrix();
@@ -406,7 +412,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
   this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
   this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-  sizet_objects = this->sizet_rows * this->sizet_cols;
+  sizet_objects = count(this->sizet_rows, this->sizet_cols);
 
   if (!allocate(sizet_objects)) return;
 
@@ -424,7 +430,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = count(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -454,7 +460,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = count(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -469,7 +475,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows    = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols    = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects       = this->sizet_rows * this->sizet_cols;
+    sizet_objects       = count(this->sizet_rows, this->sizet_cols);
 
     if(!allocate(sizet_objects)) return;
 
@@ -757,9 +763,9 @@ matrix <T, Allocator> matrix <T, Allocator>::shrink(size_t sizet_elim_row, size_
 template <typename T, typename Allocator>
 matrix <T, Allocator> matrix <T, Allocator>::reshape(size_t sizet_rows, size_t sizet_cols)
 {
-    SUSA_ASSERT((sizet_rows * sizet_cols) == sizet_objects);
+    SUSA_ASSERT(count(sizet_rows, sizet_cols) == sizet_objects);
     matrix <T, Allocator> mat_ret;
-    if ((sizet_rows * sizet_cols) != sizet_objects) return mat_ret;
+    if (count(sizet_rows, sizet_cols) != sizet_objects) return mat_ret;
     mat_ret = *this;
     if (mat_ret.sizet_objects != sizet_objects) return mat_ret;
     mat_ret.resize(sizet_rows, sizet_cols);
@@ -773,7 +779,7 @@ bool matrix<T, Allocator>::resize(size_t sizet_rows, size_t sizet_cols)
 
     this->sizet_rows        = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols        = sizet_cols < 2 ? 1 : sizet_cols;
-    size_t sizet_objects    = this->sizet_rows * this->sizet_cols;
+    size_t sizet_objects    = count(this->sizet_rows, this->sizet_cols);
 
     if (sizet_objects != this->sizet_objects)
     {
-- 
2.43.0


From d534c61b649d3e90586d5557405d0cd5d4bc3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 74/78] fix: memory blocks whose number of bytes overflows were
 allocated too small

---
 inc/susa/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index cdde7cc..6318908 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -251,7 +251,9 @@ template <class T> void memory<T>::allocate(size_t sizet_size)
     if (sizet_objects == sizet_size) return;
 
     sizet_objects = sizet_size;
-    sizet_bytes   = sizet_size * sizeof(T);
+    // a number of bytes that does not fit makes the allocation fail
+    sizet_bytes   = sizet_size > std::numeric_limits<size_t>::max() / sizeof(T) ?
+                    std::numeric_limits<size_t>::max() : sizet_size * sizeof(T);
 
     if (_matrix == nullptr)
     {
-- 
2.43.0


From 3edf710454e16f26fe7fa09ca954b2d1c6f00070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 75/78] fix: parse matrix texts longer than 2^31 characters

---
 inc/susa/matrix.h |  4 ++--
 src/matrix.cpp    | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 2d20374..aade38d 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1436,11 +1436,11 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     size_t sizet_prev  = 0;                     // number of columns up to the end of the previous row
     size_t sizet_first = 0;                     // number of columns in the first row
     bool   bool_equal  = true;                  // true if all the rows have the same number of columns
-    int int_length     = str_string.length();   // length of the input string
+    size_t int_length  = str_string.length();   // length of the input string
 
 
     // This loop gets total number of rows and columns
-    for (int int_i = 0; int_i < int_length; int_i++)
+    for (size_t int_i = 0; int_i < int_length; int_i++)
     {
         switch (str_string[int_i])
         {
diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0df3c0b..69fc2f5 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -35,7 +35,7 @@ void pre_parser(std::string& str_string)
     // STL stream objects in parser() method.
     // At the end of this routine the string should only contain
     // neccessary delimiter characters.
-    int int_length = str_string.length();
+    size_t int_length = str_string.length();
 
     // it is needed to append some extra spaces since in the loops below the
     // code will access elements outside the original string size them.
@@ -43,7 +43,7 @@ void pre_parser(std::string& str_string)
 
     // (0) CR i.e. \n represents the end of the matrix row and
     // LF i.e. \r shall be treated as a space for compatibility purposes.
-    for (int int_i = 0; int_i < int_length; int_i++)
+    for (size_t int_i = 0; int_i < int_length; int_i++)
     {
         if (str_string[int_i] == '\n')
         {
@@ -56,13 +56,13 @@ void pre_parser(std::string& str_string)
     }
 
     // (1) Replace tabs and "," with spaces
-    for (int int_i = 0; int_i < int_length; int_i++)
+    for (size_t int_i = 0; int_i < int_length; int_i++)
         if (str_string[int_i] == 0x09 || str_string[int_i] == ',')
             str_string[int_i] = 0x20;
 
     // (2) Remove spaces (0x20) after ';'
-    int int_counter = 0;
-    for (int int_i = 0; int_i < int_length; int_i++)
+    size_t int_counter = 0;
+    for (size_t int_i = 0; int_i < int_length; int_i++)
     {
         str_string[int_counter] = str_string[int_i];
         if (str_string[int_i] == ';' && str_string[int_i + 1] == ' ')
@@ -79,7 +79,7 @@ void pre_parser(std::string& str_string)
 
     // (3) This is to remove extra spaces.
     int_counter = 0;
-    for (int int_i = 0; int_i < int_length; int_i++)
+    for (size_t int_i = 0; int_i < int_length; int_i++)
     {
         if (str_string[int_i] != 0x20 && str_string[int_i] != ']' && str_string[int_i] != '[')
         {
-- 
2.43.0


From 618f1f9e289d21771f823d4afb2c403506b21328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 76/78] fix: count the elements of long vectors in mean and var
 with size_t

---
 inc/susa/statistics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index db8ff38..2631b32 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -58,7 +58,7 @@ template <class T> T mean(std::vector <T> vec_arg)
     // a sum of narrow integers exceeds their range although the mean does not
     using accumulator = std::conditional_t<std::is_integral_v<T>, std::conditional_t<std::is_unsigned_v<T>, unsigned long long, long long>, T>;
     accumulator tMean=0;
-    for (int i=0; i<vec_arg.size(); i++)
+    for (size_t i=0; i<vec_arg.size(); i++)
     {
         tMean += vec_arg[i];
     }
@@ -73,13 +73,13 @@ template <class T> double var(std::vector <T> vec_arg)
 {
     double tMean = 0;
     double tVar = 0;
-    for (int i=0; i<vec_arg.size(); i++)
+    for (size_t i=0; i<vec_arg.size(); i++)
     {
         tMean += vec_arg[i];
     }
     tMean /= vec_arg.size();
 
-    for (int i=0; i<vec_arg.size(); i++)
+    for (size_t i=0; i<vec_arg.size(); i++)
     {
         tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
     }
-- 
2.43.0


From b41bb40144c50f4d4b3c479629b50de478622db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 77/78] fix: find terminates and covers vectors of more than
 2^32 elements

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 9f3a87a..01dbbcb 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -252,7 +252,7 @@ template <class T> susa::bitset find(const matrix <T> &mat_arg, T &T_arg)
 
     susa::bitset indxset(mat_arg.size() + 1); // lets have at least one index
 
-    for (unsigned int uint_index = 0; uint_index < mat_arg.size(); uint_index++)
+    for (size_t uint_index = 0; uint_index < mat_arg.size(); uint_index++)
     {
         if (mat_arg(uint_index) == T_arg) indxset.set(uint_index);
     }
-- 
2.43.0


From fc1e77dd2441eb6c7976dc392b80e35e6b63b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 78/78] fix: encode more than 2^32 convolutional code bits

---
 src/ccode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 1448121..4706444 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -142,16 +142,16 @@ uint8_t ccode::next_output(bool b_input)
 matrix <uint8_t> ccode::encode(const matrix <uint8_t>& mat_arg)
 {
     uint32_t uint_rate      = uint_n/uint_k;
-    uint32_t uint_in_size   = mat_arg.size();
-    uint32_t uint_out_size  = uint_in_size * uint_rate;
-    uint32_t uint_counter   = 0;
+    size_t   uint_in_size   = mat_arg.size();
+    size_t   uint_out_size  = uint_in_size * uint_rate;
+    size_t   uint_counter   = 0;
 
     matrix <uint8_t> mat_out(uint_out_size, 1);
 
     //init
     zero_state();
 
-    for (uint32_t uinti = 0; uinti < uint_in_size; uinti++)
+    for (size_t uinti = 0; uinti < uint_in_size; uinti++)
     {
         if (mat_arg(uinti) != 0)
         {
-- 
2.43.0

