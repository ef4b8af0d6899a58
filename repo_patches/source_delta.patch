From 37af2154f4dfb62ec8c2ec488d35a86588948552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 01/54] fix: CSR from three arrays: zero the row counters and
 sort the arrays together

---
 include/matrix/csr.1.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/matrix/csr.1.h b/include/matrix/csr.1.h
index 6216d7a..c2e47cd 100644
--- a/include/matrix/csr.1.h
+++ b/include/matrix/csr.1.h
@@ -4,6 +4,8 @@
 #include <iostream>
 #include <cassert>
 
+#include "typedefs.h"
+#include "utils.h"
 #include "generic/csr.h"
 
 /*
@@ -44,11 +46,24 @@ int Coo_to_Csr(Csr<T, IT> *A, T *val, IT *I, IT *J, IT rows, IT columns, IT nnz)
 {
   A->val = val;
   A->col_ind = J;
-  A->row_ptr = new IT[rows + 1];
+  A->row_ptr = new IT[rows + 1]();
   A->rows = rows;
   A->columns = columns;
 
-  sort_triplets(I, J, val, nnz);
+  // Sort the three arrays together
+  Triplet<T,IT> * triplets = new Triplet<T,IT>[nnz];
+  for (IT i=0; i < nnz; i++) {
+    triplets[i].row = I[i];
+    triplets[i].col = J[i];
+    triplets[i].val = val[i];
+  }
+  sort_triplets(triplets, nnz);
+  for (IT i=0; i < nnz; i++) {
+    I[i] = triplets[i].row;
+    J[i] = triplets[i].col;
+    val[i] = triplets[i].val;
+  }
+  delete [] triplets;
 
   // Count non zero values in each row
   for (IT i=0; i < nnz; i++) {
-- 
2.43.0


From 1b723bf98e0680fd0a38d1fa59c03ef9fbbb8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 02/54] fix: compressed-row CSR: zero the row counters, count
 rows in sorted order, accept empty input

---
 include/matrix/crcsr.h | 7 ++++---
 include/utils.h        | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..8ad2c6a 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,13 +38,13 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1]();
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
     sort_triplets(nonzeros, nnz);
 
-    A->nnz_rows[0] = nonzeros[0].row;
+    if (nnz > 0) A->nnz_rows[0] = nonzeros[0].row;
     cur_row_index = 0;
 
     for (IT i=0; i<nnz; i++)
@@ -60,7 +60,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
         A->row_ptr[cur_row_index+1]++;
     }
 
-    assert(cur_row_index == nnzrows - 1);
+    assert(nnz == 0 || cur_row_index == nnzrows - 1);
 
     for (IT r=0; r<nnzrows; r++)
     {
@@ -81,6 +81,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz);  // Rows are counted in sorted order
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
diff --git a/include/utils.h b/include/utils.h
index ea1ea56..ce00a97 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -351,12 +351,13 @@ IT count_blocks(Element<T, IT> * array, IT size)
 
 /*
  * Operates on a SORTED array of type NONZERO and returns the number of
- * non-zero rows. nnz has to be at greater or equal to 1. NNZERO type must have
- * a 'row' field
+ * non-zero rows. NNZERO type must have a 'row' field
  */
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0) return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From 360a994b2ec52a885c859e43b27e262e764577a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 03/54] fix: dense blocks: add up entries with the same indices
 instead of keeping the last

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..017c03f 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -108,7 +108,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From fd2bd70f6690b5a185fe2379fea567d3978423f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 04/54] fix: block scans stop at the end of the array and count
 no blocks in an empty one

---
 include/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index ce00a97..c8a55c3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From 027cb88372dde5cc565a136b369ac4925a12ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 05/54] fix: Cgbr2: set the balanced flag, which multiplication
 and printing read

---
 include/matrix/cgbr.2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..b2838fa 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -172,6 +172,7 @@ int Cgbr2<T,IT,SIT>::create (
     assert(blockrow_ptr[blockrows] == nnzblocks);
 
     // Now create block-row partitioning
+    balanced = false;
     partition_init(this);
     return 0;
 }
-- 
2.43.0


From 074ee40e5ab622b3c8867d1136c70599c15fadec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 06/54] fix: Csbr: start the block counter one below zero for
 signed index types too

---
 include/matrix/csbr.2.h | 2 +-
 include/matrix/csbr.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index 01e863d..b09461c 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -115,7 +115,7 @@ void Coo_to_Csbr(Csbr2<T,IT> * A, Coo3<T,IT> * B,
   A->val = (T *) malloc( A->nnz * sizeof(T));
   A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
 
-  block_index = std::numeric_limits<IT>::max();
+  block_index = (IT) -1; // the first block makes it 0
   prev_b = std::numeric_limits<IT>::max();
 
   for (IT i=0; i<A->nnz; i++)
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..0b26c38 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -235,7 +235,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();
+  block_index = (IT) -1; // the first block makes it 0
   prev_b = std::numeric_limits<IT>::max();
 
   for (IT i=0; i<A->nnz; i++)
-- 
2.43.0


From a971b666881365f58f9f05e7fa71e08958f0cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 07/54] fix: sort_triplets_morton: compare the whole unsigned
 position, not one cut to the index type

---
 include/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index c8a55c3..092e300 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -204,7 +204,9 @@ void sort_triplets_morton(Point_t<Value_t,SmallIndex_t> * array, Index_t size)
     auto compare = [](Point_t<Value_t,SmallIndex_t> const& first,
                       Point_t<Value_t,SmallIndex_t> const& second)
     {
-        return bit_interleave(first.row, first.col) < bit_interleave(second.row, second.col);
+        // The position has twice as many bits as an index and no sign
+        return bit_interleave((uint32_t) first.row, (uint32_t) first.col)
+             < bit_interleave((uint32_t) second.row, (uint32_t) second.col);
     };
 
     // Sort
-- 
2.43.0


From d313596fa77fd062cd98d8de9b715108d31c9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 08/54] fix: sort_triplets_blocks: order the entries of a block
 by row and column

---
 include/utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 092e300..6d3d4dc 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -226,12 +226,14 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   IT * brow_ptr;
   IT i;
 
-  // Define function to compare block columns
+  // Define function to compare block columns, then rows, then columns
   auto block_compare = [bcol_offset, blockcols]
                         (Triplet<T, IT> first, Triplet<T, IT> last){
     IT first_bcol = index_to_blockindex(bcol_offset, blockcols, first.col);
     IT last_bcol = index_to_blockindex(bcol_offset, blockcols, last.col);
-    return first_bcol < last_bcol ;
+    return first_bcol < last_bcol ||
+         ( first_bcol == last_bcol && ( first.row < last.row ||
+         ( first.row == last.row && first.col < last.col )));
   };
 
   // Define function to compare rows (NOT block-rows)
-- 
2.43.0


From 95d43bdd7718cb69062226fcf66a312d4130078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 09/54] fix: read_bin_array: close the file and free the array
 when the read fails

---
 include/io/input.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..0520316 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -25,11 +25,18 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
 
   // Read data from file
   FILE * f = fopen(filename, "rb");
-  if (f==NULL) return -2;
-  size_t ret = fread( *data, sizeof(T), size, f);
-  if (ret < size) return -3;
+  if (f==NULL) {
+    free(*data);
+    return -2;
+  }
 
+  size_t ret = fread( *data, sizeof(T), size, f);
   fclose(f);
+  if (ret < size) {
+    free(*data);
+    return -3;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From b2a471b922f14c1a8a93aede1e99152c17e5d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 10/54] fix: read_mm_COO: report malformed, missing and
 out-of-range entries, refuse kinds it does not represent, close the file on
 errors

---
 include/io/input.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 0520316..50e5cbb 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -66,12 +66,17 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || mm_is_pattern(matcode) || !mm_is_coordinate(matcode) ||
+      !(mm_is_general(matcode) || mm_is_symmetric(matcode)) ){
+      char * type = mm_typecode_to_str(matcode);
       fprintf(stderr, "Sorry, this program does not support ");
-      fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      fprintf(stderr, "Market Market type: [%s]\n", type);
+      free(type);
+      fclose(f);
       return -3;
   }
 
@@ -82,6 +87,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
   if (ret_code != 0) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
@@ -92,10 +98,12 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
+    for (IT i=0; i<nnz; i++){
         ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-        if(ret == EOF){
-          break;
+        if(ret != 3){
+          fprintf(stderr, "Error while reading matrix entries.\n");
+          fclose(f);
+          return -5;
         }else{
           if(r==c){
             counter += 1;
@@ -115,9 +123,11 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
       ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
+      if(ret != 3 || r < 1 || r > A->rows || c < 1 || c > A->columns){
+        fprintf(stderr, "Error while reading matrix entries.\n");
+        release(*A);
+        fclose(f);
+        return -5;
       }else{
         set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
 
-- 
2.43.0


From 9938a0c0d132d200f4e5b67ac7c40b6514b0e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 11/54] fix: read_bin_COO from three files: find the
 dimensions, report short files, close every file once

---
 include/io/input.h | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 50e5cbb..8cac965 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -152,8 +152,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size, counter = 0;
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
@@ -170,7 +169,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -184,7 +183,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -193,13 +192,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -220,8 +224,8 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, counter = 0, buffer;
+  IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
@@ -241,6 +245,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -257,6 +262,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -275,7 +281,13 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * size)
+  {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From 23a4fa33f00605e7f24e252883c9c56fed01ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 12/54] fix: read_bin_COO: close the file when reading fails

---
 include/io/input.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/io/input.h b/include/io/input.h
index 8cac965..17a3183 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -320,6 +320,7 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
@@ -349,6 +350,7 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     if (counter != 3 * A->nnz)
     {
         fprintf(stderr, "Failed to read matrix.\n");
+        fclose(f);
         return -4;
     }
 
-- 
2.43.0


From 4fbc2e3667514550a4a76994fd5ce6d1eb4bd60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 13/54] fix: read_bin_CSR: report short files; the Csr2 version
 reads into the fields that exist

---
 include/io/input.h | 64 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 17a3183..e29d9c6 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -384,7 +384,7 @@ int read_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
-  IT current_row, nnz;
+  IT current_row, nnz, counter = 0;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -394,9 +394,15 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+
+  if (counter != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -408,14 +414,21 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
-  for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+  counter = 0;
+  for(IT i=0; i<nnz && fread(&current_row, sizeof(IT), 1, f) == 1; i++){
+    counter++;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  counter += fread(A->col_ind, sizeof(IT), nnz, f);
+  counter += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
+  if (counter != 3 * nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
@@ -435,9 +448,9 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
-  IT current_row, nnz;
+  IT current_row, nnz, counter = 0;
 
-  // Open file for writing
+  // Open file for reading
   FILE * f = fopen(filename, "rb");
   if(f == NULL){
     fprintf(stderr, "Cannot open input file.\n");
@@ -445,28 +458,41 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+
+  if (counter != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   // Allocate memory
-  A->nonzeros = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows]();
+  A->data = new NonZero<T,IT>[nnz];
+  A->row_ptr = new IT[A->rows + 1]();
 
   // Read data section
-  for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+  counter = 0;
+  for(IT i=0; i<nnz && fread(&current_row, sizeof(IT), 1, f) == 1; i++){
+    counter++;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].index), sizeof(IT), 1, f);
+    counter += fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].val), sizeof(IT), 1, f);
+    counter += fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
 
+  if (counter != 3 * nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   // Get row pointers from row non-zero counters
   for(IT i=0; i<A->rows; i++){
     A->row_ptr[i+1] = A->row_ptr[i+1] + A->row_ptr[i];
-- 
2.43.0


From acec17438a1994bde2337bb7c5fde7a6b190616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 14/54] fix: read_bin_blocked: close the file on errors

---
 include/io/blocked.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..17722f3 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -84,6 +84,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   if(A->blocks==NULL || A->blockcol_ind==NULL || A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL){
     fprintf(stderr, "Memory allocation failed.");
+    fclose(f);
     return -3;
   }
 
@@ -100,6 +101,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     fr += fread(&cur_val, sizeof(T), 1, f);
     if(fr != 4){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
@@ -128,6 +130,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->blocks[block_index].row_ptr == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
@@ -186,6 +189,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   if(A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL || A->row_ptr==NULL){
     fprintf(stderr, "Memory allocation failed.");
+    fclose(f);
     return -3;
   }
 
@@ -202,6 +206,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     fr += fread(&cur_val, sizeof(T), 1, f);
     if(fr != 4){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
@@ -226,6 +231,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       A->row_ptr[block_index] = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->row_ptr[block_index] == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
@@ -295,6 +301,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
   if(A->blocks==NULL || A->col_ind==NULL || A->val==NULL){
     fprintf(stderr, "Memory allocation failed.");
+    fclose(f);
     return -3;
   }
 
@@ -315,6 +322,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     fr += fread(&cur_val, sizeof(T), 1, f);
     if(fr != 4){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
@@ -332,6 +340,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
       A->blocks[b].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->blocks[b].row_ptr == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
-- 
2.43.0


From 01229f10d90fbf970a11fd6c04e825c7202b9da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 15/54] fix: mm_io: a header line was written when fprintf
 returns no negative number

---
 dep/mm_io/mm_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..bef44d0 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -680,7 +680,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -700,7 +700,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -785,7 +785,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From f648a68ef1718170c3a8ba73edddf70b2125ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 16/54] fix: mm_read_banner: keep the words of the banner
 inside their buffers

---
 dep/mm_io/mm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index bef44d0..500dfcf 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
-- 
2.43.0


From ef1e021808cec8f31e51c8351a9ebfced1c268ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 17/54] fix: mm_io: report a malformed size line instead of
 reading it forever

---
 dep/mm_io/mm_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 500dfcf..1a9c73d 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -219,7 +219,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     do
     {
       num_items_read = fscanf ( f, "%d %d", M, N );
-      if ( num_items_read == EOF )
+      if ( num_items_read == EOF || num_items_read == 0 )
       {
         return MM_PREMATURE_EOF;
       }
@@ -460,7 +460,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     {
       num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
+      if (num_items_read == EOF || num_items_read == 0)
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From ccc49d97f3cc0a0b4f07e0c901ed60282bdf2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 18/54] fix: mm_read_mtx_crd: close the file on errors, refuse
 data types it does not read

---
 dep/mm_io/mm_io.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 1a9c73d..d078079 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -267,14 +267,23 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
             mm_is_matrix(*matcode)))
+    {
+        if (f != stdin) fclose(f);
         return MM_UNSUPPORTED_TYPE;
+    }
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
 
     *I = (int *)  malloc(*nz * sizeof(int));
@@ -286,25 +295,24 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         *val = (double *) malloc(*nz * 2 * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
     else if (mm_is_real(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
     else if (mm_is_pattern(*matcode))
     {
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
+    else
+        ret_code = MM_UNSUPPORTED_TYPE;
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
-- 
2.43.0


From a81b65f0a2031c54c6de3ff590a82fb803598b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 19/54] fix: mm_read_unsymmetric_sparse: report missing
 entries, close the file on errors

---
 dep/mm_io/mm_io.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index d078079..5e24b9c 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -508,6 +508,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
 
@@ -519,6 +520,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         fprintf(stderr, "Sorry, this application does not support ");
         fprintf(stderr, "Market Market type: [%s]\n",
                 mm_typecode_to_str(matcode));
+        fclose(f);
         return -1;
     }
 
@@ -529,6 +531,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
 
@@ -553,7 +556,11 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
 
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 88af0a5089f1f28bcfcdaf13c9a049c31c759baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 20/54] fix: mm_write_mtx_crd: report failed writes and free
 the type string; mm_typecode_to_str: no uninitialised word

---
 dep/mm_io/mm_io.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 5e24b9c..e7f6a7d 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -613,7 +613,6 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     char buffer[MM_MAX_LINE_LENGTH];
     char *types[4];
 	char *mm_strdup(const char *);
-    int error =0;
 
 /*
   check for MTX type
@@ -621,7 +620,7 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     if (mm_is_matrix(matcode))
         types[0] = MM_MTX_STR;
     else
-        error=1;
+        return NULL;
 
 /*
   check for CRD or ARR matrix
@@ -737,7 +736,8 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 */
 {
     FILE *f;
-    int i;
+    char *str;
+    int i, failed;
 
     if (strcmp(fname, "stdout") == 0)
         f = stdout;
@@ -748,7 +748,9 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    str = mm_typecode_to_str(matcode);
+    fprintf(f, "%s\n", str);
+    free(str);
 
 /*
   print matrix sizes and nonzeros.
@@ -775,11 +777,12 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
         return MM_UNSUPPORTED_TYPE;
     }
 
-  if ( f !=stdout )
+  failed = ferror(f);
+  if ( f !=stdout && fclose(f) != 0 )
   {
-    fclose(f);
+    failed = 1;
   }
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 0d5c19020ced99acb729ca38548e6169625162e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 21/54] fix: write_bin_array: close the file when the write
 fails and report a failed close

---
 include/io/output.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..b5ae080 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -19,9 +19,8 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
+  if (fclose(f) != 0 || ret < num) return -2;
 
-  fclose(f);
   return 0;
 }
 
-- 
2.43.0


From 7e62c8b378f6fc73fb9cc2b9595446d5d321ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 22/54] fix: write_mm_COO: print values with all their digits,
 report failed writes

---
 include/io/output.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index b5ae080..56b765b 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -65,11 +65,15 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.17g\n", r+1, c+1, (double) val);
   }
 
   // Close file
-  fclose(f);
+  int failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
   return 0;
 }
 
-- 
2.43.0


From 2c8bba22103d91774c0a1aa00683f5769fb29605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 23/54] fix: write_bin_COO to three files: report failed
 writes, close the files that were opened

---
 include/io/output.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index 56b765b..684569d 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -88,7 +88,7 @@ template <typename T, typename IT,
 int write_bin_COO(COO<T,IT> * A,
         const char * file_row, const char * file_col, const char * file_val)
 {
-  int ret;
+  int failed = 0;
   T val;
   IT i, r, c;
   IT nrows = A->rows;
@@ -102,6 +102,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
@@ -111,7 +114,8 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  if (ferror(fr)) failed = 1;
+  if (fclose(fr) != 0) failed = 1;
 
   // Write column file
   for (i=0; i<size; i++)
@@ -119,7 +123,8 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  if (ferror(fc)) failed = 1;
+  if (fclose(fc) != 0) failed = 1;
 
   // Write value file
   for (i=0; i<size; i++)
@@ -127,8 +132,13 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  if (ferror(fv)) failed = 1;
+  if (fclose(fv) != 0) failed = 1;
 
+  if (failed) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
   return 0;
 }
 
-- 
2.43.0


From 51f27c2fa4783b8837437b2530622a8552a27ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 24/54] fix: write_bin_COO, write_bin_blocked: report failed
 writes

---
 include/io/output.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index 684569d..7f49301 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -182,7 +182,11 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
+    int failed = ferror(f);
+    if (fclose(f) != 0 || failed) {
+        fprintf(stderr, "Failed to write matrix.\n");
+        return -2;
+    }
     return 0;
 }
 
@@ -217,7 +221,11 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
+  int failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
   return 0;
 }
 
-- 
2.43.0


From ba25d0d3fa5066b624967915495d0753be2b8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 25/54] fix: read_bin_blocked into Cgbr: read every element,
 report short files

---
 include/io/blocked.h | 48 ++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 17722f3..5179f3e 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -403,20 +403,35 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   block_index = 0;
   block_start = 0;
 
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
-
-  // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
+  if(A->nnz > 0){
+    fr =  fread(&prev_b, sizeof(IT), 1, f);
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
+    if(fr != 4){
+      fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
+      return -4;
+    }
+  }
+
+  // Read data section. There is no element to read after the last one.
+  for(IT i=1; i<=A->nnz; i++){
+    fr = 0;
+    if(i < A->nnz){
+      fr =  fread(&b, sizeof(IT), 1, f);
+      fr += fread(&cur_row, sizeof(IT), 1, f);
+      fr += fread(&cur_col, sizeof(IT), 1, f);
+      fr += fread(&cur_val, sizeof(T), 1, f);
+      if(fr != 4){
+        fprintf(stderr, "Error while reading data section.\n");
+        fclose(f);
+        return -4;
+      }
+    }
 
     // Check if this is the begining of a new block
-    if( b != prev_b || fr == 0){
+    if( i == A->nnz || b != prev_b){
       br = prev_b / blockcols;
       bc = prev_b % blockcols;
       br_offset = blockrow_offset[br];
@@ -437,10 +452,17 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
         fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
 
       for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
+        size_t n;
+        n  = fread(&(temp_array[j].block), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].row), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].col), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].val), sizeof(T), 1, f);
+        if(n != 4){
+          fprintf(stderr, "Error while reading data section.\n");
+          delete [] temp_array;
+          fclose(f);
+          return -4;
+        }
 
         assert(temp_array[j].block == prev_b);
         assert(temp_array[j].row   >= br_offset);
-- 
2.43.0


From 656041dc387e118172870c12d5e64a766703a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 26/54] fix: tools: refuse file names that do not fit the
 buffers of the output names

---
 src/tools/convert.cpp    | 5 +++++
 src/tools/double2float.c | 5 +++++
 src/tools/expanded.cpp   | 5 +++++
 src/tools/one2zero.c     | 5 +++++
 src/tools/permute.cpp    | 5 +++++
 src/tools/prepare.cpp    | 5 +++++
 src/tools/sort.cpp       | 8 ++++++++
 7 files changed, 38 insertions(+)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..78704a9 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -43,6 +43,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (strlen(argv[4]) >= FNBUFL-10) {
+    fprintf(stderr, "File name too long.\n");
+    return 1;
+  }
+
   printf("Reading matrix from disk..."); fflush(stdout);
   tick();
   ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..d6f2338 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -24,6 +24,11 @@ int main(int argc, char * argv[])
 
   for(int i=1; i<argc; i++){
 
+    if (strlen(argv[i]) >= FNBUFL-7) {
+      fprintf(stderr, "File name too long.\n");
+      return 1;
+    }
+
     // Create new filename for output
     strncpy(buf, argv[i], FNBUFL-7);
     strcat(buf, SUFFIX);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..162b209 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -28,6 +28,11 @@ int main(int argc, char * argv[]){
     return 1;
   }
 
+  if (strlen(argv[5]) >= FNBUFL-20) {
+    fprintf(stderr, "File name too long.\n");
+    return 1;
+  }
+
   ret = read_bin_array(argv[4], &block_size, &blocks );
   if(ret<0){
     fprintf(stderr, "Error while reading block sizes. Error : %d\n", ret);
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..7daff13 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -21,6 +21,11 @@ int main (int argc, char * argv[])
 
   for (int i=1; i<argc; i++) {
 
+    if (strlen(argv[i]) >= FNBUFL-7) {
+      fprintf(stderr, "File name too long.\n");
+      return 1;
+    }
+
     // Create new filename for output
     strncpy(buf, argv[i], FNBUFL-7);
     strcat(buf, SUFFIX);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..b2e6e08 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -24,6 +24,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (strlen(argv[1]) >= FNBUFL-10 || strlen(argv[2]) >= FNBUFL-10) {
+    fprintf(stderr, "File name too long.\n");
+    return 1;
+  }
+
   ret = read_bin_array(argv[3], &permutation, &perm_size );
   if (ret<0) {
     fprintf(stderr, "Error while reading permutation vector. Error : %d\n", ret);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..090ffde 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -34,6 +34,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (strlen(argv[6]) >= FNBUFL-20) {
+    fprintf(stderr, "File name too long.\n");
+    return 1;
+  }
+
   // Set up temporary storage
   system("mkdir -p /tmp/csbr_prepare");
 
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..80d9192 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -18,6 +18,14 @@ int main(int argc, char * argv[]){
   uint32_t * block_sizes;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
+  // Output names are input names with a suffix
+  for (i=1; i<argc && i<4; i++) {
+    if (strlen(argv[i]) >= FNBUFL-10) {
+      fprintf(stderr, "File name too long.\n");
+      exit(1);
+    }
+  }
+
   // Read files
   switch(argc){
     case 5 :
-- 
2.43.0


From 43b9ad4fedd9b1051597f9763a23208a09ac5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 27/54] fix: tools: exit with an error when the output was not
 written or the matrix not read

---
 src/tools/convert.cpp         | 2 ++
 src/tools/convert_blocked.cpp | 1 +
 src/tools/expanded.cpp        | 7 ++++++-
 src/tools/permute.cpp         | 2 ++
 src/tools/prepare.cpp         | 4 ++++
 src/tools/sort.cpp            | 1 +
 6 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 78704a9..413df68 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -76,6 +76,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -91,6 +92,7 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..a83c40e 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -94,6 +94,7 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 162b209..b6ac15c 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -52,7 +52,11 @@ int main(int argc, char * argv[]){
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if(ret<0){
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
   printf("Calculating block ids... "); fflush(stdout);
@@ -86,6 +90,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index b2e6e08..955d95d 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -66,6 +66,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -91,6 +92,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 090ffde..2793ff1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -149,6 +149,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -176,6 +177,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -197,6 +199,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -221,6 +224,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 80d9192..70874ea 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -103,6 +103,7 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    return 1;
   }
 
   release(A);
-- 
2.43.0


From 379280f82554f166e90a5959f38cfa0dc8b7b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 28/54] fix: double2float, one2zero: report failed reads and
 writes

---
 src/tools/double2float.c |  7 ++++++-
 src/tools/one2zero.c     | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index d6f2338..1fbaed4 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -16,6 +16,7 @@ int main(int argc, char * argv[])
   OLDTYPE v;
   NEWTYPE v_new;
   FILE *f_in, *f_out;
+  int failed;
 
   if (argc < 2){
     fprintf(stderr, "Usage: %s [file-1] [file-2] ... [file-n]\n", argv[0]);
@@ -49,8 +50,12 @@ int main(int argc, char * argv[])
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
+    failed = ferror(f_in) || ferror(f_out);
     fclose(f_in);
-    fclose(f_out);
+    if(fclose(f_out) != 0 || failed){
+      fprintf(stderr, "Conversion failed. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 7daff13..26dfbaf 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -13,6 +13,7 @@ int main (int argc, char * argv[])
   char buf[FNBUFL];
   INDEXTYPE *indeces, n;
   FILE *f_in, *f_out;
+  int failed;
 
   if (argc < 2) {
     fprintf(stderr, "Usage: %s [file-1] [file-2] ... [file-n]\n", argv[0]);
@@ -44,7 +45,12 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    if (fread(indeces, sizeof(INDEXTYPE), n, f_in) != n) {
+        fprintf(stderr, "Could not read file\n");
+        fclose(f_in);
+        free(indeces);
+        return 1;
+    }
     fclose(f_in);
 
     // Convert and check
@@ -62,11 +68,16 @@ int main (int argc, char * argv[])
     f_out = fopen(buf, "wb");
     if (f_out == NULL) {
       fprintf(stderr, "Cannot open output file. Aborting.\n");
+      free(indeces);
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    failed = fwrite(indeces, sizeof(INDEXTYPE), n, f_out) != n;
+    if (fclose(f_out) != 0 || failed) {
+      fprintf(stderr, "Could not write output file. Aborting.\n");
+      free(indeces);
+      return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
-- 
2.43.0


From ef7247c5c484cea4cfb4e002872feebe199c4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 29/54] fix: pprint: report files that cannot be opened or are
 too short

---
 src/tools/pprint.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..b3d84c1 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,17 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Read one item of the file. A file without it is an error.
+ */
+static void read_item (void * item, size_t size, FILE * f)
+{
+    if (fread(item, size, 1, f) != 1) {
+        fprintf(stderr, "Could not read file.\n");
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -38,50 +49,51 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_item(&r, sizeof(INDEXTYPE), f);
+        read_item(&c, sizeof(INDEXTYPE), f);
+        read_item(&nnz, sizeof(INDEXTYPE), f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_item(&v, sizeof(VALUETYPE), f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_item(&r, sizeof(INDEXTYPE), f);
+        read_item(&c, sizeof(INDEXTYPE), f);
+        read_item(&nnz, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_item(&v, sizeof(VALUETYPE), f);
             printf("%12e\n", v);
         }
         break;
-- 
2.43.0


From dc32cbe326b4c26857d544b28b4adc2904554590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 30/54] fix: sort: read the block sizes that were given and
 sort by the blocks' offsets

---
 src/tools/sort.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 70874ea..cbee79b 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Output names are input names with a suffix
@@ -35,7 +35,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -58,8 +58,12 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = new uint32_t[size + 1];
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      delete [] block_offsets;
+      free(block_sizes);
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From 6bb3f0da743b5a1b1c8aedf198ca601196105539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 31/54] fix: tools: release what new[] allocated with delete[]

---
 src/tools/convert_blocked.cpp | 2 +-
 src/tools/expanded.cpp        | 2 +-
 src/tools/permute.cpp         | 4 ++++
 src/tools/prepare.cpp         | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index a83c40e..21b9987 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -99,6 +99,6 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\n", t);
   }
 
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index b6ac15c..8833f68 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -98,6 +98,6 @@ int main(int argc, char * argv[]){
   // Clean up
   free(block_size);
   free(block_offset);
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 955d95d..6c94bee 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -100,6 +100,10 @@ int main(int argc, char * argv[])
   free(I);
 
   // Clean up
+  #ifdef INVPERM
+  delete [] permutation;
+  #else
   free(permutation);
+  #endif
   return 0;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 2793ff1..2e5ccb1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -232,7 +232,7 @@ int main(int argc, char * argv[])
   // Memory clean up
   free(block_sizes);
   free(block_offsets);
-  free(A.elements);
+  release(A);
 
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
-- 
2.43.0


From 12eddcc8b4ac8867e59a70e5d93de2e42154713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 32/54] fix: prepare, convert_blocked: keep the dimensions that
 the blocks give

---
 src/tools/convert_blocked.cpp | 6 ++++--
 src/tools/prepare.cpp         | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 21b9987..05df3aa 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -52,8 +52,6 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -66,6 +64,10 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  // The blocks give the dimensions, trailing rows and columns may be empty
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 2e5ccb1..0d98aea 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -114,14 +114,15 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+
+  // The blocks give the dimensions, trailing rows and columns may be empty
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From 9b6f0c6f0fa2b934b9e529e55276a751acdf1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 33/54] fix: blocked: use the block sizes that were given

---
 src/drivers/blocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..2203293 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
-- 
2.43.0


From 0505954931c2749b0aef3d2ffea3b5364a823ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 34/54] fix: Bcsr: mark every block as empty, accumulate the
 row counts of every block

---
 include/matrix/bcsr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/bcsr.h b/include/matrix/bcsr.h
index fc60cbc..5cd66d8 100644
--- a/include/matrix/bcsr.h
+++ b/include/matrix/bcsr.h
@@ -118,7 +118,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
 
   // Mark all blocks as having 0 rows to filter out empty ones
   for (IT i=0; i<blockrows * blockcols; i++) {
-    A->blocks[b].rows = 0;
+    A->blocks[i].rows = 0;
   }
 
   prev_b = std::numeric_limits<IT>::max();
@@ -160,7 +160,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
   DEBUG(puts("Data copied"));
 
   // Get row pointers from row non-zero counters
-  for (IT bi=0; bi<A->nnzblocks; bi++)
+  for (IT bi=0; bi<blockrows * blockcols; bi++)
   {
     for (IT i=0; i<A->blocks[bi].rows; i++)
     {
-- 
2.43.0


From 03c619372e61d8911f4a89df7cc17b7209ef3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 35/54] fix: Bcsr: a product and a count for its dense array of
 blocks

---
 include/matrix/bcsr.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/matrix/bcsr.h b/include/matrix/bcsr.h
index 5cd66d8..2098f04 100644
--- a/include/matrix/bcsr.h
+++ b/include/matrix/bcsr.h
@@ -10,7 +10,6 @@
 #include "utils.h"
 #include "matrix/coo.3.h"
 #include "matrix/csr.1.h"
-#include "spmv/omp/gsb.h"
 
 /*
  * Dense matrix of CSR blocks of variable size or Blocked Compressed Sparse
@@ -47,7 +46,7 @@ struct Bcsr
     // Returns the number of non-zero elements in a block of the matrix.
     IT block_nonzeros(IT i) const
     {
-        return blocks[i].row_ptr[blocks[i].rows];
+        return blocks[i].rows > 0 ? blocks[i].row_ptr[blocks[i].rows] : 0;
     }
 
     // Return the offset of block column "i"
@@ -67,7 +66,19 @@ struct Bcsr
      */
     void spmv(const T * __restrict x, T * __restrict y) const
     {
-        spmv_blocked<Bcsr<T,IT>,T,IT>(this, x, y);
+        // For each block row
+        #pragma omp parallel for schedule(dynamic,1)
+        for (IT bi=0; bi<blockrows; bi++)
+        {
+            IT y_offset = get_block_row_offset(bi);
+
+            // For every non-empty block in block row
+            for (IT bj=0; bj<blockcols; bj++)
+            {
+                Csr<T,IT> const * const block = blocks + (bi * blockcols + bj);
+                if (block->rows > 0) block->spmv(x + get_block_column_offset(bj), y + y_offset);
+            }
+        }
     }
 };
 
-- 
2.43.0


From 8805bd07c5ac12f0165db89cc257eedfebd5a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:56 +0000
Subject: [PATCH 36/54] fix: headers include what they use: partition.h,
 generic/gsb.h, matrix/dense.h

---
 include/generic/gsb.h  | 2 ++
 include/matrix/dense.h | 1 +
 include/partition.h    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index f6bf3b3..775fd9d 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -2,6 +2,8 @@
 #define _GSB_H_
 #include <cstdio>
 
+#include "typedefs.h"
+
 #include "spmv/omp/gsb.h"
 
 // ------------------------- Constructors -------------------------
diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 017c03f..8980ca7 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -4,6 +4,7 @@
 #include <cassert>
 
 #include "typedefs.h"
+#include "generic/base.h"
 #include "matrix/coo.2.h"
 #include "matrix/coo.3.h"
 #include "spmv/dense.h"
diff --git a/include/partition.h b/include/partition.h
index 15b83c3..297f6e7 100644
--- a/include/partition.h
+++ b/include/partition.h
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <vector>
 
+#include "params.h"
 #include "rt.h"
 
 /*
-- 
2.43.0


From a1a47e087072aa94b97c15ad19573ed206f77ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 37/54] fix: Csbr3: a product that compiles, block counter
 below zero for signed index types too

---
 include/matrix/csbr.3.h   | 24 ++++++++++++++++++++++--
 include/spmv/omp/csbr.3.h | 27 +++++++++++++++++----------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 36f0607..bb63c9c 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -35,7 +35,7 @@ struct Csbr3
     T * val;
 
     // Partitioning data
-    bool balanced;
+    bool balanced {true}; // TODO: Add heuristic
     BlockRowPartition<IT> * partition;
 
     IT nonzeros() const { return nnz; }
@@ -50,6 +50,18 @@ struct Csbr3
     {
         return block_size * i;
     }
+
+    // Returns the number of non-zero elements in a block of the matrix.
+    IT block_nonzeros(IT i) const
+    {
+        return block_ptr[i+1] - block_ptr[i];
+    }
+
+    /*
+     * SpMV routine for matrices in CSBR3 format. y vector MUST be already
+     * initialized.
+     */
+    void spmv(T const * const __restrict x, T * const __restrict y) const;
 };
 
 /*
@@ -87,7 +99,7 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
 
     A->block_ptr[A->nnzblocks] = A->nnz;
 
-    block_index = std::numeric_limits<IT>::max();
+    block_index = (IT) -1; // the first block makes it 0
     prev_b = std::numeric_limits<IT>::max();
 
     for (IT i = 0; i < A->nnz; i++) {
@@ -169,4 +181,12 @@ void release (Csbr3<T,IT,SIT>& A)
     delete [] A.val;
 }
 
+#include "spmv/omp/csbr.3.h"
+
+template <class T, class IT, class SIT>
+void Csbr3<T,IT,SIT>::spmv(T const * const __restrict x, T * const __restrict y) const
+{
+    ::spmv(this, x, y);
+}
+
 #endif
diff --git a/include/spmv/omp/csbr.3.h b/include/spmv/omp/csbr.3.h
index 351cbfc..e25260b 100644
--- a/include/spmv/omp/csbr.3.h
+++ b/include/spmv/omp/csbr.3.h
@@ -4,6 +4,9 @@
 #include <omp.h>
 
 #include "rt.h"
+#include "partition.h"
+#include "spmv/coo.h"
+#include "matrix/csbr.3.h"
 
 /*
  * SpMV routine
@@ -51,7 +54,7 @@ void spmv_chunk (
         T const * const __restrict x,
         T * const __restrict y,
         BlockRowPartition<IT> const * const partition,
-        IT const first, IT const last)
+        IT const first, IT const last, IT const bsize)
 {
     if (last - first == 1) {
 
@@ -79,20 +82,20 @@ void spmv_chunk (
         IT middle = (first+last) / 2;
 
         #pragma omp task
-        spmv_chunk(A, x, y, partition, first, middle);
+        spmv_chunk(A, x, y, partition, first, middle, bsize);
 
         if (RT_SYNCHED) {
-            spmv_chunk(A, x, y, partition, middle, last);
+            spmv_chunk(A, x, y, partition, middle, last, bsize);
         } else {
 
             // We need C++ style allocation to ensure proper initialization
-            T * temp = new T[A->block_size]();
+            T * temp = new T[bsize]();
 
-            spmv_chunk(A, x, temp, partition, middle, last);
+            spmv_chunk(A, x, temp, partition, middle, last, bsize);
             #pragma omp taskwait
 
             #pragma omp simd
-            for (IT i=0; i<A->block_size; i++)
+            for (IT i=0; i<bsize; i++)
                 y[i] += temp[i];
 
             delete [] temp;
@@ -119,14 +122,18 @@ void spmv (
         #pragma omp parallel for schedule(dynamic,1)
         for (IT bi=0; bi<A->blockrows; bi++) {
 
-            IT nchunks = A->partition[bi].nchunks;
-            IT y_start = get_block_row_offset(A, bi);
-            IT y_end = get_block_row_offset(A, bi+1);
+            IT nchunks = A->partition[bi].chunks.size() - 1;
+            IT y_start = A->get_block_row_offset(bi);
+            IT y_end = A->get_block_row_offset(bi+1);
+
+            // The last block-row may be cut short
+            if (y_end > A->rows) y_end = A->rows;
 
             spmv_chunk(A, x, y + y_start,
                        A->partition + bi,
                        (IT) 0,
-                       nchunks);
+                       nchunks,
+                       y_end - y_start);
         }
     }
 }
-- 
2.43.0


From caad75e7eecb133807545387c09bf123687b5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 38/54] fix: read_bin_blocked: start the block counter below
 zero for 64-bit index types too

---
 include/io/blocked.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 5179f3e..0da3a55 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -90,8 +90,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // The first block makes it 0
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -109,7 +109,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
 
       block_index++;
       prev_b = b;
@@ -195,8 +195,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // The first block makes it 0
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -214,7 +214,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
 
       block_index++;
       prev_b = b;
@@ -312,7 +312,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -328,7 +328,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
-- 
2.43.0


From 5ab5d1a252b31bea4cb85806633c48dc8d6ac34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 39/54] fix: read_bin_blocked into Bcsr: set the arrays of each
 block, accumulate the row counts of every block

---
 include/io/blocked.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 0da3a55..10a7685 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -337,6 +337,9 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
       br_size = blockrow_offset[br + 1] - br_offset;
 
       // CSR block initialize
+      A->blocks[b].rows = br_size;
+      A->blocks[b].val = A->val + i;
+      A->blocks[b].col_ind = A->col_ind + i;
       A->blocks[b].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->blocks[b].row_ptr == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
@@ -359,7 +362,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
-  for(IT bi=0; bi<A->nnzblocks; bi++){
+  for(IT bi=0; bi<A->blockrows*A->blockcols; bi++){
     for(IT i=0; i<A->blocks[bi].rows; i++){
       A->blocks[bi].row_ptr[i+1] = A->blocks[bi].row_ptr[i+1] + A->blocks[bi].row_ptr[i];
     }
-- 
2.43.0


From 3dcb90f434d58fe53bf0cbc5229684ba72df71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 40/54] fix: read_bin_blocked into Csbr and Cgbr: initialise
 the partition and the balanced flag that the product reads

---
 include/io/blocked.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 10a7685..c877f59 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -160,6 +160,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   }
 
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
+
+  partition_init(A);
+
   return 0;
 }
 
@@ -501,7 +504,12 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
-  partition_init(A);
+  A->balanced = A->is_balanced();
+
+  if (!A->balanced) {
+    // Unbalanced block-rows. We need within-block-row parallelism.
+    partition_init(A);
+  }
 
   return 0;
 }
-- 
2.43.0


From 18abc3a160d101dee981ef64223c9ef8ab199eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 41/54] fix: three-file readers count the values of files
 larger than the index type

---
 include/io/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index e29d9c6..9b59a50 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -157,7 +157,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   FILE *fr, *fc, *fv;
 
   // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -229,7 +229,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
-- 
2.43.0


From 0ed7e6b623db6127a1d36894a96f49261ec70106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 42/54] fix: mm_write_mtx_crd: 17 significant digits, so that
 the values read back are the ones written

---
 dep/mm_io/mm_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index e7f6a7d..36774cc 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -765,11 +765,11 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i],
+            fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2*i],
                         val[2*i+1]);
     else
     {
-- 
2.43.0


From eb92f01cd34b8e47186ceca147b87acbdd4bd40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 43/54] fix: Csbr matrices release each array with the operator
 that matches its allocation

---
 include/io/blocked.h  |  7 +------
 include/matrix/csbr.h | 14 ++++++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index c877f59..ac9ed78 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -127,12 +127,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        fclose(f);
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 0b26c38..25e9fc9 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
@@ -312,8 +312,8 @@ void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-  IT * blockrow_offset = (IT *) malloc( (blockrows + 1) * sizeof(IT));
-  IT * blockcol_offset = (IT *) malloc( (blockcols + 1) * sizeof(IT));
+  IT * blockrow_offset = new IT[blockrows + 1];
+  IT * blockcol_offset = new IT[blockcols + 1];
 
   // Calculate block-row offsets
   blockrow_offset[0] = 0;
@@ -366,16 +366,18 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
 
     // Block-row and block-column offsets may point to the same array
     if (A.blockcol_offset == A.blockrow_offset) {
-        free(A.blockrow_offset);
+        delete [] A.blockrow_offset;
     } else {
-        free(A.blockcol_offset);
-        free(A.blockrow_offset);
+        delete [] A.blockcol_offset;
+        delete [] A.blockrow_offset;
     }
 
     free(A.blockcol_ind);
-- 
2.43.0


From 2ff84d9f72ce3e9c601590dd0e56b78d8806ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 44/54] fix: Csbr2 and Bcsr release their offset arrays with
 delete[]

---
 include/matrix/bcsr.h   | 6 +++---
 include/matrix/csbr.2.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/matrix/bcsr.h b/include/matrix/bcsr.h
index 2098f04..63e9d0f 100644
--- a/include/matrix/bcsr.h
+++ b/include/matrix/bcsr.h
@@ -218,10 +218,10 @@ void release(Bcsr<T, IT>& A)
   }
   // Block-row and block-column offsets may point to the same array
   if (A.blockcol_offset == A.blockrow_offset){
-    free(A.blockrow_offset);
+    delete [] A.blockrow_offset;
   } else {
-    free(A.blockcol_offset);
-    free(A.blockrow_offset);
+    delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
   }
   free(A.blocks);
   free(A.col_ind);
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index b09461c..350b1a1 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -226,10 +226,10 @@ void release(Csbr2<T, IT>& A)
   }
   // Block-row and block-column offsets may point to the same array
   if (A.blockcol_offset == A.blockrow_offset) {
-    free(A.blockrow_offset);
+    delete [] A.blockrow_offset;
   } else {
-    free(A.blockcol_offset);
-    free(A.blockrow_offset);
+    delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
   }
   free(A.blockrow_ptr);
   free(A.row_ptr);
-- 
2.43.0


From e7afe754eaa46b09218ee2ea668faabe3c34645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 45/54] fix: Cgbr and Cgbr2 release their offset arrays

---
 include/matrix/cgbr.2.h | 5 +++++
 include/matrix/cgbr.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index b2838fa..38e949c 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -238,6 +238,11 @@ void release(Cgbr2<T,IT,SIT>& A)
         delete A.blocks[i];
     }
 
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset)
+        delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
+
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..f2dab76 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -404,6 +404,11 @@ void release(Cgbr<T,IT,SIT>& A)
         release(A.blocks + i);
     }
 
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset)
+        delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
+
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
-- 
2.43.0


From 861d3f49846e62ebc59d7c232832381bf965adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:24 +0000
Subject: [PATCH 46/54] fix: an empty or released Coo matrix can be destroyed

---
 include/matrix/coo.1.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..af1dec3 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -30,7 +30,7 @@ struct Coo : public BlockBase<T,IT>
         }
     }
 
-    Coo() {}    // We need this
+    Coo() : I(nullptr), J(nullptr), val(nullptr) {}    // We need this
 
     ~Coo()
     {
@@ -77,6 +77,11 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+
+    // The destructor must not release them again
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 935a9b92b40ff3fc423b31b313d317e255dd24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 47/54] fix: DenseSerial releases its values, once

---
 include/matrix/dense.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 8980ca7..f9386de 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -33,7 +33,12 @@ struct DenseSerial : public BlockBase<T,IT>
         }
     }
 
-    DenseSerial() {} // For testing. Should go.
+    DenseSerial() : val(nullptr) {} // For testing. Should go.
+
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
@@ -141,9 +146,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From c500b278bb6998f27cf349f51ee169f732435b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 48/54] fix: classes whose destructor releases their arrays
 cannot be copied

---
 include/matrix/blocks.h | 4 ++++
 include/matrix/coo.1.h  | 4 ++++
 include/matrix/dense.h  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..db1bc53 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -43,6 +43,10 @@ struct BlockCsrSerial : public BlockBase<T,IT>
         assert(row_ptr[M] == nnz);
     }
 
+    // Owns its arrays
+    BlockCsrSerial(BlockCsrSerial const&) = delete;
+    BlockCsrSerial& operator=(BlockCsrSerial const&) = delete;
+
     ~BlockCsrSerial()
     {
         delete [] row_ptr;
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index af1dec3..10e6f86 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -32,6 +32,10 @@ struct Coo : public BlockBase<T,IT>
 
     Coo() : I(nullptr), J(nullptr), val(nullptr) {}    // We need this
 
+    // Owns its arrays
+    Coo(Coo const&) = delete;
+    Coo& operator=(Coo const&) = delete;
+
     ~Coo()
     {
         delete [] I;
diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index f9386de..218b4d1 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -35,6 +35,10 @@ struct DenseSerial : public BlockBase<T,IT>
 
     DenseSerial() : val(nullptr) {} // For testing. Should go.
 
+    // Owns its arrays
+    DenseSerial(DenseSerial const&) = delete;
+    DenseSerial& operator=(DenseSerial const&) = delete;
+
     ~DenseSerial()
     {
         delete [] val;
-- 
2.43.0


From eb3d7cd2b4fb8d6804e4b32f3ef7afd119bf20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:41 +0000
Subject: [PATCH 49/54] fix: mm_read_unsymmetric_sparse: release the text of an
 unsupported type

---
 dep/mm_io/mm_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 36774cc..cd5888b 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -517,9 +517,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if ( !(mm_is_real(matcode) && mm_is_matrix(matcode) &&
             mm_is_sparse(matcode)))
     {
+        char * type = mm_typecode_to_str(matcode);
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        fprintf(stderr, "Market Market type: [%s]\n", type);
+        free(type);
         fclose(f);
         return -1;
     }
-- 
2.43.0


From 16320285814b782ce287465cc78d783307089225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 50/54] fix: print_timing: define the functions that common.h
 declares

---
 src/common.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index ebee359..bcf47e1 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -31,13 +31,13 @@ static float mflops (unsigned long nnz, float t)
     return 2.0 * nnz / (t * 1000000.0);
 }
 
-void print_timing (char const *mode, unsigned long nnz, float t)
+void print_timing (char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s : %.6f\n", mode, t);
     printf("MFLOP/s        %s : %.0f\n", mode, mflops(nnz, t));
 }
 
-void print_timing (char const *method, char const *mode, unsigned long nnz, float t)
+void print_timing (char const *method, char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s (%s): %.6f\n", method, mode, t);
     printf("MFLOP/s        %s (%s): %.0f\n", method, mode, mflops(nnz, t));
-- 
2.43.0


From f68f418d833956268c4aa69472de771e174355ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 51/54] fix: RT_SET_WORKERS: use the OpenMP call that exists

---
 include/rt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rt.h b/include/rt.h
index a11494d..e0c766e 100644
--- a/include/rt.h
+++ b/include/rt.h
@@ -7,6 +7,6 @@
 
 #define RT_WORKERS omp_get_max_threads()
 
-#define RT_SET_WORKERS(n) omp_set_num_workers(n)
+#define RT_SET_WORKERS(n) omp_set_num_threads(n)
 
 #endif
-- 
2.43.0


From 0848fd6771297ae1ad0eccaba42f0cd94a8f0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:56 +0000
Subject: [PATCH 52/54] fix: BlockCoo::set_value: store into the array, not the
 parameter of the same name

---
 include/matrix/block_coo.1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..97216e9 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -24,7 +24,7 @@ struct BlockCoo
     // Setters
     void set_row_index(IT index, IT row) { I[index] = row; }
     void set_column_index(IT index, IT column) { J[index] = column; }
-    void set_value(IT index, T val) { val[index] = val; }
+    void set_value(IT index, T value) { val[index] = value; }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
-- 
2.43.0


From dccde87c5ef2dda6fe29eef6b1a58454536eea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 53/54] fix: the number of entries of default-constructed
 blocks and converted dense matrices was never set

---
 include/generic/base.h |  2 +-
 include/matrix/dense.h | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/generic/base.h b/include/generic/base.h
index f14b390..88e5570 100644
--- a/include/generic/base.h
+++ b/include/generic/base.h
@@ -8,7 +8,7 @@ template <typename T, typename IT>
 class BlockBase
 {
     protected:
-        BlockBase() {}
+        BlockBase() : nnz(0) {}
         BlockBase(IT _nnz) : nnz(_nnz) {}
     public:
         virtual ~BlockBase() {}
diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 218b4d1..3adaa43 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -99,6 +99,15 @@ struct BlockDense
 
 /* ------------------ Constructors begin ------------------ */
 
+/*
+ * Keep the number of entries where the structure has a place for it
+ */
+template <class T, class IT>
+inline void set_nonzeros(DenseSerial<T,IT> * A, IT nnz) { A->nnz = nnz; }
+
+template <class T, class IT>
+inline void set_nonzeros(BlockDense<T,IT> *, IT) {}
+
 /*
  * Construct a Dense matrix from an array of type NONZERO. Type NONZERO must
  * have a 'row', 'col' and 'val' field.
@@ -114,6 +123,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     assert(N >= rows);
 
     allocate(A, rows, columns);
+    set_nonzeros(A, nnz);
 
     for (IT i=0; i<nnz; i++)
     {
-- 
2.43.0


From c0117ab6eb761585e37d43697626442f8b6e199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:17 +0000
Subject: [PATCH 54/54] fix: BlockCoo: the limit of 32-bit local indices was
 computed by shifting an int by 32 bits

---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index 97216e9..eafde9f 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT) 1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..986b951 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT) 1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0

