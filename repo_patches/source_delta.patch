From 36737de1a24b81c45909cbfc9f4c531af8ae2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 01/48] fix: complemented heap aborts on rows whose mask row is
 empty

Under a complement mask an empty mask row allows every column; the asserts
copied from the plain-mask variant stop the program on it.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From ca9f923354b02200df8f8693660041365a93814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 02/48] fix: data race on the row pointers of C for threads
 without rows

A thread whose row range is empty read rowptr[rowBeginIdx], which another
thread is writing in setRowOffsets at the same time.
---
 spgemm-blocks/common.h                  | 2 ++
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 spgemm-blocks/masked-spgemm-inner.h     | 6 ++++--
 spgemm-blocks/masked-spgemm.h           | 6 ++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..462bb36 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,8 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // C.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+    if (threadNvals == 0) { return; }
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..5bff884 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -178,8 +178,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // C.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[nvalsOffset];
+        NT *currValue = &C.values[nvalsOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..79fc3f3 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -123,8 +123,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // C.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[nvalsOffset];
+        NT *currValue = &C.values[nvalsOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..51ad5ab 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -165,8 +165,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // R.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[nvalsOffset];
+        NT *currValue = &R.values[nvalsOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From ac8adedd826ffbb3059338f0f6debe5bed0c0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 03/48] fix: two-phase inner product frees an operand that is
 also the output

The output was initialised between the symbolic and the numeric phase, so with
C == A or C == M the numeric phase read freed memory. Build the result in a
separate matrix as the row-based two-phase product does.
---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 26 +++++++++++++++++++------
 spgemm-blocks/masked-spgemm-inner.h     | 26 +++++++++++++++++++------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 5bff884..83e2f08 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -109,6 +109,8 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 template<class IT, class NT, class MultiplyOperation, class AddOperation>
 void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
+    CSR<IT, NT> R; // C may be the same object as A or M, which the numeric phase still reads
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -172,16 +174,16 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        // C.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
-        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? C.rowptr[rowBeginIdx] : 0;
-        IT *currColId = &C.colids[nvalsOffset];
-        NT *currValue = &C.values[nvalsOffset];
+        // R.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[nvalsOffset];
+        NT *currValue = &R.values[nvalsOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -228,6 +230,18 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 79fc3f3..6c700a9 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -76,6 +76,8 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    CSR<IT, NT> R; // C may be the same object as A or M, which the numeric phase still reads
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -117,16 +119,16 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        // C.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
-        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? C.rowptr[rowBeginIdx] : 0;
-        IT *currColId = &C.colids[nvalsOffset];
-        NT *currValue = &C.values[nvalsOffset];
+        // R.rowptr[rowBeginIdx] belongs to another thread if this one has no rows
+        const IT nvalsOffset = threadsNvals[thisThread] != 0 ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[nvalsOffset];
+        NT *currValue = &R.values[nvalsOffset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -140,6 +142,18 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From 6dc9496d720d90b02b6f6200bf57e8a51c1e9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 04/48] fix: poly-algorithm product never stores the row sizes
 it computed

---
 spgemm-blocks/masked-spgemm-poly.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..203e622 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -72,11 +72,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
-- 
2.43.0


From ea330d08d30149129fdbca65620b5dea7b7049ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:40 +0000
Subject: [PATCH 05/48] fix: prefix sums race on the first element and write
 past empty arrays

With more threads than elements every thread wrote dst[0]; with no elements
dst[0] lies outside the array.
---
 spgemm-blocks/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..38f6903 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,7 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; } // fewer elements than threads
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -35,6 +36,7 @@ template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = src[0];
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i];
@@ -71,6 +73,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; } // fewer elements than threads
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -81,6 +84,7 @@ template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = 0;
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i - 1];
-- 
2.43.0


From b55e648f956ba4334bc4690ff91200666d831a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 06/48] fix: parallel scan reads one element past its input

Row pointer scans pass N + 1 outputs for N inputs; the last thread read in[N].
Also let one thread set the thread count instead of all of them at once.
---
 utility.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..08fea03 100644
--- a/utility.h
+++ b/utility.h
@@ -183,6 +183,7 @@ template <typename T> void scan(T *in, T *out, T N) {
   } else {
     int tnum = 1;
 #pragma omp parallel
+#pragma omp single
     { tnum = omp_get_num_threads(); }
     T each_n = N / tnum;
     T *partial_sum = my_malloc<T>(tnum);
@@ -197,7 +198,9 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i + 1] = out[i] + in[i];
       }
       // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // (the last thread's is not needed; in[] may end one element earlier)
+      if (tid < tnum - 1)
+        partial_sum[tid] = out[end - 1] + in[end - 1];
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 426c1457f908212ab3acad654e68d111cec91de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 07/48] fix: CSR assignment allocates the row pointers by the
 number of columns

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index a2285b9..0e1a593 100644
--- a/CSR.h
+++ b/CSR.h
@@ -154,7 +154,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From 48dc56a13b630243536de7bc799f76e3ec17a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 08/48] fix: emptied CSR matrix keeps its one-based flag, which
 then describes the next contents

---
 CSR.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.h b/CSR.h
index 0e1a593..69fb31d 100644
--- a/CSR.h
+++ b/CSR.h
@@ -63,6 +63,7 @@ public:
       rows = 0;
     }
     cols = 0;
+    zerobased = true;
   }
 
   ~CSR() { make_empty(); }
-- 
2.43.0


From 6c94c93dcfccec356daa24d85acbf9c8408c1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 09/48] fix: comparing two empty matrices reads their
 unallocated pointers

---
 CSC.h | 2 ++
 CSR.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CSC.h b/CSC.h
index 466ae0f..94c7510 100644
--- a/CSC.h
+++ b/CSC.h
@@ -544,6 +544,8 @@ template <class IT, class NT>
 bool CSC<IT, NT>::operator==(const CSC<IT, NT> &rhs) {
   if (nnz != rhs.nnz || rows != rhs.rows || cols != rhs.cols)
     return false;
+  if (cols == 0) // no column pointers to compare
+    return true;
   bool same = std::equal(colptr, colptr + cols + 1, rhs.colptr);
   same = same && std::equal(rowids, rowids + nnz, rhs.rowids);
 
diff --git a/CSR.h b/CSR.h
index 69fb31d..f52c728 100644
--- a/CSR.h
+++ b/CSR.h
@@ -474,6 +474,8 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
            rhs.cols);
     return false;
   }
+  if (rows == 0) // no row pointers to compare
+    return true;
   if (zerobased != rhs.zerobased) {
     IT *tmp_rowptr = my_malloc<IT>(rows + 1);
     IT *tmp_colids = my_malloc<IT>(nnz);
-- 
2.43.0


From 9d87d35ac72bb0c52ef1ce8aca762b2896103c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 10/48] fix: MergeDuplicates indexes vectors it never sized

---
 CSC.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index 94c7510..50e3b7e 100644
--- a/CSC.h
+++ b/CSC.h
@@ -377,8 +377,11 @@ void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  if (nnz == 0) // nothing to merge
+    return;
+
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
-- 
2.43.0


From 0ec1f135caea98c31d25a6cb43b3fe49e329e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 11/48] fix: csr2csc_atomic_nosort reads and writes one column
 past its arrays

---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 2f08f05fb4880b8c768590a221a158190898fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 12/48] fix: CSR::sumall accumulates the values in the index
 type

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index f52c728..07a2db5 100644
--- a/CSR.h
+++ b/CSR.h
@@ -91,7 +91,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From c6a2c92cbce82cdee92bb382b9b69d89cabfdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 13/48] fix: SpRef variants return row ids outside the result
 and overrun their buffers

---
 CSC.h | 72 +++++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/CSC.h b/CSC.h
index 50e3b7e..d8e2839 100644
--- a/CSC.h
+++ b/CSC.h
@@ -660,11 +660,11 @@ CSC<IT, NT>::get_grb_mat
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
                                 const IT cilen) {
-  if (cilen > 0 && ci[cilen - 1] > cols) {
+  if (cilen > 0 && ci[cilen - 1] >= cols) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if (rilen > 0 && ri[rilen - 1] > rows) {
+  if (rilen > 0 && ri[rilen - 1] >= rows) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -679,7 +679,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   // NT* values_out = new NT[nnz_ci];
   // IT* len_out = new IT[cilen];
   IT *rowids_out = my_malloc<IT>(nnz_ci);
-  IT *values_out = my_malloc<NT>(nnz_ci);
+  NT *values_out = my_malloc<NT>(nnz_ci);
   IT *len_out = my_malloc<IT>(cilen);
 
   IT idx = 0;
@@ -687,8 +687,9 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
     IT cidx1 = colptr[ci[i]];
     IT cidx2 = colptr[ci[i] + 1];
 
-    intersect(&rowids[cidx1], &values[cidx1], cidx2 - cidx1, ri, rilen,
-              &rowids_out[cidx1], &values_out[cidx1], &len_out[i]);
+    intersect(rowids + cidx1, values + cidx1, cidx2 - cidx1, ri, rilen,
+              rowids_out + idx, values_out + idx, &len_out[i]);
+    idx += cidx2 - cidx1;
   }
 
   CSC C;
@@ -707,13 +708,19 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   C.rowids = my_malloc<IT>(C.nnz);
   C.values = my_malloc<NT>(C.nnz);
 
+  idx = 0;
   for (int i = 0; i < C.cols; ++i) // combine step
   {
-    IT cidx1 = colptr[ci[i]];
-    IT cidx2 = cidx1 + len_out[i];
-    copy(&rowids_out[cidx1], &rowids_out[cidx2], C.rowids + C.colptr[i]);
-    copy(&values_out[cidx1], &values_out[cidx2], C.values + C.colptr[i]);
-  }
+    for (IT k = 0; k < len_out[i]; ++k) // rows of C are positions in ri
+      C.rowids[C.colptr[i] + k] =
+          std::lower_bound(ri, ri + rilen, rowids_out[idx + k]) - ri;
+    copy(values_out + idx, values_out + idx + len_out[i],
+         C.values + C.colptr[i]);
+    idx += colptr[ci[i] + 1] - colptr[ci[i]];
+  }
+  my_free(rowids_out);
+  my_free(values_out);
+  my_free(len_out);
   return C;
 }
 
@@ -727,11 +734,11 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -760,7 +767,15 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.nnz = refnnz; // might be 0
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  if (refnnz > 0) {
+    refmat.rowids = my_malloc<IT>(refnnz);
+    refmat.values = my_malloc<NT>(refnnz);
+  }
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
@@ -774,7 +789,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
       else //(ri[k]==rowids[j])
       {
         refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        refmat.rowids[idx++] = k; // row of the result, i.e. position in ri
         k++;
         // j++; // wait for the next iteration of the inner loop to alow reapted
         // rows
@@ -796,16 +811,16 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
 
-  BitMap bmap(ri.size()); // space requirement n bits
+  BitMap bmap(rows); // space requirement n bits
   bmap.reset();           // this is time consuming .....
   for (int i = 0; i < ri.size(); i++) {
     bmap.set_bit(ri[i]);
@@ -816,22 +831,35 @@ CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
-      if (bmap.get_bit(rowids[j]))
-        refnnz++;
+      if (bmap.get_bit(rowids[j])) {
+        auto range = std::equal_range(ri.begin(), ri.end(), rowids[j]);
+        refnnz += range.second - range.first;
+      }
     }
   }
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.nnz = refnnz; // might be 0
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  if (refnnz > 0) {
+    refmat.rowids = my_malloc<IT>(refnnz);
+    refmat.values = my_malloc<NT>(refnnz);
+  }
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
       if (bmap.get_bit(rowids[j])) {
-        refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        auto range = std::equal_range(ri.begin(), ri.end(), rowids[j]);
+        for (auto it = range.first; it != range.second; ++it) {
+          refmat.values[idx] = values[j];
+          refmat.rowids[idx++] = it - ri.begin(); // row of the result
+        }
       }
     }
     refmat.colptr[i + 1] = idx;
-- 
2.43.0


From 532a87cbcdc1a585cc1e78d7bf3e79845912d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 14/48] fix: BitMap::set_bit_atomic loses bits set concurrently
 in one word

---
 BitMap.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/BitMap.h b/BitMap.h
index 1ded809..a8c9fbc 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -87,13 +87,7 @@ class BitMap {
 
   inline
   void set_bit_atomic(long pos) {
-    set_bit(pos);
-    // uint64_t old_val, new_val;
-    // uint64_t *loc = start + WORD_OFFSET(pos);
-    // do {
-    //   old_val = *loc;
-    //   new_val = old_val | ((uint64_t) 1l<<BIT_OFFSET(pos));
-    // } while(!__sync_bool_compare_and_swap(loc, old_val, new_val));
+    __sync_fetch_and_or(start + WORD_OFFSET(pos), ((uint64_t) 1l<<BIT_OFFSET(pos)));
   }
 
   inline
-- 
2.43.0


From 045169218f0b0f749caf871580693d3eb009f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 15/48] fix: BitMap::get_next_bit drops the upper half of
 positions above 2^32

---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index a8c9fbc..9ff56f4 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -111,7 +111,7 @@ class BitMap {
       temp = 0;
     }
     if (!temp) {
-      next = (next & 0xffffffc0);
+      next = (next & ~((uint64_t) 0x3f));
       while (!temp) {
         it++;
         if (it >= end)
-- 
2.43.0


From 6384ea677889e1f042f5a1494a523dff906190f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 16/48] fix: SplitTuples divides the rows of a CSR by its
 columns and mixes rows of the last piece

---
 SplitTuples.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SplitTuples.h b/SplitTuples.h
index e36029e..4e1d6cc 100644
--- a/SplitTuples.h
+++ b/SplitTuples.h
@@ -39,7 +39,7 @@ SplitTuples<IT,NT>::SplitTuples(CSC<IT, NT> & A, int numsplits)
     splits = numsplits;
     splitTuples.resize(numsplits);
 
-    IT perpiece = A.rows / splits;
+    IT perpiece = std::max(static_cast<IT>(A.rows / splits), static_cast<IT>(1));
     for (IT i=0; i < A.cols; ++i)
     {
         for (IT j = A.colptr[i]; j < A.colptr[i+1]; ++j)
@@ -60,14 +60,14 @@ SplitTuples<IT,NT>::SplitTuples(CSR<IT, NT> & A, int numsplits)
     splits = numsplits;
     splitTuples.resize(numsplits);
 
-    IT perpiece = A.cols / splits;
+    IT perpiece = std::max(static_cast<IT>(A.rows / splits), static_cast<IT>(1));
     for (IT i=0; i < A.rows; ++i)
     {
         IT owner = std::min(i / perpiece, static_cast<IT>(numsplits-1));
         for (IT j = A.rowptr[i]; j < A.rowptr[i+1]; ++j)
         {
             IT colid = A.colids[j];
-            splitTuples[owner].push_back(std::make_tuple(i % perpiece, colid, A.values[j]));
+            splitTuples[owner].push_back(std::make_tuple(i - owner * perpiece, colid, A.values[j]));
         }
     }
 }
-- 
2.43.0


From accf34d41cc46bf02594544c69e42db1178d111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 17/48] fix: removeDuplicates counts one entry in an empty list

---
 util/triple-util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..24e5f6f 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -12,6 +12,8 @@ IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
     });
 
+    if (numValues == 0) { return 0; }
+
     IT dst = 1;
     for (IT src = 1; src < numValues; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
-- 
2.43.0


From f63496a0e84f5ddd047e4fa91b3de21b5c392fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 18/48] fix: MCA row algorithms of HeapSpGEMM read B's column
 ids, accept empty mask rows and reserve whole mask rows

---
 heap_mult_generic.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..2e77967 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -480,7 +480,8 @@ struct MCABase {
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
         IT size = 0;
         for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
+            // values are accumulated at the position of the mask entry
+            size += M.rowptr[row + 1] - M.rowptr[row];
         }
         return size;
     }
@@ -513,6 +514,11 @@ struct MCA_v1 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
@@ -522,10 +528,10 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
 
+            IT key = B.colids[loc];
+
             IT maskIdx = maskBegin;
 
             // Find the intersection between the mask's row and the A's row
@@ -584,6 +590,11 @@ struct MCA_v2 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         // Since prev***C point to the previous element, increment them
         prevColIdC++;
         prevValueC++;
@@ -594,10 +605,10 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
 
+            IT key = B.colids[loc];
+
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
                 while (key < M.colids[maskIdx]) {
@@ -655,6 +666,11 @@ struct MCA_v3 : MCABase {
         const auto maskEnd = &M.colids[M.rowptr[i + 1]];
         const auto maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
-- 
2.43.0


From d35e14d560dda5125edf7fb3d3b963e1e83404ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 19/48] fix: HeapSpGEMM threads without rows no longer read row
 pointers other threads are writing

---
 heap_mult_generic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 2e77967..fb777e6 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -808,6 +808,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 
         // set rowptr in C for local rows
+        const IT localBegin = rowPtrOffset;
         for (IT i = rowBegin; i < rowEnd; ++i) {
             C.rowptr[i] = rowPtrOffset;
             rowPtrOffset += rowNvals[i];
@@ -815,8 +816,8 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         if (thisThread == numThreads - 1) { C.rowptr[C.rows] = rowPtrOffset; }
 
         // copy local values to C
-        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
-        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + localBegin);
+        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + localBegin);
 
         my_free<IT>(colIdsLocalMem);
         my_free<NT>(valuesLocalMem);
-- 
2.43.0


From ca95e96f238a1ac20b4c8cb5be92aefcf911e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 20/48] fix: HeapSpGEMM releases all its buffers and accepts
 operands without rows

---
 heap_mult_generic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index fb777e6..e57af0f 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -743,7 +743,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         numThreads = omp_get_num_threads();
     }
 
-    if (!C.isEmpty()) { C.make_empty(); }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
@@ -753,7 +753,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     IT flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
 
-    IT *rowStart = my_malloc<IT>(A.rows); //start index in the global array for storing ith column of C
+    IT *rowStart = my_malloc<IT>(A.rows + 1); //start index in the global array for storing ith column of C
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
     rowStart[0] = 0;
@@ -826,6 +826,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     my_free<IT>(maxnnzc);
     my_free<IT>(rowStart);
     my_free<IT>(rowNvals);
+    my_free<IT>(threadsNvals);
 }
 
 template<class RowAlgorithm, typename IT, typename NT, typename MultiplyOperation, typename AddOperation>
-- 
2.43.0


From 48be9c30fbacfbcee2f6d39806e627cd7b9d1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 21/48] fix: innerSpGEMM_nohash no longer bins rows through B's
 column pointers (out of bounds, and the bins are unused)

---
 inner_mult.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..44cb2dd 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -70,12 +70,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         C.values[i] = 0;
     }
     
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
-- 
2.43.0


From 3b8492f2fa5d6b6b9ca5c458c2c532b2fedebc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 22/48] fix: innerSpGEMM_nohash sums only real products and
 discards the previous contents of the output

---
 inner_mult.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inner_mult.h b/inner_mult.h
index 44cb2dd..7ee41c3 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -116,7 +116,8 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
                     else if(A.colids[nnz_r] > B.rowids[nnz_c])
                         nnz_c++;
                     else { //A.colids[nnz_r] == B.rowids[nnz_c];
-                        t_val = addop(t_val, multop(A.values[nnz_r], B.values[nnz_c]));
+                        NT prod = multop(A.values[nnz_r], B.values[nnz_c]);
+                        t_val = active ? addop(t_val, prod) : prod;
                         nnz_r++, 
                         nnz_c++;
                         active = true;
@@ -137,6 +138,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     //shrink C
 
     //* sequentially create global rowptr for final shrinked C*
+    C_final.make_empty();
     for (IT i = 0; i < C.rows; ++i)
          C_final.nnz += rownnz[i];
     
-- 
2.43.0


From 68b2addf8b1eb4da543299f4a1b1a3a881192c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 23/48] fix: thread count is stored by one thread only (data
 race in three multipliers)

---
 heap_mult.h      | 1 +
 inner_mult.h     | 1 +
 mask_hash_mult.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/heap_mult.h b/heap_mult.h
index a4ca9ee..eb5f0d2 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -49,6 +49,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     int numThreads;
 #pragma omp parallel
     {
+#pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/inner_mult.h b/inner_mult.h
index 7ee41c3..5288259 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -73,6 +73,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 773aa75..f64845c 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -50,6 +50,7 @@ mxm_hash_mask
     int numThreads; 
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
-- 
2.43.0


From a686c1638e08b1e8ce8f4a83d2fe90e711199ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 24/48] fix: column heap product accepts right operands without
 columns

---
 heap_mult.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/heap_mult.h b/heap_mult.h
index eb5f0d2..b86cae3 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -60,8 +60,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     IT flopsPerThread = flops/numThreads; // amount of work that will be assigned to each thread
 
     IT *colPerThread = my_malloc<IT>(numThreads + 1); //thread i will process columns from colPerThread[i] to colPerThread[i+1]-1
-    IT *colStart = my_malloc<IT>(B.cols); //start index in the global array for storing ith column of C
-    IT *colEnd = my_malloc<IT>(B.cols); //end index in the global array for storing ith column of C
+    IT *colStart = my_malloc<IT>(B.cols + 1); //start index in the global array for storing ith column of C
+    IT *colEnd = my_malloc<IT>(B.cols + 1); //end index in the global array for storing ith column of C
 
     colStart[0] = 0;
     colEnd[0] = 0;
@@ -86,7 +86,6 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     colPerThread[numThreads] = B.cols;
 
     // *************** Creating global space to store result, used by all threads *********************
-    IT size = colEnd[B.cols-1] + maxnnzc[B.cols-1];
     IT **LocalRowIdsofC = my_malloc<IT*>(numThreads);
     NT **LocalValuesofC = my_malloc<NT*>(numThreads);
 #pragma omp parallel
-- 
2.43.0


From 8c1545d660818d1b9c9eebaef7c342c31f2a3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 25/48] fix: BIN::create_global_hash_table writes its offsets
 to allocated memory, released with the bin

---
 BIN.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/BIN.h b/BIN.h
index 0c3b376..837a95d 100644
--- a/BIN.h
+++ b/BIN.h
@@ -58,6 +58,9 @@ public:
         }
         my_free<IT*>(local_hash_table_id);
         my_free<NT*>(local_hash_table_val);
+        my_free<IT>(hash_table_id);
+        my_free<NT>(hash_table_val);
+        my_free<IT>(hash_table_ptr);
     }
 
     void set_intprod_num(const IT *arpt, const IT *acol, const IT *brpt, const IT rows);
@@ -79,9 +82,9 @@ public:
     char *bin_id;
     IT **local_hash_table_id;
     NT **local_hash_table_val;
-    IT *hash_table_id;
-    NT *hash_table_val;
-    IT *hash_table_ptr;
+    IT *hash_table_id = NULL;
+    NT *hash_table_val = NULL;
+    IT *hash_table_ptr = NULL;
 };
 
 template <class IT, class NT>
@@ -157,6 +160,7 @@ template <class IT, class NT>
 inline void BIN<IT, NT>::create_global_hash_table(const IT cols)
 {
     IT *hash_table_size = my_malloc<IT>(thread_num);
+    hash_table_ptr = my_malloc<IT>(thread_num + 1);
 #pragma omp parallel num_threads(thread_num)
     {
         int tid = omp_get_thread_num();
-- 
2.43.0


From 7086d418316400023f5b66f336f7ad12d9f404f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 26/48] fix: outer_mult2 divides the columns of A among
 threads, not its rows (out of bounds and lost products when A is not square)

---
 outer_mult2.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/outer_mult2.h b/outer_mult2.h
index d4aec84..5280443 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -54,7 +54,7 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
 
     IT cur_blocker_id = 0;
     IT cur_thread_id = 0;
-    IT *flops_by_iters = my_malloc<IT>(A.rows);
+    IT *flops_by_iters = my_malloc<IT>(A.cols);
 
 // #pragma omp parallel
 {
@@ -83,7 +83,6 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
     for (IT i=0; i<A.rows; ++i)
     {
         cur_blocker_volumn += flops_by_rows[i];
-        cur_thread_volumn += flops_by_iters[i];
         flops_by_row_blockers[cur_blocker_id] = cur_blocker_volumn;
         blocker_row_count[cur_blocker_id] ++;
         rows_to_blockers[i] = cur_blocker_id;
@@ -92,6 +91,11 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_blocker_id ++;
             cur_blocker_volumn = 0;
         }
+    }
+    // the outer loop of the product runs over the columns of A
+    for (IT i=0; i<A.cols; ++i)
+    {
+        cur_thread_volumn += flops_by_iters[i];
         if(cur_thread_volumn > avg_thread_volumn)
         {
             thread_rows_offset[cur_thread_id] = i;
@@ -99,7 +103,9 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_thread_volumn = 0;
         }
     }
-    thread_rows_offset[cur_thread_id] = A.rows;
+    thread_rows_offset[cur_thread_id] = A.cols;
+    my_free<IT>(flops_by_iters);
+    my_free<IT>(blocker_row_count);
     // for (IT i = 0 ; i< num_blockers; ++i)
     //     cout << "BlockerId = " << i << " nrows = " << blocker_row_count[i] << endl;
 }
-- 
2.43.0


From 55db445a26eb9f7944cd192d93374e3a2c6985fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 27/48] fix: outer products allocate with malloc what is
 released with free, and release all of it

---
 outer_mult.h  | 16 ++++++++++------
 outer_mult2.h | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..1fcf0c1 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -235,7 +235,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT *nnz_per_row_blocker = my_malloc<IT>(num_blockers);
 	do_static_symbolic(A, B, 0, A.cols, nrows_per_blocker, num_blockers, flops_by_row_blockers, total_flop);
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = static_cast<TripleNode*>(malloc(SIZE * flops_by_row_blockers[blocker_id]));
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // uint64_t avg_flops_in_row_blockers = 0;
@@ -249,9 +249,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = static_cast<TripleNode*>(malloc(SIZE * num_blockers * block_width));
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = static_cast<TripleNode*>(malloc(SIZE * max_flops_in_row_blockers));
 // computing phase
 #pragma omp for nowait
         for (IT idx = startIdx; idx < endIdx; ++idx)
@@ -344,9 +344,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(malloc(sizeof(IT[total_nnz])));
+    C.rowptr = static_cast<IT*>(malloc(sizeof(IT[C.rows+1])));
+    C.values = static_cast<NT*>(malloc(sizeof(NT[total_nnz])));
 
     C.rowptr[0] = 0;
 
@@ -383,10 +383,14 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     for (uint16_t thread_id=0; thread_id<nthreads; ++thread_id)
     {
         my_free<TripleNode>(local_blockers[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
     }
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
+    my_free<TripleNode*>(sorting_buffer);
+    my_free<IT>(global_blocker_counters);
+    my_free<IT>(flops_by_rows);
 }
 
 template <typename IT, typename NT>
diff --git a/outer_mult2.h b/outer_mult2.h
index 5280443..eacc93b 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -229,7 +229,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT* flops_by_rows = my_malloc<IT>(A.rows);
     IT* nnz_by_row = my_malloc<IT>(A.rows);
     IT *thread_rows_offset = my_malloc<IT>(nthreads+1);
-    rows_to_blockers = static_cast<IT*>(::operator new(sizeof(IT) * A.rows));
+    rows_to_blockers = static_cast<IT*>(malloc(sizeof(IT) * A.rows));
     do_symbolic(A, B, 0, A.cols, num_blockers, flops_by_rows, rows_to_blockers, thread_rows_offset, flops_by_row_blockers, total_flop, nthreads);
 
     IT *global_blocker_counters = my_malloc<IT>(num_blockers);
@@ -241,7 +241,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
 
 #pragma omp parallel for
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = static_cast<TripleNode*>(malloc(SIZE * flops_by_row_blockers[blocker_id]));
 
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
@@ -254,13 +254,13 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     // cout << "avg_flops_in_row_blockers = " << avg_flops_in_row_blockers / num_blockers << "   max_flops_in_row_blockers = " << max_flops_in_row_blockers << "    min_flops_in_row_blockers = " << min_flops_in_row_blockers << endl;
 #pragma omp parallel for
     for (uint16_t thread_id=0; thread_id<nthreads; ++thread_id)
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = static_cast<TripleNode*>(malloc(SIZE * max_flops_in_row_blockers));
 
 #pragma omp parallel
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = static_cast<TripleNode*>(malloc(SIZE * num_blockers * block_width));
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
         IT first_row = thread_rows_offset[thread_id];
         IT last_row = thread_rows_offset[thread_id+1];
@@ -350,9 +350,9 @@ double t1 = omp_get_wtime();
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(malloc(sizeof(IT[total_nnz])));
+    C.rowptr = static_cast<IT*>(malloc(sizeof(IT[C.rows+1])));
+    C.values = static_cast<NT*>(malloc(sizeof(NT[total_nnz])));
 
     C.rowptr[0] = 0;
 
@@ -389,10 +389,16 @@ double t1 = omp_get_wtime();
     for (uint16_t thread_id=0; thread_id<nthreads; ++thread_id)
     {
         my_free<TripleNode>(local_blockers[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
     }
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
+    my_free<TripleNode*>(sorting_buffer);
+    my_free<IT>(global_blocker_counters);
+    my_free<IT>(flops_by_rows);
+    my_free<IT>(thread_rows_offset);
+    my_free<IT>(rows_to_blockers);
 }
 
 
-- 
2.43.0


From 196df8f3ccd067611571175269086bcc0f9d00fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 28/48] fix: outer_mult2 maps rows of an empty operand in
 memory it has allocated

---
 outer_mult2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outer_mult2.h b/outer_mult2.h
index eacc93b..a0e4b49 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -229,7 +229,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT* flops_by_rows = my_malloc<IT>(A.rows);
     IT* nnz_by_row = my_malloc<IT>(A.rows);
     IT *thread_rows_offset = my_malloc<IT>(nthreads+1);
-    rows_to_blockers = static_cast<IT*>(malloc(sizeof(IT) * A.rows));
+    rows_to_blockers = static_cast<IT*>(malloc(sizeof(IT) * (A.rows + 1)));
     do_symbolic(A, B, 0, A.cols, num_blockers, flops_by_rows, rows_to_blockers, thread_rows_offset, flops_by_row_blockers, total_flop, nthreads);
 
     IT *global_blocker_counters = my_malloc<IT>(num_blockers);
-- 
2.43.0


From 0835b8fea73c8c2761274e745060e342789ccf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 29/48] fix: ReadBinary refuses truncated files and entries
 outside the matrix, and releases the matrix it copies from and the file

---
 IO.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/IO.h b/IO.h
index a296f9b..a22fd0f 100644
--- a/IO.h
+++ b/IO.h
@@ -18,13 +18,14 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
         return -1;
     }
     IT m,n,nnz;
-    fread(&m, sizeof(IT), 1, f);
-    fread(&n, sizeof(IT), 1, f);
-    fread(&nnz, sizeof(IT), 1, f);
+    size_t counts = fread(&m, sizeof(IT), 1, f);
+    counts += fread(&n, sizeof(IT), 1, f);
+    counts += fread(&nnz, sizeof(IT), 1, f);
     
-    if (m <= 0 || n <= 0 || nnz <= 0)
+    if (counts != 3 || m <= 0 || n <= 0 || nnz <= 0)
     {
         cerr << "Problem with matrix size in binary input file" << filename << endl;
+        fclose(f);
         return -1;
     }
     double start = omp_get_wtime( );
@@ -38,9 +39,16 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     size_t cols = fread(colindices, sizeof(IT), nnz, f);
     size_t nums = fread(vals, sizeof(NT), nnz, f);
     
-    if(rows != nnz || cols != nnz || nums != nnz)
+    bool valid = rows == nnz && cols == nnz && nums == nnz;
+    for (IT i = 0; valid && i < nnz; ++i)
+        valid = rowindices[i] >= 0 && rowindices[i] < m && colindices[i] >= 0 && colindices[i] < n;
+    if(!valid)
     {
         cerr << "Problem with FREAD, aborting... " << endl;
+        delete [] rowindices;
+        delete [] colindices;
+        delete [] vals;
+        fclose(f);
         return -1;
     }
     double end = omp_get_wtime( );
@@ -49,7 +57,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
 
     fclose(f);
     
-    csc = *(new CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n));
+    csc = CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n);
     
     delete [] rowindices;
     delete [] colindices;
-- 
2.43.0


From 01fed06a374a94613de42c6e4d90d246b1e45caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 30/48] fix: text matrix readers accept lines of any length and
 any separators, keep fractional values, and refuse malformed files instead of
 reading past them

---
 IO.h | 152 ++++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 87 insertions(+), 65 deletions(-)

diff --git a/IO.h b/IO.h
index a22fd0f..3780be3 100644
--- a/IO.h
+++ b/IO.h
@@ -4,6 +4,7 @@
 #include "Triple.h"
 #include "CSC.h"
 #include <fstream>
+#include <limits>
 #include <sstream>
 
 #define READBUFFER (512 * 1024 * 1024)  // in MB
@@ -65,29 +66,73 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     return 1;
 }
 
+// Reads the comments and the size line of a matrix market file.
+// Returns false if there is no line with three nonnegative counts.
+template <typename IT>
+bool ReadASCIIHeader(ifstream & infile, bool & isSymmetric, IT & m, IT & n, IT & nnz)
+{
+    isSymmetric = false;
+    string line;
+    while (getline(infile, line))
+    {
+        if (line[0] == '%')
+        {
+            if (line.compare(0, 14, "%%MatrixMarket") == 0 && line.find("symmetric") != string::npos) {
+                isSymmetric = true;
+                cout << "Matrix is symmetric" << endl;
+            }
+            continue;
+        }
+        std::stringstream ss{line};
+        long long dims[3];
+        if (!(ss >> dims[0] >> dims[1] >> dims[2]))
+            return false;
+        m = (IT) dims[0];
+        n = (IT) dims[1];
+        nnz = (IT) dims[2];
+        for (long long d : dims)
+            if (d < 0 || (long long) (IT) d != d)
+                return false;
+        // both triangles of a symmetric matrix are stored
+        return !isSymmetric || (m == n && nnz <= std::numeric_limits<IT>::max() / 2);
+    }
+    return false;
+}
+
+// Reads the next entry of an m-by-n matrix: row, column (from 1) and an optional value.
+// Returns false if there is none, or if it does not fit in the matrix.
+template <typename IT, typename NT>
+bool ReadASCIIEntry(ifstream & infile, IT m, IT n, IT & row, IT & col, NT & val)
+{
+    string line;
+    if (!getline(infile, line))
+        return false;
+    const char *ch = line.c_str();
+    char *end;
+    long long r = strtoll(ch, &end, 10);
+    long long c = strtoll(end, &end, 10);
+    if (r < 1 || r > (long long) m || c < 1 || c > (long long) n)
+        return false;
+    row = (IT) r;
+    col = (IT) c;
+    ch = end;
+    double v = strtod(ch, &end);
+    val = end == ch ? (NT) 1.0 : (NT) v;
+    return true;
+}
+
 template <typename IT, typename NT>
 int ReadASCII(string filename, CSC<IT,NT> & csc)
 {
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    IT m,n,nnz;
+    if (!ReadASCIIHeader(infile, isSymmetric, m, n, nnz))
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
-            isSymmetric = true;
-            cout << "Matrix is symmetric" << endl;
-        }
-        c = infile.get();
+        cerr << "Problem reading the size of the matrix in " << filename << endl;
+        return -1;
     }
-    infile.unget();
-
-    infile.getline(line,256);
-    IT m,n,nnz;
-    std::stringstream ss{line};
-    ss >> m >> n >> nnz;
     
     if (isSymmetric) {
         nnz *= 2;
@@ -97,23 +142,13 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     if (infile.is_open())
     {
         IT cnz = 0;	// current number of nonzeros
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz)
         {
-            infile.getline(line,256);
-            char *ch = line;
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-            }
-            else {
-                triples[cnz].val = 1.0;
+            if (!ReadASCIIEntry(infile, m, n, triples[cnz].row, triples[cnz].col, triples[cnz].val))
+            {
+                cerr << "Problem reading entries of the matrix in " << filename << endl;
+                delete [] triples;
+                return -1;
             }
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
             triples[cnz].row--;
@@ -140,7 +175,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     std::cout << "Input Matrix: Rows = " << m << ", Columns= " << n << ", nnz = " << nnz << std::endl;
 
     cout << "Converting to csc ... " << endl << endl;
-    csc= *(new CSC<IT,NT>(triples, nnz, m, n));
+    csc = CSC<IT,NT>(triples, nnz, m, n);
     csc.totalcols = n;
     delete [] triples;
     return 1;
@@ -162,27 +197,16 @@ int ReadASCII_Triples(string	  filename,
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
-    {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
-            isSymmetric = true;
-            cout << "Matrix is symmetric" << endl;
-        }
-        c = infile.get();
-    }
-    infile.unget();
-
 	if (remove_diags)
 		cout << "will remove diagonals from the matrix" << endl;
 
-	IT m,n,nnz;
-	infile.getline(line,256);
-    std::stringstream ss{line};
-    ss >> m >> n >> nnz;
-	    
+    IT m,n,nnz;
+    if (!ReadASCIIHeader(infile, isSymmetric, m, n, nnz))
+    {
+        cerr << "Problem reading the size of the matrix in " << filename << endl;
+        return -1;
+    }
+
     if (isSymmetric) {
         nnz *= 2;
     }
@@ -193,22 +217,20 @@ int ReadASCII_Triples(string	  filename,
     if (infile.is_open())
     {
         IT cnz = 0;
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz)
         {
-            infile.getline(line,256);
-            char *ch = line;
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-			}
+            IT rid, cid;
+            NT val;
+            if (!ReadASCIIEntry(infile, m, n, rid, cid, val))
+            {
+                cerr << "Problem reading entries of the matrix in " << filename << endl;
+                delete [] rids;
+                delete [] cids;
+                delete [] vals;
+                rids = cids = NULL;
+                vals = NULL;
+                return -1;
+            }
 
 			if (rand_vals)
 				val = rand()%10 + 7;
-- 
2.43.0


From 852bad3fa93f22a74fcfcc2adf1819ae22c90f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 31/48] fix: CSR file constructor accepts lines of any length,
 ignores what comments say, and refuses counts and entries that do not match

---
 CSR.h | 60 +++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/CSR.h b/CSR.h
index 07a2db5..6559a6d 100644
--- a/CSR.h
+++ b/CSR.h
@@ -549,10 +549,11 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   NT *val_coo;
   IT *each_row_index;
   IT *nnz_num;
-  const int LINE_LENGTH_MAX = 256;
+  size_t line_length = 256;
+  long long dims[3];
 
   isUnsy = false;
-  line = (char *)malloc(sizeof(char) * LINE_LENGTH_MAX);
+  line = (char *)malloc(sizeof(char) * line_length);
 
   /* Open File */
   fp = fopen(filename.c_str(), "r");
@@ -560,40 +561,51 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
     exit(1);
   }
   do {
-    fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
+    if (getline(&line, &line_length, fp) == -1) {
+      cerr << "Problem reading the size of the matrix in " << filename << endl;
+      exit(1);
+    }
+    if (strncmp(line, "%%MatrixMarket", 14) == 0 && strstr(line, "general")) {
       isUnsy = true;
     }
   } while (line[0] == '%');
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  if (sscanf(line, "%lld %lld %lld", &dims[0], &dims[1], &dims[2]) != 3 ||
+      dims[0] < 0 || dims[1] < 0 || dims[2] < 0 ||
+      dims[0] != (IT)dims[0] || dims[1] != (IT)dims[1] ||
+      dims[2] != (IT)dims[2] || (!isUnsy && dims[0] != dims[1])) {
+    cerr << "Problem with matrix size in " << filename << endl;
+    exit(1);
+  }
+  rows = (IT)dims[0];
+  cols = (IT)dims[1];
+  tmp_nz = (IT)dims[2];
 
   /* Store in COO format */
-  num = 0;
   col_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
 
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
-    ch = line;
-    /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
-    /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
-      val_coo[num] = 1.0;
+  for (num = 0; num < tmp_nz; num++) {
+    long long row = 0, col = 0;
+    if (getline(&line, &line_length, fp) != -1) {
+      /* Read first word (row id)*/
+      row = strtoll(line, &ch, 10);
+      /* Read second word (column id)*/
+      col = strtoll(ch, &ch, 10);
+    }
+    if (row < 1 || row > (long long)rows || col < 1 || col > (long long)cols) {
+      cerr << "Problem reading entries of the matrix in " << filename << endl;
+      exit(1);
     }
-    num++;
+    row_coo[num] = (IT)(row - 1);
+    col_coo[num] = (IT)(col - 1);
+
+    /* Read third word (value data)*/
+    char *value_end;
+    double value = strtod(ch, &value_end);
+    val_coo[num] = value_end == ch ? (NT)1.0 : (NT)value;
   }
   fclose(fp);
 
-- 
2.43.0


From f5041f677bd061ab422ca46ec9f72c611952b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 32/48] fix: CSC::get_grb_mat gives the size of its column
 pointers, not of a row pointer

---
 CSC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSC.h b/CSC.h
index d8e2839..7db466e 100644
--- a/CSC.h
+++ b/CSC.h
@@ -632,7 +632,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
-- 
2.43.0


From 7ac3ef837175cf0cd79eef2377c2aff5a8f170fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 33/48] fix: CSR(GrB_Matrix*, bool) expands an iso-valued
 matrix, resets the handle of the matrix it consumes, and frees its descriptor

---
 CSR.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index 6559a6d..97090c0 100644
--- a/CSR.h
+++ b/CSR.h
@@ -433,7 +433,7 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
+	bool			is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
@@ -442,10 +442,14 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  NULL, &is_jumbled, // NULL: one value per entry even if iso
 						  desc); // frees the graphblas matrix
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
+	if (!dup_mat)
+		*A = NULL;				// it no longer exists
+
+	GrB_Descriptor_free(&desc);
 
 	return;						  
 }
-- 
2.43.0


From cf451e263f3f6e36c043e7a03e5250f963c56696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 34/48] fix: CSR::get_grb_mat builds one-based matrices from
 their first entry on and frees the matrix it replaces

---
 CSR.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CSR.h b/CSR.h
index 97090c0..5f17431 100644
--- a/CSR.h
+++ b/CSR.h
@@ -776,18 +776,16 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr;
+			 ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
 
 	if (A != NULL)
-	{
-		GrB_Matrix_clear(*A);
-		*A = NULL;
-	}
+		GrB_Matrix_free(A);
 
 	GrbMatrixBuild<NT>()(A, rinds, cinds, this->values,
 						 this->rows, this->cols, this->nnz);
-- 
2.43.0


From 151ff29a048e62e9a8c87d7e6089e1fdead2d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 35/48] fix: CSR::get_grb_mat_ptr gives the size of its column
 indices in indices, not in values

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 5f17431..43d1cb2 100644
--- a/CSR.h
+++ b/CSR.h
@@ -868,7 +868,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From 15c5f1dc9a16140bf4e0710932d17275f3eb87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 36/48] fix: GraphBLAS helpers free the descriptor, the scalar
 and the matrices they no longer need

---
 grb_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grb_util.h b/grb_util.h
index 2e53512..db0f3b5 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -776,6 +776,7 @@ read_grb_mtx
 		GrB_Matrix_eWiseAdd_Semiring(*A, NULL, NULL,
 									 GrbAlgObj<NT>().get_sr_plus_times(),
 		 							 *A, *A, desc);
+		GrB_Descriptor_free(&desc);
 		
 		// GxB_Matrix_fprint(tmp, "tmp", GxB_COMPLETE, stdout);
 	}
@@ -826,6 +827,7 @@ sort_by_degree
     delete[] mapping;
     delete[] cnts;
 
+    GrB_Matrix_free(A);
     GrbMatrixBuild<NT>()(A, rids, cids, vals, nrows, ncols, nnz);
 
     delete[] rids;
@@ -850,6 +852,7 @@ get_lowtri
 	GrB_Matrix_new(L, to_grb.get_type(), n, n);
 	GxB_Scalar_setElement_INT64(Thunk, (int64_t) (-1));
 	GxB_Matrix_select(*L, NULL, NULL, GxB_TRIL, A, Thunk, NULL);
+	GxB_Scalar_free(&Thunk);
 
 	return;	
 }
@@ -877,7 +880,6 @@ convert_to_csc
     GxB_Global_Option_get(GxB_FORMAT, &old);
     GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
 
-    GrB_Matrix_new(A_csc, GrbAlgObj<NT>{}.get_type(), nrows, ncols);
     GrbMatrixBuild<NT>{}(A_csc, rids, cids, vals, nrows, ncols, nnz);
 
     GxB_Global_Option_set(GxB_FORMAT, old);
-- 
2.43.0


From fce720269c5ee660d17e5a4831fb3fcec71a432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 37/48] fix: products release what their output held before

---
 hash_mult_hw.h   |  1 +
 heap_mult.h      | 11 ++++++-----
 mask_hash_mult.h |  2 ++
 outer_mult.h     | 12 ++++++------
 outer_mult2.h    | 12 ++++++------
 outer_profile.h  | 12 ++++++------
 outer_profile2.h | 12 ++++++------
 spa_mult.h       |  1 +
 8 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f541d22..5b87dce 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -185,6 +185,7 @@ void HashSpGEMM(const CSR<IT, NT> &a, const CSR<IT, NT> &b, CSR<IT, NT> &c, Mult
 {
     BIN<IT, NT> bin(a.rows, IMB_PWMIN, threadCount);
 
+    c.make_empty(); // release what c held before
     c.rows = a.rows;
     c.cols = b.cols;
     c.zerobased = true;
diff --git a/heap_mult.h b/heap_mult.h
index b86cae3..22ae201 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -174,13 +174,14 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 
     my_free<IT>(threadHeapSize);
 
-    if (C.isEmpty()) {
-        C.make_empty();
-    }
+    // C may be one of the operands
+    auto nrows = A.rows;
+    auto ncols = B.cols;
+    C.make_empty();
 
     // ************************ Copy output to C *************************************
-    C.rows = A.rows;
-    C.cols = B.cols;
+    C.rows = nrows;
+    C.cols = ncols;
 
     C.colptr = my_malloc<IT>(C.cols + 1);
     C.colptr[0] = 0;
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index f64845c..e71ecda 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -41,6 +41,7 @@ mxm_hash_mask
     unsigned threadCount
 )
 {
+	C.make_empty(); // release what C held before
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
@@ -175,6 +176,7 @@ mxm_hash_mask_wobin
     unsigned threadCount
 )
 {
+	C.make_empty(); // release what C held before
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
diff --git a/outer_mult.h b/outer_mult.h
index 1fcf0c1..faedbb5 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -337,12 +337,12 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
-    C.rows = A.rows;
-    C.cols = B.cols;
+    // C may be one of the operands
+    auto nrows = A.rows;
+    auto ncols = B.cols;
+    C.make_empty();
+    C.rows = nrows;
+    C.cols = ncols;
 
     C.colids = static_cast<IT*>(malloc(sizeof(IT[total_nnz])));
     C.rowptr = static_cast<IT*>(malloc(sizeof(IT[C.rows+1])));
diff --git a/outer_mult2.h b/outer_mult2.h
index a0e4b49..2d4853d 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -343,12 +343,12 @@ double t1 = omp_get_wtime();
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
-    C.rows = A.rows;
-    C.cols = B.cols;
+    // C may be one of the operands
+    auto nrows = A.rows;
+    auto ncols = B.cols;
+    C.make_empty();
+    C.rows = nrows;
+    C.cols = ncols;
 
     C.colids = static_cast<IT*>(malloc(sizeof(IT[total_nnz])));
     C.rowptr = static_cast<IT*>(malloc(sizeof(IT[C.rows+1])));
diff --git a/outer_profile.h b/outer_profile.h
index 8343e94..500e63c 100644
--- a/outer_profile.h
+++ b/outer_profile.h
@@ -397,12 +397,12 @@ t_merge += (omp_get_wtime() - t1);
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
-    C.rows = A.rows;
-    C.cols = B.cols;
+    // C may be one of the operands
+    auto nrows = A.rows;
+    auto ncols = B.cols;
+    C.make_empty();
+    C.rows = nrows;
+    C.cols = ncols;
     C.nnz = total_nnz;
     C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
     C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
diff --git a/outer_profile2.h b/outer_profile2.h
index 8efd4ba..d871445 100644
--- a/outer_profile2.h
+++ b/outer_profile2.h
@@ -429,12 +429,12 @@ t_merge += (omp_get_wtime() - t1);
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
-    C.rows = A.rows;
-    C.cols = B.cols;
+    // C may be one of the operands
+    auto nrows = A.rows;
+    auto ncols = B.cols;
+    C.make_empty();
+    C.rows = nrows;
+    C.cols = ncols;
     C.nnz = total_nnz;
     C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
     C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
diff --git a/spa_mult.h b/spa_mult.h
index af43c55..387cd39 100644
--- a/spa_mult.h
+++ b/spa_mult.h
@@ -12,6 +12,7 @@ template <typename IT, typename NT, typename MultiplyOperation, typename AddOper
 void MaskedSPASpGEMM(const CSR<IT, NT> & A, const CSR<IT, NT> & B, CSR<IT, NT> & C, const CSR<IT, NT> & Mask,
                MultiplyOperation multop, AddOperation addop, unsigned threadCount)
 {
+    C.make_empty(); // release what C held before
     C.rows = A.rows;
     C.cols = B.cols;
     C.zerobased = true;
-- 
2.43.0


From ddab63d56c5b9ced9e8b1ab1508b7ccd5805216b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 38/48] fix: R-MAT heap sort stays inside the edge lists and
 sorts every length

---
 GTgraph/R-MAT/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..ed62588 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From b52928853bf8bffed4f7eb22d40147977728d801 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 39/48] fix: PaRMAT capacity gate lets a square as large as the
 capacity pass

---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
-- 
2.43.0


From 81a3af8d4364c00d302c853f23745bdb968323c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 40/48] fix: PaRMAT squares do not overlap, so edges on their
 borders are not duplicated

---
 PaRMAT/src/Square.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..e192750 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "Square.hpp"
 
 bool Eligible_RNG_Rec( Square& rec, const unsigned long long nEdgesThreshold ) {
@@ -30,10 +32,12 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
-	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
-	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
+	// Both ends of a square belong to it: the second half starts after the end of the first one.
+	auto x_mid = (X_start+X_end)>>1, y_mid = (Y_start+Y_end)>>1;
+	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : std::min(x_mid+1, X_end) ;
+	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: x_mid ;
+	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : std::min(y_mid+1, Y_end) ;
+	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: y_mid ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
 
-- 
2.43.0


From 8694e20187f73a0b456523c9955323d8db08977f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 41/48] fix: sorted PaRMAT generator accepts squares without
 edges

---
 PaRMAT/src/GraphGen_sorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..fd37a09 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() > 0 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From 8bde5f4adf4cdaad2268eec188e039557eb46d00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 42/48] fix: PaRMAT generator without duplicates accepts
 squares without edges

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..a5dd064 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx + 1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
-- 
2.43.0


From b0541bab85535695390cc2d7148c072cf585aaf2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 43/48] fix: PaRMAT edge list generator covers the whole
 adjacency matrix

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index a5dd064..0ba71f2 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -201,7 +201,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
                                        )
 {
     
-    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices-1, nEdges, 0, 0, 0 ) );
+    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices, nEdges, 0, 0, 0 ) );
     
     bool allRecsAreInRange;
     do {
-- 
2.43.0


From a8710ae1e2b721e2c027ae6dfc04683546079d90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 44/48] fix: PaRMAT splits the square that exceeds the
 capacity, not the first one

---
 PaRMAT/src/GraphGen_notSorted.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index 0ba71f2..9836cee 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -73,9 +73,7 @@ bool GraphGen_notSorted::GenerateGraph(
 		allRecsAreInRange = true;
 		unsigned int recIdx = 0;
 		for( auto& rec: squares ) {
-			if( Eligible_RNG_Rec(rec, standardCapacity) ) {
-				continue;
-			} else {
+			if( !Eligible_RNG_Rec(rec, standardCapacity) ) {
 				ShatterSquare(squares, RMAT_a, RMAT_b, RMAT_c, recIdx, directedGraph);
 				allRecsAreInRange = false;
 				break;
@@ -208,9 +206,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
         allRecsAreInRange = true;
         unsigned int recIdx = 0;
         for( auto& rec: squares ) {
-            if( Eligible_RNG_Rec(rec, standardCapacity) ) {
-                continue;
-            } else {
+            if( !Eligible_RNG_Rec(rec, standardCapacity) ) {
                 ShatterSquare(squares, RMAT_a, RMAT_b, RMAT_c, recIdx, directedGraph);
                 allRecsAreInRange = false;
                 break;
-- 
2.43.0


From 30255387773706b1d218385e3b6a12163917f965 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 45/48] fix: CSC from a GraphBLAS matrix frees its descriptor

---
 CSC.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSC.h b/CSC.h
index 7db466e..48f3e1a 100644
--- a/CSC.h
+++ b/CSC.h
@@ -367,6 +367,8 @@ CSC<IT, NT>::CSC (GrB_Matrix A)
                           nullptr,
                           desc);
 
+    GrB_Descriptor_free(&desc);
+
     return;
 }
 
-- 
2.43.0


From 0c477f4cec2aeccb3ce01ed60a0d892a77ef7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 46/48] fix: heap_mult_generic: total the result size in the
 index type

---
 heap_mult_generic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index e57af0f..6e32d07 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -65,7 +65,7 @@ struct HeapBase {
     static IT
     estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                        const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, 0);
+        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, IT(0));
     }
 
     template<class IT, class NT>
-- 
2.43.0


From e4a7bbeda22abb2b4c7365017d06a7fb4c1f03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:05 +0000
Subject: [PATCH 47/48] fix: multiply, outer_mult: count multiplications in 64
 bits

---
 multiply.h       | 2 +-
 outer_mult.h     | 2 +-
 outer_mult2.h    | 2 +-
 outer_profile.h  | 2 +-
 outer_profile2.h | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/multiply.h b/multiply.h
index e077b8c..ec2e503 100644
--- a/multiply.h
+++ b/multiply.h
@@ -144,7 +144,7 @@ long long int get_flop(const CSC<IT, NT> &A, const CSR<IT, NT> &B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flops += (colnnz * rownnz);
+        flops += (long long int) colnnz * rownnz;
     }
     return (flops * 2);
 }
diff --git a/outer_mult.h b/outer_mult.h
index faedbb5..f994400 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -40,7 +40,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += (uint64_t) colnnz * rownnz;
     }
     return flop;
 }
diff --git a/outer_mult2.h b/outer_mult2.h
index 2d4853d..7667b45 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -37,7 +37,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += (uint64_t) colnnz * rownnz;
     }
     return flop;
 }
diff --git a/outer_profile.h b/outer_profile.h
index 500e63c..53da50f 100644
--- a/outer_profile.h
+++ b/outer_profile.h
@@ -42,7 +42,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += (uint64_t) colnnz * rownnz;
     }
     return flop;
 }
diff --git a/outer_profile2.h b/outer_profile2.h
index d871445..b3d9303 100644
--- a/outer_profile2.h
+++ b/outer_profile2.h
@@ -42,7 +42,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += (uint64_t) colnnz * rownnz;
     }
     return flop;
 }
-- 
2.43.0


From 4788896cbe93792578cb56d97982805e759038cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:36 +0000
Subject: [PATCH 48/48] fix: CSR, CSC: a GTgraph without edges is an empty
 matrix

---
 CSC.h | 4 ++++
 CSR.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CSC.h b/CSC.h
index 48f3e1a..8390a71 100644
--- a/CSC.h
+++ b/CSC.h
@@ -166,6 +166,10 @@ CSC<IT, NT>::CSC(graph &G) : nnz(G.m), rows(G.n), cols(G.n) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edges
+    colptr = my_malloc<IT>(cols + 1);
+    return;
+  }
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
diff --git a/CSR.h b/CSR.h
index 43d1cb2..7e84ba6 100644
--- a/CSR.h
+++ b/CSR.h
@@ -256,6 +256,10 @@ CSR<IT, NT>::CSR(graph &G) : nnz(G.m), rows(G.n), cols(G.n), zerobased(true) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edges
+    rowptr = my_malloc<IT>(rows + 1);
+    return;
+  }
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
-- 
2.43.0

