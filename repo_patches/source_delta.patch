From 64126e2efd962b819f0b1d799e43e4b1e0343dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:59 +0000
Subject: [PATCH 01/41] fix: masked compressed row kernels (MCA_v1..v3) read
 keys from A, overran their buffers and empty mask rows

---
 heap_mult_generic.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..65d9204 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -478,11 +478,8 @@ struct MCABase {
     template<class IT, class NT>
     static IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        IT size = 0;
-        for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
-        }
-        return size;
+        // Values are accumulated at the position of the mask entry and compacted afterwards.
+        return M.rowptr[rowEndIdx] - M.rowptr[rowBeginIdx];
     }
 
     template<class IT, class NT>
@@ -513,6 +510,11 @@ struct MCA_v1 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
@@ -522,9 +524,8 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             IT maskIdx = maskBegin;
 
@@ -594,9 +595,8 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
@@ -655,6 +655,11 @@ struct MCA_v3 : MCABase {
         const auto maskEnd = &M.colids[M.rowptr[i + 1]];
         const auto maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
-- 
2.43.0


From 35dbd82bf5492c4513eca07af4d0844ca1afb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:59 +0000
Subject: [PATCH 02/41] fix: dot-product kernel indexed column offsets of B by
 row ids while filling an unused bin

---
 inner_mult.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..44cb2dd 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -70,12 +70,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         C.values[i] = 0;
     }
     
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
-- 
2.43.0


From b4b7e9c8136da92a43625b9f4d7950e1cbe38da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:59 +0000
Subject: [PATCH 03/41] fix: complemented heap methods aborted on an empty mask
 row

---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 9f6960252097e284eed2f53784cbfd8c35d42201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:59 +0000
Subject: [PATCH 04/41] fix: mixed row-wise method never recorded the size of
 non-empty rows

---
 spgemm-blocks/masked-spgemm-poly.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..203e622 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -72,11 +72,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
-- 
2.43.0


From b99995bc1732a68ed978b90d3cbb0d3e414a164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 05/41] fix: masked SpGEMM drivers partition rows over the
 delivered OpenMP team, not the requested count

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 14 ++++++++------
 spgemm-blocks/masked-spgemm-inner.h     | 14 ++++++++------
 spgemm-blocks/masked-spgemm-poly.h      |  7 ++++---
 spgemm-blocks/masked-spgemm-prof.h      |  7 ++++---
 spgemm-blocks/masked-spgemm.h           | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..ce4de35 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -36,9 +36,10 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Get arrays for local colIDs and values
         IT *const colIdsLocal = colIds + M.rowptr[rowBeginIdx];
@@ -95,11 +96,11 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
 
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
     }
 
@@ -128,9 +129,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Symbolic phase
         IT nvals = 0;
@@ -172,10 +174,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
 
         // Numeric phase
         IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..1e2ef5c 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -32,10 +32,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
         RowAlg alg;
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Get arrays for local colIDs and values
         IT *const colIdsLocal = colIds + M.rowptr[rowBeginIdx];
@@ -59,11 +60,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
 
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
     }
 
@@ -95,10 +96,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
         RowAlg alg;
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Symbolic phase
         IT nvals = 0;
@@ -117,10 +119,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
 
         // Numeric phase
         IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 203e622..9f41519 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -24,9 +24,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Scan the input matrices
         auto[upperBoundSizeC, maxRowSizeA, maxRowSizeM, maxRowFlops]
@@ -89,10 +90,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal, valuesLocal);
diff --git a/spgemm-blocks/masked-spgemm-prof.h b/spgemm-blocks/masked-spgemm-prof.h
index 386321c..9967dae 100644
--- a/spgemm-blocks/masked-spgemm-prof.h
+++ b/spgemm-blocks/masked-spgemm-prof.h
@@ -27,9 +27,10 @@ void MaskedSpGEMM1p_prof(long *rowTimes, const CSR<IT, NT> &A, const CSR<IT, NT>
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Scan the input matrices
         auto[upperBoundSizeC, maxRowSizeA, maxRowSizeM] = scanInputs<true, RowAlg::CALC_MAX_ROW_SIZE_A, RowAlg::CALC_MAX_ROW_SIZE_M>(
@@ -69,10 +70,10 @@ void MaskedSpGEMM1p_prof(long *rowTimes, const CSR<IT, NT> &A, const CSR<IT, NT>
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal);
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..f3204d9 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -40,9 +40,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Scan the input matrices
         auto[upperBoundSizeC, maxRowSizeA, maxRowSizeM, maxRowFlops]
@@ -81,10 +82,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, C, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal, valuesLocal);
@@ -122,9 +123,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
 
         // Distribute work
-        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
+        auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, teamSize, thisThread);
 
         // Scan the input matrices
         auto[upperBoundSizeC, maxRowSizeA, maxRowSizeM, maxRowFlops]
@@ -158,10 +160,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, R, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, teamSize);
         }
 #pragma omp barrier
-        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, teamSize, thisThread);
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-- 
2.43.0


From 74ee2ae6a79f5b4ddc1fd14a88dc8d6fe7f0637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 06/41] fix: prefix scans honour a team smaller than requested

---
 spgemm-blocks/scan.h | 6 ++++--
 utility.h            | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..c4c4cd9 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -46,7 +46,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
 #pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
     {
-        inclusiveScan(src, size, dst, numThreads, partialSums);
+        // the team may be smaller than requested
+        inclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
@@ -92,7 +93,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
 #pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
     {
-        exclusiveScan(src, size, dst, numThreads, partialSums);
+        // the team may be smaller than requested
+        exclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
diff --git a/utility.h b/utility.h
index 1a6df5f..8410032 100644
--- a/utility.h
+++ b/utility.h
@@ -184,14 +184,15 @@ template <typename T> void scan(T *in, T *out, T N) {
     int tnum = 1;
 #pragma omp parallel
     { tnum = omp_get_num_threads(); }
-    T each_n = N / tnum;
     T *partial_sum = my_malloc<T>(tnum);
-#pragma omp parallel
+#pragma omp parallel num_threads(tnum)
     {
       // thead level prefix summing
       int tid = omp_get_thread_num();
+      int team = omp_get_num_threads(); // may be smaller than requested
+      T each_n = N / team;
       T start = each_n * tid;
-      T end = (tid < tnum - 1) ? start + each_n : N;
+      T end = (tid < team - 1) ? start + each_n : N;
       out[start] = 0;
       for (T i = start; i < end - 1; ++i) {
         out[i + 1] = out[i] + in[i];
-- 
2.43.0


From d89fe5d142107a4e7924a40318bc38ca24abe7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 07/41] fix: BIN and its hash/SPA/mask-hash/inner users visit
 every row chunk when the team is smaller than requested

---
 BIN.h            | 20 ++++++++------------
 hash_mult_hw.h   | 14 ++++++--------
 inner_mult.h     |  6 ++----
 mask_hash_mult.h | 12 ++++++------
 spa_mult.h       | 12 ++++--------
 5 files changed, 26 insertions(+), 38 deletions(-)

diff --git a/BIN.h b/BIN.h
index 0c3b376..85a4949 100644
--- a/BIN.h
+++ b/BIN.h
@@ -50,9 +50,8 @@ public:
         my_free<IT>(row_nz);
         my_free<IT>(rows_offset);
         my_free<char>(bin_id);
-#pragma omp parallel num_threads(thread_num)
-        {
-            int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(thread_num) schedule(static, 1)
+        for (int tid = 0; tid < thread_num; ++tid) {
             my_free<IT>(local_hash_table_id[tid]);
             my_free<NT>(local_hash_table_val[tid]);
         }
@@ -119,9 +118,8 @@ inline void BIN<IT, NT>::set_rows_offset(const IT rows)
 
     /* Search end point of each range */
     rows_offset[0] = 0;
-#pragma omp parallel num_threads(thread_num)
-    {
-        int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(thread_num) schedule(static, 1)
+    for (int tid = 0; tid < thread_num; ++tid) {
         long long int end_itr = (lower_bound(ps_row_nz, ps_row_nz + rows + 1, average_intprod * (tid + 1))) - ps_row_nz;
         rows_offset[tid + 1] = end_itr > rows ? rows : end_itr;
         // if (tid == thread_num - 1) rows_offset[tid + 1] = rows;
@@ -133,9 +131,8 @@ inline void BIN<IT, NT>::set_rows_offset(const IT rows)
 template <class IT, class NT>
 inline void BIN<IT, NT>::create_local_hash_table(const IT cols)
 {
-#pragma omp parallel num_threads(thread_num)
-    {
-        int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(thread_num) schedule(static, 1)
+    for (int tid = 0; tid < thread_num; ++tid) {
         IT ht_size = 0;
         for (IT j = rows_offset[tid]; j < rows_offset[tid + 1]; ++j) {
             if (ht_size < row_nz[j]) ht_size = row_nz[j];
@@ -157,9 +154,8 @@ template <class IT, class NT>
 inline void BIN<IT, NT>::create_global_hash_table(const IT cols)
 {
     IT *hash_table_size = my_malloc<IT>(thread_num);
-#pragma omp parallel num_threads(thread_num)
-    {
-        int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(thread_num) schedule(static, 1)
+    for (int tid = 0; tid < thread_num; ++tid) {
         IT ht_size = 0;
         for (IT j = rows_offset[tid]; j < rows_offset[tid + 1]; ++j) {
             if (ht_size < row_nz[j]) ht_size = row_nz[j];
diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f541d22..f59eba8 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -26,10 +26,9 @@
 template <class IT, class NT>
 inline void hash_symbolic_kernel(const IT *arpt, const IT *acol, const IT *brpt, const IT *bcol, BIN<IT, NT> &bin, unsigned threadCount)
 {
-#pragma omp parallel num_threads(threadCount)
-    {
-        IT i, tid, start_row, end_row;
-        tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+    for (IT tid = 0; tid < bin.thread_num; ++tid) {
+        IT i, start_row, end_row;
         start_row = bin.rows_offset[tid];
         end_row = bin.rows_offset[tid + 1];
 
@@ -97,13 +96,12 @@ bool sort_less(const pair<IT, NT> &left,const pair<IT, NT> &right)
 template <bool sortOutput, typename IT, typename NT, typename MultiplyOperation, typename AddOperation>
 inline void hash_numeric(const IT *arpt, const IT *acol, const NT *aval, const IT *brpt, const IT *bcol, const NT *bval, const IT *crpt, IT *ccol, NT *cval,const BIN<IT, NT> &bin, const MultiplyOperation multop, const AddOperation addop,  unsigned threadCount)
 {
-#pragma omp parallel num_threads(threadCount)
-    {
-        IT i, tid, start_row, end_row;
+#pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+    for (IT tid = 0; tid < bin.thread_num; ++tid) {
+        IT i, start_row, end_row;
         IT *shared_check;
         NT *shared_value;
 
-        tid = omp_get_thread_num();
         start_row = bin.rows_offset[tid];
         end_row = bin.rows_offset[tid + 1];
 
diff --git a/inner_mult.h b/inner_mult.h
index 44cb2dd..ebdd13d 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -80,12 +80,11 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     vector<IT> rownnz(C.rows, 0);
 
     IT rowPerThread = (M.rows + numThreads -1) / numThreads;
-    #pragma omp parallel  num_threads(threadCount)
+    #pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+    for (IT tid = 0; tid < numThreads; ++tid)
     {
         IT i, start_row, end_row, col;
-        IT tid;
         
-        tid = omp_get_thread_num();
         // start_row  = bin.rows_offset[tid];
         // end_row = bin.rows_offset[tid + 1];
         start_row = rowPerThread * tid;
@@ -131,7 +130,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
                 }  
             }          
         }
-        #pragma omp barrier
     }
 
     //shrink C
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 773aa75..09730d9 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -62,11 +62,11 @@ mxm_hash_mask
     bin.create_local_hash_table(C.cols);
     
     IT rowPerThread = (M.rows + numThreads -1) / numThreads;
-	#pragma omp parallel num_threads(threadCount)
+	#pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+	for (int tid = 0; tid < numThreads; ++tid)
 	{
-		IT i, tid, start_row, end_row, max_row = 0, ra;
+		IT i, start_row, end_row, max_row = 0, ra;
 
-	    tid = omp_get_thread_num();
         start_row  = bin.rows_offset[tid];
         end_row = bin.rows_offset[tid + 1];
         // start_row = rowPerThread * tid;
@@ -108,11 +108,11 @@ mxm_hash_mask
     C.colids = my_malloc<IT>(C.nnz);
     C.values = my_malloc<NT>(C.nnz);
 
-	#pragma omp parallel num_threads(threadCount)
+	#pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+	for (int tid = 0; tid < numThreads; ++tid)
 	{
-		IT i, tid, start_row, end_row, max_row = 0, ra;
+		IT i, start_row, end_row, max_row = 0, ra;
 
-	    tid = omp_get_thread_num();
         start_row  = bin.rows_offset[tid];
         end_row = bin.rows_offset[tid + 1];
         // start_row = rowPerThread * tid;
diff --git a/spa_mult.h b/spa_mult.h
index af43c55..558d205 100644
--- a/spa_mult.h
+++ b/spa_mult.h
@@ -27,11 +27,9 @@ void MaskedSPASpGEMM(const CSR<IT, NT> & A, const CSR<IT, NT> & B, CSR<IT, NT> &
     // bin.create_local_hash_table(c.cols);
     
     // Aydin Buluc: likely load-imbalanced way of parallelizing, improve later
-    #pragma omp parallel num_threads(threadCount)
+    #pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+    for (int tid = 0; tid < bin.thread_num; ++tid)
     {
-        int tid = omp_get_thread_num();
-        int threadnum = omp_get_thread_num();
-        int numthreads = omp_get_num_threads();
         size_t low  = bin.rows_offset[tid];
         size_t high = bin.rows_offset[tid + 1];
         // size_t low = C.rows*threadnum/numthreads;
@@ -62,11 +60,9 @@ void MaskedSPASpGEMM(const CSR<IT, NT> & A, const CSR<IT, NT> & B, CSR<IT, NT> &
     C.values = my_malloc<NT>(C.nnz);
 
     // Aydin Buluc, To-Do: repeated binary searches on row_nz to find load balanced low/high positions
-    #pragma omp parallel num_threads(threadCount)
+    #pragma omp parallel for num_threads(threadCount) schedule(static, 1)
+    for (int tid = 0; tid < bin.thread_num; ++tid)
     {
-        int tid = omp_get_thread_num();
-        int threadnum = omp_get_thread_num();
-        int numthreads = omp_get_num_threads();
         size_t low  = bin.rows_offset[tid];
         size_t high = bin.rows_offset[tid + 1];
         // size_t low = C.rows*threadnum/numthreads;
-- 
2.43.0


From 3a8f5c546d019fecb7eed2b689b4743cdd77ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 08/41] fix: heap SpGEMM visits every chunk when the team is
 smaller than requested

---
 heap_mult.h         | 30 ++++++++++++------------------
 heap_mult_generic.h | 10 +++++-----
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/heap_mult.h b/heap_mult.h
index a4ca9ee..e34bf5e 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -76,9 +76,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
         colEnd[i] = colStart[i];
     }
 
-#pragma omp parallel
-    {
-        int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int tid = 0; tid < numThreads; ++tid) {
         long end_itr = (lower_bound(colStart, colStart + B.cols, flopsPerThread * (tid + 1))) - colStart;
         colPerThread[tid + 1] = end_itr;
     }
@@ -88,9 +87,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     IT size = colEnd[B.cols-1] + maxnnzc[B.cols-1];
     IT **LocalRowIdsofC = my_malloc<IT*>(numThreads);
     NT **LocalValuesofC = my_malloc<NT*>(numThreads);
-#pragma omp parallel
-    {
-        int tid = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int tid = 0; tid < numThreads; ++tid) {
         IT localsum = 0;
         for (IT i = colPerThread[tid]; i < colPerThread[tid + 1]; ++i) {
             localsum += maxnnzc[i];
@@ -105,9 +103,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 
     IT *threadHeapSize = my_malloc<IT>(numThreads);
 
-#pragma omp parallel
-    {
-        int thisThread = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int thisThread = 0; thisThread < numThreads; ++thisThread) {
         // IT localmax = -1; //incorrect
         IT localmax = 0;
         for (IT i = colPerThread[thisThread]; i < colPerThread[thisThread + 1]; ++i) {
@@ -119,9 +116,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     }
 
     // ************************ Numeric Phase *************************************
-#pragma omp parallel
-    {
-        int thisThread = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int thisThread = 0; thisThread < numThreads; ++thisThread) {
         HeapEntry<IT, NT> *mergeheap = my_malloc<HeapEntry<IT, NT>>(threadHeapSize[thisThread]);
 
         for (IT i = colPerThread[thisThread]; i < colPerThread[thisThread + 1]; ++i) {
@@ -197,9 +193,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     C.rowids = my_malloc<IT>(C.nnz);
     C.values = my_malloc<NT>(C.nnz);
 
-#pragma omp parallel
-    {
-        int thisThread = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int thisThread = 0; thisThread < numThreads; ++thisThread) {
         for(int i = colPerThread[thisThread]; i< colPerThread[thisThread + 1]; ++i) {        // combine step
             copy(&LocalRowIdsofC[thisThread][colStart[i] - colStart[colPerThread[thisThread]]], &LocalRowIdsofC[thisThread][colEnd[i] - colStart[colPerThread[thisThread]]], C.rowids + C.colptr[i]);
             copy(&LocalValuesofC[thisThread][colStart[i] - colStart[colPerThread[thisThread]]], &LocalValuesofC[thisThread][colEnd[i] - colStart[colPerThread[thisThread]]], C.values + C.colptr[i]);
@@ -207,9 +202,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     }
 
     // ************************ Memory deallocation *************************************
-#pragma omp parallel
-    {
-        int thisThread = omp_get_thread_num();
+#pragma omp parallel for num_threads(numThreads) schedule(static, 1)
+    for (int thisThread = 0; thisThread < numThreads; ++thisThread) {
         my_free<IT>(LocalRowIdsofC[thisThread]);
         my_free<NT>(LocalValuesofC[thisThread]);
     }
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 65d9204..855cd9a 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -740,8 +740,6 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     IT *maxnnzc = my_malloc<IT>(A.rows);
     long long int flops = tmp::getFlop(A, B, maxnnzc) / 2;
 
-    IT flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
-
     IT *rowStart = my_malloc<IT>(A.rows); //start index in the global array for storing ith column of C
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
@@ -757,10 +755,12 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        int teamSize = omp_get_num_threads(); // may be smaller than requested
+        IT flopsPerThread = flops / teamSize; // amount of work that will be assigned to each thread
 
         // @formatter:off
         IT rowBegin = thisThread != 0 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * thisThread)) - rowStart : 0;
-        IT rowEnd = thisThread != numThreads - 1 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * (thisThread + 1))) - rowStart : A.rows;
+        IT rowEnd = thisThread != teamSize - 1 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * (thisThread + 1))) - rowStart : A.rows;
         // @formatter:on
 
         IT localsum = RowAlgorithm::estimateResultSize(rowBegin, rowEnd, maxnnzc, A, B, M);
@@ -788,7 +788,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
             C.rowptr = my_malloc<IT>(C.rows + 1);
             C.rowptr[0] = 0;
 
-            C.nnz = std::accumulate(threadsNvals, threadsNvals + numThreads, IT(0));;
+            C.nnz = std::accumulate(threadsNvals, threadsNvals + teamSize, IT(0));;
             C.colids = my_malloc<IT>(C.nnz);
             C.values = my_malloc<NT>(C.nnz);
         }
@@ -801,7 +801,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
             C.rowptr[i] = rowPtrOffset;
             rowPtrOffset += rowNvals[i];
         }
-        if (thisThread == numThreads - 1) { C.rowptr[C.rows] = rowPtrOffset; }
+        if (thisThread == teamSize - 1) { C.rowptr[C.rows] = rowPtrOffset; }
 
         // copy local values to C
         copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
-- 
2.43.0


From d876748f89a5e36512e76b8765c7258759b3e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 09/41] fix: outer-product SpGEMM sort buffers belong to the
 team that uses them

---
 outer_mult.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..bd4ae5b 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -231,7 +231,6 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     TripleNode **global_blockers = my_malloc<TripleNode*>(num_blockers);
     IT **local_blocker_counters = my_malloc<IT*>(nthreads);
     TripleNode **local_blockers = my_malloc<TripleNode*>(nthreads);
-    TripleNode **sorting_buffer = my_malloc<TripleNode*>(nthreads);
     IT *nnz_per_row_blocker = my_malloc<IT>(num_blockers);
 	do_static_symbolic(A, B, 0, A.cols, nrows_per_blocker, num_blockers, flops_by_row_blockers, total_flop);
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
@@ -251,7 +250,6 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
         local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
 // computing phase
 #pragma omp for nowait
         for (IT idx = startIdx; idx < endIdx; ++idx)
@@ -320,17 +318,18 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     //     cout << scheduling_order[row_blocker_id].second << " " << global_blocker_counters[scheduling_order[row_blocker_id].second] << endl;
 #pragma omp parallel
     {
-        uint16_t thread_id = omp_get_thread_num();
+        TripleNode *sorting_buffer = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
 #pragma omp for reduction(+ : nnz_per_row_blocker[:num_blockers])
         for (uint16_t row_blocker_id=0; row_blocker_id < num_blockers; ++ row_blocker_id)
         {
             // uint16_t my_blocker_id = scheduling_order[row_blocker_id].second;
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id]);
+                        sorting_buffer);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
+        ::operator delete(sorting_buffer);
     }
 
     IT *cumulative_row_indices = my_malloc<IT>(num_blockers + 1);
-- 
2.43.0


From 8d7a5e0438f1974f23221487e337b6a46512d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 10/41] fix: prefix scans touch nothing for zero elements

---
 spgemm-blocks/scan.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index c4c4cd9..23beee5 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,7 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -33,6 +34,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
         dst[0] = src[0];
@@ -72,6 +75,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -80,6 +84,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
         dst[0] = 0;
-- 
2.43.0


From b57612e79b6ea6d789b9fe872e53fd3aeb46ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 11/41] fix: parallel array scan does not read past its input

---
 utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utility.h b/utility.h
index 8410032..0d11773 100644
--- a/utility.h
+++ b/utility.h
@@ -197,8 +197,8 @@ template <typename T> void scan(T *in, T *out, T N) {
       for (T i = start; i < end - 1; ++i) {
         out[i + 1] = out[i] + in[i];
       }
-      // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // calculate offset in every thread (nobody follows the last one, and in[N - 1] may not exist)
+      if (tid < team - 1) { partial_sum[tid] = out[end - 1] + in[end - 1]; }
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 4aad09449bf57cafea8fa538128bf003bbfd1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:48 +0000
Subject: [PATCH 12/41] fix: csr2csc_atomic_nosort wrote one offset too many

The offset loop ran to i <= n, reading the counter past the end of the
array of n counters and writing cscColPtr[n+1].
---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 2490e2b15a5fd50948bebbda44314047fa52e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 13/41] fix: CSC from tuples did not merge duplicates

The constructor documented to handle duplicates ignored its addition and
kept every duplicate; MergeDuplicates, which it should use, indexed two
vectors it never sized and crashed on every non-empty matrix.
---
 CSC.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index 466ae0f..1584c5a 100644
--- a/CSC.h
+++ b/CSC.h
@@ -374,11 +374,14 @@ CSC<IT, NT>::CSC (GrB_Matrix A)
 template <class IT, class NT>
 template <typename AddOperation>
 void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
+  if (nnz == 0) // nothing to merge
+    return;
+
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
@@ -467,6 +470,7 @@ CSC<IT, NT>::CSC(vector<tuple<IT, IT, NT>> &tuple, IT m, IT n,
   //   // TO DO: as value I want a pair<kmer_id, vector<posix_in_read>>
   // }
   my_free<IT>(work);
+  MergeDuplicates(addop);
 }
 
 // Construct a Csc object from parallel arrays
-- 
2.43.0


From a765ab38bd39cdbdcae0cdcea3eec3b5fa88f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 14/41] fix: removeDuplicates of no triples returned one

It (and generateRandomTriples asked for none) reported one triple in an
array that has no element.
---
 util/triple-util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..45f843b 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -7,6 +7,8 @@
 
 template<class IT, class NT>
 IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
+    if (numValues <= 0) { return 0; }
+
     // Sort and remove duplicates
     std::sort(triples, triples + numValues, [](auto lhs, auto rhs) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
-- 
2.43.0


From 44ec1ea65673b56a1af36e590191eaf539aabea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 15/41] fix: CSR::sumall accumulated values in the index type

Fractions were cut off after every addition and large sums overflowed.
---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index a2285b9..6413b48 100644
--- a/CSR.h
+++ b/CSR.h
@@ -90,7 +90,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From 7244121def74d24c452ccf8c24c83356c5ad3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 16/41] fix: comparing matrices without rows read unallocated
 offsets

operator== of two default-constructed, cleared or copied matrices with
no rows (CSC: no columns) dereferenced an uninitialised pointer.
---
 CSC.h | 2 ++
 CSR.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CSC.h b/CSC.h
index 1584c5a..504e116 100644
--- a/CSC.h
+++ b/CSC.h
@@ -548,6 +548,8 @@ template <class IT, class NT>
 bool CSC<IT, NT>::operator==(const CSC<IT, NT> &rhs) {
   if (nnz != rhs.nnz || rows != rhs.rows || cols != rhs.cols)
     return false;
+  if (cols == 0) // no offsets to compare (colptr may not be allocated)
+    return true;
   bool same = std::equal(colptr, colptr + cols + 1, rhs.colptr);
   same = same && std::equal(rowids, rowids + nnz, rhs.rowids);
 
diff --git a/CSR.h b/CSR.h
index 6413b48..e6cdd6c 100644
--- a/CSR.h
+++ b/CSR.h
@@ -473,6 +473,8 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
            rhs.cols);
     return false;
   }
+  if (rows == 0) // no offsets to compare (rowptr may not be allocated)
+    return true;
   if (zerobased != rhs.zerobased) {
     IT *tmp_rowptr = my_malloc<IT>(rows + 1);
     IT *tmp_colids = my_malloc<IT>(nnz);
-- 
2.43.0


From 8961b369b04691399048187fd1c6d62bafa82d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 17/41] fix: CSR assignment decided on cols whether to copy the
 row offsets

Assigning a matrix with rows but no columns left rowptr dangling (and
freed again later); one with columns but no rows leaked it.
---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index e6cdd6c..e0218b4 100644
--- a/CSR.h
+++ b/CSR.h
@@ -154,7 +154,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From ecbcf37c8a67827ed64e3e89614dd0b0564fd71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 18/41] fix: matrix readers accepted malformed and truncated
 files and misread valid ones

ReadASCII, ReadASCII_Triples, ReadBinary and CSR(string) ignored read errors,
truncation, out-of-range ids and missing files, looped or crashed on short
files, cut lines at 255 characters and values to int. They now parse each line
completely and report failure.
---
 CSR.h      | 124 +++++++++++----------------------
 IO.h       | 201 ++++++++++++++++++++---------------------------------
 Triple.h   |  43 ++++++++++++
 grb_util.h |   5 +-
 4 files changed, 160 insertions(+), 213 deletions(-)

diff --git a/CSR.h b/CSR.h
index e0218b4..90fd839 100644
--- a/CSR.h
+++ b/CSR.h
@@ -7,8 +7,10 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdlib>
+#include <fstream>
 #include <iostream>
 #include <random>
+#include <sstream>
 #include <vector>
 //#include <tbb/scalable_allocator.h>
 
@@ -539,111 +541,65 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
 
 template <class IT, class NT>
 CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
-  IT i;
-  bool isUnsy;
-  IT num, offset, tmp_nz;
-  char *line, *ch;
-  FILE *fp;
-  IT *col_coo, *row_coo;
-  NT *val_coo;
-  IT *each_row_index;
-  IT *nnz_num;
-  const int LINE_LENGTH_MAX = 256;
-
-  isUnsy = false;
-  line = (char *)malloc(sizeof(char) * LINE_LENGTH_MAX);
+  bool isUnsy = false;
+  string line;
 
   /* Open File */
-  fp = fopen(filename.c_str(), "r");
-  if (fp == NULL) {
+  ifstream fp(filename.c_str());
+  if (!fp) {
     exit(1);
   }
   do {
-    fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
+    getline(fp, line);
+    if (line.find("general") != string::npos) {
       isUnsy = true;
     }
-  } while (line[0] == '%');
+  } while (fp && !line.empty() && line[0] == '%');
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  IT num;
+  stringstream sizes(line);
+  if (!fp || !(sizes >> rows >> cols >> num) || rows < 0 || cols < 0 ||
+      num < 0 || (!isUnsy && rows != cols)) {
+    cerr << "Problem reading header of input file " << filename << endl;
+    exit(1);
+  }
 
   /* Store in COO format */
-  num = 0;
-  col_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
-  row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
-  val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
-
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
-    ch = line;
-    /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
-    /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
-      val_coo[num] = 1.0;
+  vector<Triple<IT, NT>> coo;
+  for (IT i = 0; i < num; ++i) {
+    Triple<IT, NT> t;
+    if (!getline(fp, line) || !ParseCoordinate(line.c_str(), rows, cols, t)) {
+      cerr << "Problem reading entry " << i << " of input file " << filename
+           << endl;
+      exit(1);
     }
-    num++;
-  }
-  fclose(fp);
-
-  /* Count the number of non-zero in each row */
-  nnz_num = (IT *)malloc(sizeof(IT) * rows);
-  for (i = 0; i < rows; i++) {
-    nnz_num[i] = 0;
-  }
-  for (i = 0; i < num; i++) {
-    nnz_num[row_coo[i]]++;
-    if (col_coo[i] != row_coo[i] && isUnsy == false) {
-      nnz_num[col_coo[i]]++;
-      (tmp_nz)++;
+    coo.push_back(t);
+    if (t.col != t.row && isUnsy == false) {
+      coo.push_back(Triple<IT, NT>(t.col, t.row, t.val));
     }
   }
 
-  nnz = tmp_nz;
+  nnz = coo.size();
 
   /* Allocation of rpt, col, val */
-  rowptr = my_malloc<IT>(sizeof(IT) * (rows + 1));
-  colids = my_malloc<IT>(sizeof(IT) * (nnz));
-  values = my_malloc<NT>(sizeof(NT) * (nnz));
-
-  offset = 0;
-  for (i = 0; i < rows; i++) {
-    rowptr[i] = offset;
-    offset += nnz_num[i];
-  }
-  rowptr[rows] = offset;
+  rowptr = my_malloc<IT>(rows + 1);
+  colids = my_malloc<IT>(nnz);
+  values = my_malloc<NT>(nnz);
 
-  each_row_index = (IT *)malloc(sizeof(IT) * rows);
-  for (i = 0; i < rows; i++) {
-    each_row_index[i] = 0;
+  /* Count the number of non-zero in each row */
+  vector<IT> each_row_index(rows + 1, 0);
+  for (IT i = 0; i < nnz; i++) {
+    each_row_index[coo[i].row]++;
   }
+  CumulativeSum(each_row_index.data(), (IT)(rows + 1));
+  copy(each_row_index.begin(), each_row_index.end(), rowptr);
 
-  for (i = 0; i < num; i++) {
-    colids[rowptr[row_coo[i]] + each_row_index[row_coo[i]]] = col_coo[i];
-    values[rowptr[row_coo[i]] + each_row_index[row_coo[i]]++] = val_coo[i];
-
-    if (col_coo[i] != row_coo[i] && isUnsy == false) {
-      colids[rowptr[col_coo[i]] + each_row_index[col_coo[i]]] = row_coo[i];
-      values[rowptr[col_coo[i]] + each_row_index[col_coo[i]]++] = val_coo[i];
-    }
+  for (IT i = 0; i < nnz; i++) {
+    IT pos = each_row_index[coo[i].row]++;
+    colids[pos] = coo[i].col;
+    values[pos] = coo[i].val;
   }
-
-  free(line);
-  free(nnz_num);
-  free(row_coo);
-  free(col_coo);
-  free(val_coo);
-  free(each_row_index);
 }
 
 template <class IT, class NT> void CSR<IT, NT>::shuffleIds() {
diff --git a/IO.h b/IO.h
index a296f9b..49db3da 100644
--- a/IO.h
+++ b/IO.h
@@ -18,13 +18,11 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
         return -1;
     }
     IT m,n,nnz;
-    fread(&m, sizeof(IT), 1, f);
-    fread(&n, sizeof(IT), 1, f);
-    fread(&nnz, sizeof(IT), 1, f);
-    
-    if (m <= 0 || n <= 0 || nnz <= 0)
+    if (fread(&m, sizeof(IT), 1, f) != 1 || fread(&n, sizeof(IT), 1, f) != 1 ||
+        fread(&nnz, sizeof(IT), 1, f) != 1 || m <= 0 || n <= 0 || nnz <= 0)
     {
         cerr << "Problem with matrix size in binary input file" << filename << endl;
+        fclose(f);
         return -1;
     }
     double start = omp_get_wtime( );
@@ -38,18 +36,26 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     size_t cols = fread(colindices, sizeof(IT), nnz, f);
     size_t nums = fread(vals, sizeof(NT), nnz, f);
     
-    if(rows != nnz || cols != nnz || nums != nnz)
+    fclose(f);
+
+    bool valid = (rows == nnz && cols == nnz && nums == nnz);
+    for (IT i = 0; valid && i < nnz; ++i)
+    {
+        valid = rowindices[i] >= 0 && rowindices[i] < m && colindices[i] >= 0 && colindices[i] < n;
+    }
+    if(!valid)
     {
         cerr << "Problem with FREAD, aborting... " << endl;
+        delete [] rowindices;
+        delete [] colindices;
+        delete [] vals;
         return -1;
     }
     double end = omp_get_wtime( );
     // printf("start = %.16g\nend = %.16g\ndiff = %.16g\n", start, end, end - start);
     printf("Converting matrix data from binary to COO fromat takes %.16g seconds.\n", end - start);
 
-    fclose(f);
-    
-    csc = *(new CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n));
+    csc = CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n);
     
     delete [] rowindices;
     delete [] colindices;
@@ -63,78 +69,45 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    while (getline(infile, line) && !line.empty() && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        if (line.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
-        c = infile.get();
     }
-    infile.unget();
-
-    infile.getline(line,256);
     IT m,n,nnz;
     std::stringstream ss{line};
-    ss >> m >> n >> nnz;
-    
-    if (isSymmetric) {
-        nnz *= 2;
+    if (!infile || !(ss >> m >> n >> nnz) || m < 0 || n < 0 || nnz < 0 ||
+        (isSymmetric && m != n))
+    {
+        cerr << "Problem reading header of input file " << filename << endl;
+        return -1;
     }
-    
-    Triple<IT,NT> * triples = new Triple<IT,NT>[nnz];
-    if (infile.is_open())
+
+    vector<Triple<IT,NT>> triples;
+    for (IT i = 0; i < nnz; ++i)
     {
-        IT cnz = 0;	// current number of nonzeros
-        while (! infile.eof() && cnz < nnz)
+        Triple<IT,NT> t;
+        if (!getline(infile, line) || !ParseCoordinate(line.c_str(), m, n, t))
         {
-            infile.getline(line,256);
-            char *ch = line;
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-            }
-            else {
-                triples[cnz].val = 1.0;
-            }
-            // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
-            triples[cnz].row--;
-            triples[cnz].col--;
-            if (isSymmetric) {
-                if (triples[cnz].col != triples[cnz].row) {
-                    cnz++;
-                    triples[cnz].col = triples[cnz - 1].row;
-                    triples[cnz].row = triples[cnz - 1].col;
-                    triples[cnz].val = triples[cnz - 1].val;
-                }
-                else {
-                    nnz--;
-                }
-            }
-            ++cnz;
+            cerr << "Problem reading entry " << i << " of input file " << filename << endl;
+            return -1;
         }
-        assert(cnz == nnz);
+        triples.push_back(t);
+        if (isSymmetric && t.row != t.col) { triples.push_back(Triple<IT,NT>(t.col, t.row, t.val)); }
     }
-    
+    nnz = triples.size();
+
     double end = omp_get_wtime( );
     // printf("start = %.16g\nend = %.16g\ndiff = %.16g\n", start, end, end - start);
     printf("Converting matrix data from ASCII to COO format: %.16g seconds\n", end - start);
     std::cout << "Input Matrix: Rows = " << m << ", Columns= " << n << ", nnz = " << nnz << std::endl;
 
     cout << "Converting to csc ... " << endl << endl;
-    csc= *(new CSC<IT,NT>(triples, nnz, m, n));
+    csc = CSC<IT,NT>(triples.data(), nnz, m, n);
     csc.totalcols = n;
-    delete [] triples;
     return 1;
 }
 
@@ -154,85 +127,59 @@ int ReadASCII_Triples(string	  filename,
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    while (getline(infile, line) && !line.empty() && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        if (line.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
-        c = infile.get();
     }
-    infile.unget();
 
 	if (remove_diags)
 		cout << "will remove diagonals from the matrix" << endl;
 
 	IT m,n,nnz;
-	infile.getline(line,256);
     std::stringstream ss{line};
-    ss >> m >> n >> nnz;
-	    
-    if (isSymmetric) {
-        nnz *= 2;
-    }
-
+    if (!infile || !(ss >> m >> n >> nnz) || m < 0 || n < 0 || nnz < 0 ||
+        (isSymmetric && m != n))
+	{
+		cerr << "Problem reading header of input file " << filename << endl;
+		return -1;
+	}
+
+	vector<Triple<IT,NT>> triples;
+	for (IT i = 0; i < nnz; ++i)
+	{
+		Triple<IT,NT> t;
+		if (!getline(infile, line) || !ParseCoordinate(line.c_str(), m, n, t))
+		{
+			cerr << "Problem reading entry " << i << " of input file " << filename << endl;
+			return -1;
+		}
+
+		if (rand_vals)
+			t.val = rand()%10 + 7;
+
+		if (remove_diags && t.row == t.col)
+			continue;
+
+		triples.push_back(t);
+		if (isSymmetric && t.row != t.col)
+			triples.push_back(Triple<IT,NT>(t.col, t.row, t.val));
+	}
+
+	nnz  = triples.size();
 	rids = new IT[nnz];
 	cids = new IT[nnz];
 	vals = new NT[nnz];
-    if (infile.is_open())
-    {
-        IT cnz = 0;
-        while (! infile.eof() && cnz < nnz)
-        {
-            infile.getline(line,256);
-            char *ch = line;
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-			}
-
-			if (rand_vals)
-				val = rand()%10 + 7;
-            
-			if (remove_diags && rid == cid)
-			{
-				--nnz;
-				if (isSymmetric)
-					--nnz;
-				continue;
-			}
-
-			rids[cnz] = rid-1;
-			cids[cnz] = cid-1;
-			vals[cnz] = val;
-            if (isSymmetric)
-			{
-                if (rids[cnz] != cids[cnz])
-				{
-					cnz++;
-					rids[cnz] = cids[cnz-1];
-					cids[cnz] = rids[cnz-1];
-					vals[cnz] = vals[cnz-1];
-                }
-                else
-                    nnz--;
-            }
-            ++cnz;
-        }
-        assert(cnz == nnz);
-    }
-    
+	for (IT i = 0; i < nnz; ++i)
+	{
+		rids[i] = triples[i].row;
+		cids[i] = triples[i].col;
+		vals[i] = triples[i].val;
+	}
+
     double end = omp_get_wtime( );
 
 	nr	  = m;
diff --git a/Triple.h b/Triple.h
index e645987..4136ec7 100644
--- a/Triple.h
+++ b/Triple.h
@@ -1,8 +1,12 @@
 #ifndef _TRIPLE_H_
 #define _TRIPLE_H_
 
+#include <cerrno>
+#include <cstdlib>
+#include <cstring>
 #include <functional>
 #include <iostream>
+#include <type_traits>
 using namespace std;
 
 template <class IT, class NT> struct Triple {
@@ -16,6 +20,45 @@ template <class IT, class NT> struct Triple {
   friend ostream &operator<<(ostream &os, const Triple<IU, NU> &trip);
 };
 
+// Parses one line "row column [value]" (one-based ids, default value 1) of a
+// coordinate file of an m-by-n matrix. Returns false if the line is malformed.
+template <typename IT, typename NT>
+bool ParseCoordinate(const char *line, IT m, IT n, Triple<IT, NT> &trip) {
+  char *end;
+  long long row = strtoll(line, &end, 10);
+  if (end == line || row < 1 || (unsigned long long)row > (unsigned long long)m)
+    return false;
+  char *ch = end;
+  long long col = strtoll(ch, &end, 10);
+  if (end == ch || col < 1 || (unsigned long long)col > (unsigned long long)n)
+    return false;
+  ch = end + strspn(end, " \t\r\n");
+  trip.row = (IT)(row - 1);
+  trip.col = (IT)(col - 1);
+  trip.val = NT(1);
+  if (*ch == '\0') // no value given
+    return true;
+  double real = strtod(ch, &end);
+  if (end == ch)
+    return false;
+  trip.val = (NT)real;
+  if (is_integral<NT>::value && strcspn(ch, ".eE") >= (size_t)(end - ch)) {
+    errno = 0; // integers may not fit a double
+    if (is_signed<NT>::value || *ch == '-') {
+      long long val = strtoll(ch, &end, 10);
+      trip.val = (NT)val;
+      if (errno == ERANGE || (long long)trip.val != val)
+        return false;
+    } else {
+      unsigned long long val = strtoull(ch, &end, 10);
+      trip.val = (NT)val;
+      if (errno == ERANGE || (unsigned long long)trip.val != val)
+        return false;
+    }
+  }
+  return end[strspn(end, " \t\r\n")] == '\0';
+}
+
 template <typename IU, typename NU>
 ostream &operator<<(ostream &os, const Triple<IU, NU> &trip) {
   os << trip.row << '/' << trip.col << '/' << trip.val;
diff --git a/grb_util.h b/grb_util.h
index 2e53512..2cacd33 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -756,8 +756,9 @@ read_grb_mtx
 	GrB_Index	*rids;
 	GrB_Index	*cids;
 	NT			*vals;
-	ReadASCII_Triples(fpath, m, n, nnz, rids, cids, vals,
-					  remove_diags, rand_vals);
+	if (ReadASCII_Triples(fpath, m, n, nnz, rids, cids, vals,
+						  remove_diags, rand_vals) != 1)
+		exit(1);
 	GrbMatrixBuild<NT>()(A, rids, cids, vals, m, n, nnz);
 	delete[] rids;
 	delete[] cids;
-- 
2.43.0


From f8e374c6662514df2cc92ff0bc19d0a9bd711031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:18 +0000
Subject: [PATCH 19/41] fix: conversion from and to GraphBLAS rejected
 iso-valued matrices and misread one-based ones

---
 CSC.h |  2 +-
 CSR.h | 19 +++++++------------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/CSC.h b/CSC.h
index 504e116..7a99eef 100644
--- a/CSC.h
+++ b/CSC.h
@@ -633,7 +633,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
diff --git a/CSR.h b/CSR.h
index 90fd839..4ac49c4 100644
--- a/CSR.h
+++ b/CSR.h
@@ -385,7 +385,6 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 				  "CSR matrix index type and GrB_Matrix index type "
 				  "must be the same");
 
-	bool			is_iso, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Index		nr, nc, nnz;
 	GrB_Descriptor	desc = NULL;
@@ -407,11 +406,9 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 						  &ap_size,
 						  &aj_size,
 						  &ax_size,
-						  &is_iso,
-						  &is_jumbled,
+						  NULL,	// expand iso-valued matrices
+						  NULL,	// force sorted output
 						  desc);
-	assert(!is_iso && "GraphBLAS matrix is iso-valued.");
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
     GrB_Descriptor_free(&desc);
 
@@ -434,7 +431,6 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
@@ -443,10 +439,9 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  NULL, NULL, // not iso-valued, sorted
 						  desc); // frees the graphblas matrix
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
-
+	GrB_Descriptor_free(&desc);
 
 	return;						  
 }
@@ -715,9 +710,9 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr; ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
@@ -809,7 +804,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From 8935d056c04e8cdca28b4d6437ff3a84ef4bbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 20/41] fix: PaRMAT's writer could miss the last notification
 and workers could wait for capacity forever

---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 PaRMAT/src/threadsafe_queue.hpp    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index ad27924..b0872e8 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -142,6 +142,9 @@ void threadsafe_queue<T>::push(T new_value)
 		tail->next=std::move(p);
 		tail=new_tail;
 	}
+	{	// A consumer that saw the queue empty still holds head_mutex until it waits: without this it could miss the notification.
+		std::lock_guard<std::mutex> head_lock(head_mutex);
+	}
 	data_cond.notify_one();
 }
 
-- 
2.43.0


From 57b8ba79c23ea041c7703b4f382608e0f319ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 21/41] fix: PaRMAT -sorted wrote no edges when there were
 fewer partitions than workers

---
 PaRMAT/src/GraphGen_sorted.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..95b7f08 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -154,7 +154,8 @@ bool GraphGen_sorted::GenerateGraph(
 					RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads. There can be fewer of them than nCPUWorkerThreads.
+		recIdx -= tasks_to_complete.size();
 		for( auto& task: tasks_to_complete ) {
 			task.get();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
@@ -190,7 +191,8 @@ bool GraphGen_sorted::GenerateGraph(
 					std::ref(rectagnleVecs.at(recIdx)), std::ref(threads_edges[recIdx%nCPUWorkerThreads]), RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads. There can be fewer of them than nCPUWorkerThreads.
+		recIdx -= threads.size();
 		for( auto& t: threads ) {
 			t.join();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
-- 
2.43.0


From 04eb700e1ed0428d00d51fee0b11e03c5890e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 22/41] fix: PaRMAT -noDuplicateEdges crashed on partitions
 without edges

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 PaRMAT/src/GraphGen_sorted.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..faa9307 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx+1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 95b7f08..c22e1f2 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() > 1 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From acd89c012d9cf073467f8fd855421decc30c5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 23/41] fix: PaRMAT computed negative edge shares when a
 quadrant's share is close to zero

---
 PaRMAT/src/Square.cpp |  9 +++++----
 PaRMAT/src/utils.cpp  | 13 +++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..dd36f8a 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -37,10 +37,11 @@ Square Square::Get_part( const unsigned int part, double a, double b, double c,
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
 
-	unsigned long long new_nEdges= 	(part==0) ? a_edge_share * nEdgeToGenerate :
-									(part==1) ? b_edge_share * nEdgeToGenerate :
-									(part==2) ? c_edge_share * nEdgeToGenerate :
-												d_edge_share * nEdgeToGenerate ;
+	auto edge_share =	(part==0) ? a_edge_share :
+						(part==1) ? b_edge_share :
+						(part==2) ? c_edge_share :
+									d_edge_share ;
+	unsigned long long new_nEdges = edge_share > 0 ? edge_share * nEdgeToGenerate : 0;	// Noise can make a share negative.
 	auto new_level = level+1;
 	auto new_index_h = ( recIndex_horizontal << 1 ) +	( ( part == 0 || part == 2 ) ? 0 : 1 );
 	auto new_index_v = ( recIndex_vertical << 1 )   +	( ( part == 0 || part == 1 ) ? 0 : 1 );
diff --git a/PaRMAT/src/utils.cpp b/PaRMAT/src/utils.cpp
index 5061d99..02baae7 100755
--- a/PaRMAT/src/utils.cpp
+++ b/PaRMAT/src/utils.cpp
@@ -82,10 +82,15 @@ void ShatterSquare( std::vector<Square>& square, const double a, const double b,
 		square.push_back(srcRect.Get_part( i, noise_a+a, noise_b+b, noise_c+c, noise_a_edge_share+a, noise_b_edge_share+b, noise_c_edge_share+c ));
 
 	// Renormalizing: making sure the number of edges still matches, otherwise multiplications with double may impact final total number of edges.
-	square.at(square.size()-1).setnEdges( 	srcRect.getnEdges() -
-													square.at(square.size()-2).getnEdges() -
-													square.at(square.size()-3).getnEdges() -
-													square.at(square.size()-4).getnEdges() );
+	// Noise can make the shares add up to more than there is.
+	auto nEdgesLeft = srcRect.getnEdges();
+	for( unsigned int i = 4; i > 1; --i ) {
+		auto& part = square.at(square.size()-i);
+		if( part.getnEdges() > nEdgesLeft )
+			part.setnEdges( nEdgesLeft );
+		nEdgesLeft -= part.getnEdges();
+	}
+	square.at(square.size()-1).setnEdges( nEdgesLeft );
 
 	if( !directedGraph ) {
 		if( srcRect.get_X_end() == srcRect.get_Y_end() ) {	// If the source rectangle is on the main diagonal, we should throw away the 2nd part (b).
-- 
2.43.0


From 9325bf055cbcee3d54e66321ffa1112035e42726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:13 +0000
Subject: [PATCH 24/41] fix: PaRMAT partitions shared boundary indices, so
 -noDuplicateEdges could repeat edges across partitions

---
 PaRMAT/src/Square.cpp | 6 ++++--
 PaRMAT/src/utils.cpp  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index dd36f8a..7456679 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>	// For std::min.
+
 #include "Square.hpp"
 
 bool Eligible_RNG_Rec( Square& rec, const unsigned long long nEdgesThreshold ) {
@@ -30,9 +32,9 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
+	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : std::min( ((X_start+X_end)>>1)+1, X_end ) ;	// Bounds are inclusive: parts must not share indices.
 	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
+	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : std::min( ((Y_start+Y_end)>>1)+1, Y_end ) ;
 	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
diff --git a/PaRMAT/src/utils.cpp b/PaRMAT/src/utils.cpp
index 02baae7..4cf62fc 100755
--- a/PaRMAT/src/utils.cpp
+++ b/PaRMAT/src/utils.cpp
@@ -139,6 +139,8 @@ bool edgeOverflow( std::vector<Square>& sqaures ) {
 	for( auto& rec : sqaures)
 		if( 3*rec.getnEdges() >= (rec.get_X_end()-rec.get_X_start())*(rec.get_Y_end()-rec.get_Y_start()) )	// 3 is experimental. It tells if the size of square is less than 3 times the number of edges, square shouldn't be shattered.
 			return true;
+		else if( rec.get_X_end()-rec.get_X_start() < 3 || rec.get_Y_end()-rec.get_Y_start() < 3 )	// Parts of a single vertex have no room for edges to other vertices.
+			return true;
 
 	return false;
 }
-- 
2.43.0


From 1849e9dbc8a80cea6a15479263900cd1b4c0a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 25/41] fix: PaRMAT reported success when writing the output
 file failed

---
 PaRMAT/src/PaRMAT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PaRMAT/src/PaRMAT.cpp b/PaRMAT/src/PaRMAT.cpp
index df227fc..504bdfb 100755
--- a/PaRMAT/src/PaRMAT.cpp
+++ b/PaRMAT/src/PaRMAT.cpp
@@ -149,6 +149,10 @@ int main( int argc, char ** argv ) {
 			return( EXIT_FAILURE );
 		}
 
+		outf.close();
+		if( !outf )
+			throw std::runtime_error( "Failed to write to the output file." );
+
 		std::cout << "Done." << std::endl;
 		return( EXIT_SUCCESS );
 
-- 
2.43.0


From 52ebe8654391caa538cf4ea8e770d73248324706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 26/41] fix: outer-product SpGEMM sort key lost bits of rows
 and columns beyond 12 and 20

---
 outer_mult.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/outer_mult.h b/outer_mult.h
index bd4ae5b..2458256 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -19,6 +19,7 @@ using namespace std;
 
 static uint32_t nrows_of_A;
 static uint32_t nrows_per_blocker;
+static bool narrow_keys; // ExtractKey2 keeps 12 bits of the row and 20 bits of the column
 // static int *rows_to_blockers;
 // static int *flops_by_row_blockers;
 #define TBB true
@@ -168,7 +169,10 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 template <typename IT, typename NT>
 inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
 {
-    radix_sort(begin, end, buffer, ExtractKey2());
+    if (narrow_keys)
+        radix_sort(begin, end, buffer, ExtractKey2());
+    else
+        radix_sort(begin, end, buffer, ExtractKey());
     // sort(begin, end, compareTuple<IT, NT>);
 }
 
@@ -220,6 +224,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     const uint16_t block_width = nblockchars;
     nrows_of_A = A.rows;
 	nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
+    narrow_keys = nrows_per_blocker <= (1 << 12) && B.cols <= (1 << 20);
 
     IT total_flop = 0;
 
-- 
2.43.0


From 525d20f6549efd50e811a2d72d598b798f99fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 27/41] fix: masked SpGEMM row partition overflowed when the
 total work exceeds the index type

---
 spgemm-blocks/common.h                  | 29 ++++++++++++++-----------
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 12 +++++-----
 spgemm-blocks/masked-spgemm-inner.h     | 12 +++++-----
 spgemm-blocks/masked-spgemm-poly.h      |  4 ++--
 spgemm-blocks/masked-spgemm-prof.h      |  4 ++--
 spgemm-blocks/masked-spgemm.h           |  8 +++----
 spgemm-blocks/scan.h                    |  8 +++----
 7 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..6dcb8a7 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -1,6 +1,8 @@
 #ifndef MASKED_SPGEMM_COMMON_H
 #define MASKED_SPGEMM_COMMON_H
 
+#include <cstdint>
+
 void setNumThreads(unsigned &numThreads) {
     if (numThreads == 0) {
 #pragma omp parallel default(none) shared(numThreads)
@@ -20,9 +22,10 @@ void verifyInputs(const AT<IT, NT> &A, const BT<IT, NT> &B, const CT<IT, NT> &C,
     assert(M.cols == B.cols);
 }
 
+// Totals are kept in int64_t: they may exceed the index type although the matrices do not.
 template<typename IT, typename NT>
-IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
-    IT nops = 0; // total multiplications needed to generate C
+int64_t calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
+    int64_t nops = 0; // total multiplications needed to generate C
 
     if (numThreads == 0) {
         numThreads = omp_get_max_threads();
@@ -43,8 +46,8 @@ IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads =
 }
 
 template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+int64_t calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, int numThreads) {
+    int64_t flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
@@ -62,8 +65,8 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, i
 }
 
 template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+int64_t calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *flopsPerRow, int numThreads) {
+    int64_t flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
@@ -83,12 +86,12 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT>
 }
 
 template<typename IT, typename NT>
-IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, IT *workPerRow, int numThreads) {
-    IT work = 0;
+int64_t calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, int64_t *workPerRow, int numThreads) {
+    int64_t work = 0;
 
 #pragma omp parallel for reduction(+:work) num_threads(numThreads)
     for (IT i = 0; i < M.rows; ++i) {
-        IT workRow = 0;
+        int64_t workRow = 0;
         for (IT j = M.rowptr[i]; j < M.rowptr[i + 1]; ++j) {
             IT lenA = A.rowptr[i + 1] - A.rowptr[i];
             IT lenB = B.colptr[M.colids[j] + 1] - B.colptr[M.colids[j]];
@@ -103,8 +106,8 @@ IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &
 
 
 template<class IT>
-std::tuple<IT, IT> distributeWork(IT totalWork, IT *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
-    IT workPerThread = totalWork / numThreads;
+std::tuple<IT, IT> distributeWork(int64_t totalWork, int64_t *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
+    int64_t workPerThread = totalWork / numThreads;
 
     // @formatter:off
     IT rowBegin = thisThread != 0              ? (lower_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * thisThread))       - accumWorkPerRow : 0;
@@ -125,9 +128,9 @@ IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
 }
 
 template<bool complemented, bool calcUpperBoundSizeC, bool calcMaxRowSizeA, bool calcMaxRowSizeM, bool calcMaxRowFlops, class IT, class NT>
-std::tuple<IT, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
+std::tuple<size_t, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
                                   const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-    IT sizeC = 0;
+    size_t sizeC = 0;
     IT maxRowSizeM = 0;
     IT maxRowSizeA = 0;
     IT maxRowFlops = 0;
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index ce4de35..c86962a 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -18,11 +18,11 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    int64_t *workPerRow = my_malloc<int64_t>(M.rows, false);
+    int64_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -115,11 +115,11 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    int64_t *workPerRow = my_malloc<int64_t>(M.rows, false);
+    int64_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 1e2ef5c..8cf2ce4 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -14,11 +14,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    int64_t *workPerRow = my_malloc<int64_t>(M.rows, false);
+    int64_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -82,11 +82,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    int64_t *workPerRow = my_malloc<int64_t>(M.rows, false);
+    int64_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 9f41519..2b56a9a 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -11,10 +11,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
+    int64_t flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-prof.h b/spgemm-blocks/masked-spgemm-prof.h
index 9967dae..d02055e 100644
--- a/spgemm-blocks/masked-spgemm-prof.h
+++ b/spgemm-blocks/masked-spgemm-prof.h
@@ -14,10 +14,10 @@ void MaskedSpGEMM1p_prof(long *rowTimes, const CSR<IT, NT> &A, const CSR<IT, NT>
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = calculateFlops(A, B, flopsPerRow, numThreads);
+    int64_t flops = calculateFlops(A, B, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index f3204d9..275f050 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -26,11 +26,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+    int64_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
                             : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -109,11 +109,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+    int64_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
                             : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    int64_t *cumulativeWork = my_malloc<int64_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index 23beee5..0caacb8 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -56,8 +56,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     my_free(partialSums);
 }
 
-template<class T>
-void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partialSums) {
+template<class S, class T>
+void exclusiveScan(const S *src, size_t size, T *dst, int numThreads, T *partialSums) {
     int threadId = omp_get_thread_num();
     size_t elemPerThread = size / numThreads;
     size_t start = threadId * elemPerThread;
@@ -82,8 +82,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
     }
 }
 
-template<class T>
-void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+template<class S, class T>
+void exclusiveScan(const S *src, size_t size, T *dst, int numThreads) {
     if (size == 0) { return; }
 
     // If the input is small or if numThreads is 1, use sequential code
-- 
2.43.0


From 157c43ec59511fdda109eeb5bed86ff2d3b92e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 28/41] fix: BIN row partition overflowed when the total work
 exceeds the index type

---
 BIN.h     |  8 ++++----
 utility.h | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BIN.h b/BIN.h
index 85a4949..5333f0a 100644
--- a/BIN.h
+++ b/BIN.h
@@ -89,7 +89,7 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 #pragma omp parallel num_threads(thread_num)
     {
         int i;
-        IT each_int_prod = 0;
+        long long int each_int_prod = 0;
 #pragma omp for
         for (i = 0; i < rows; ++i) {
             int j;
@@ -108,12 +108,12 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 template <class IT, class NT>
 inline void BIN<IT, NT>::set_rows_offset(const IT rows)
 {
-    IT *ps_row_nz = my_malloc<IT>(rows + 1);
+    long long int *ps_row_nz = my_malloc<long long int>(rows + 1);
 
     /* Prefix sum of #intermediate products */
     scan(row_nz, ps_row_nz, rows + 1);
 
-    IT average_intprod = (total_intprod + thread_num - 1) / thread_num;
+    long long int average_intprod = (total_intprod + thread_num - 1) / thread_num;
     // long long int average_intprod = total_intprod / thread_num;
 
     /* Search end point of each range */
@@ -125,7 +125,7 @@ inline void BIN<IT, NT>::set_rows_offset(const IT rows)
         // if (tid == thread_num - 1) rows_offset[tid + 1] = rows;
     }
     rows_offset[thread_num] = rows;
-    my_free<IT>(ps_row_nz);
+    my_free<long long int>(ps_row_nz);
 }
 
 template <class IT, class NT>
diff --git a/utility.h b/utility.h
index 0d11773..e6c88a3 100644
--- a/utility.h
+++ b/utility.h
@@ -168,7 +168,7 @@ inline void my_free(T *a, Ts *...as) {
 }
 
 // Prefix sum (Sequential)
-template <typename T> void seq_scan(T *in, T *out, T N) {
+template <typename T, typename S> void seq_scan(T *in, S *out, T N) {
   out[0] = 0;
   for (T i = 0; i < N - 1; ++i) {
     out[i + 1] = out[i] + in[i];
@@ -176,7 +176,7 @@ template <typename T> void seq_scan(T *in, T *out, T N) {
 }
 
 // Prefix sum (Thread parallel)
-template <typename T> void scan(T *in, T *out, T N) {
+template <typename T, typename S> void scan(T *in, S *out, T N) {
   // if the array is comparatively small, use sequential scan instead
   if (N < (1 << 17)) {
     seq_scan(in, out, N);
@@ -184,7 +184,7 @@ template <typename T> void scan(T *in, T *out, T N) {
     int tnum = 1;
 #pragma omp parallel
     { tnum = omp_get_num_threads(); }
-    T *partial_sum = my_malloc<T>(tnum);
+    S *partial_sum = my_malloc<S>(tnum);
 #pragma omp parallel num_threads(tnum)
     {
       // thead level prefix summing
@@ -201,7 +201,7 @@ template <typename T> void scan(T *in, T *out, T N) {
       if (tid < team - 1) { partial_sum[tid] = out[end - 1] + in[end - 1]; }
 #pragma omp barrier
 
-      T offset = 0;
+      S offset = 0;
       for (int i = 0; i < tid; ++i) {
         offset += partial_sum[i];
       }
@@ -209,7 +209,7 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i] += offset;
       }
     }
-    my_free<T>(partial_sum);
+    my_free<S>(partial_sum);
   }
 }
 
-- 
2.43.0


From 592b1b503845aaece8dced0c9253c5e43d81d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 29/41] fix: generic heap SpGEMM row partition overflowed when
 the total work exceeds the index type

---
 heap_mult_generic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 855cd9a..9949034 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -740,7 +740,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     IT *maxnnzc = my_malloc<IT>(A.rows);
     long long int flops = tmp::getFlop(A, B, maxnnzc) / 2;
 
-    IT *rowStart = my_malloc<IT>(A.rows); //start index in the global array for storing ith column of C
+    long long int *rowStart = my_malloc<long long int>(A.rows); //start index in the global array for storing ith column of C
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
     rowStart[0] = 0;
@@ -756,7 +756,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     {
         int thisThread = omp_get_thread_num();
         int teamSize = omp_get_num_threads(); // may be smaller than requested
-        IT flopsPerThread = flops / teamSize; // amount of work that will be assigned to each thread
+        long long int flopsPerThread = flops / teamSize; // amount of work that will be assigned to each thread
 
         // @formatter:off
         IT rowBegin = thisThread != 0 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * thisThread)) - rowStart : 0;
@@ -812,7 +812,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free<IT>(maxnnzc);
-    my_free<IT>(rowStart);
+    my_free<long long int>(rowStart);
     my_free<IT>(rowNvals);
 }
 
-- 
2.43.0


From 778c0c99c884af802788cbb28fa1e055ede081b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:54 +0000
Subject: [PATCH 30/41] fix: generic heap and outer-product SpGEMM leaked work
 arrays

---
 heap_mult_generic.h | 1 +
 outer_mult.h        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 9949034..9463a54 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -814,6 +814,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     my_free<IT>(maxnnzc);
     my_free<long long int>(rowStart);
     my_free<IT>(rowNvals);
+    my_free<IT>(threadsNvals);
 }
 
 template<class RowAlgorithm, typename IT, typename NT, typename MultiplyOperation, typename AddOperation>
diff --git a/outer_mult.h b/outer_mult.h
index 2458256..03cc0f7 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -375,6 +375,8 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     C.nnz = total_nnz;
 
     my_free<IT>(flops_by_row_blockers);
+    my_free<IT>(flops_by_rows);
+    my_free<IT>(global_blocker_counters);
     my_free<IT>(nnz_by_row);
     my_free<IT>(nnz_per_row_blocker);
     my_free<IT>(cumulative_row_indices);
-- 
2.43.0


From acabf81b160ac95951ad92e7bf40fb0245a01bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:54 +0000
Subject: [PATCH 31/41] fix: earlier-generation and unmasked SpGEMM leaked or
 added to the previous contents of the output

---
 hash_mult_hw.h      | 1 +
 heap_mult.h         | 9 ++++-----
 heap_mult_generic.h | 3 ++-
 inner_mult.h        | 1 +
 mask_hash_mult.h    | 2 ++
 outer_mult.h        | 9 ++++-----
 spa_mult.h          | 1 +
 7 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f59eba8..17bb987 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -183,6 +183,7 @@ void HashSpGEMM(const CSR<IT, NT> &a, const CSR<IT, NT> &b, CSR<IT, NT> &c, Mult
 {
     BIN<IT, NT> bin(a.rows, IMB_PWMIN, threadCount);
 
+    c.make_empty();
     c.rows = a.rows;
     c.cols = b.cols;
     c.zerobased = true;
diff --git a/heap_mult.h b/heap_mult.h
index e34bf5e..b858fcc 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -170,13 +170,12 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 
     my_free<IT>(threadHeapSize);
 
-    if (C.isEmpty()) {
-        C.make_empty();
-    }
+    const IT nrows = A.rows, ncols = B.cols; // C may be A or B
+    C.make_empty();
 
     // ************************ Copy output to C *************************************
-    C.rows = A.rows;
-    C.cols = B.cols;
+    C.rows = nrows;
+    C.cols = ncols;
 
     C.colptr = my_malloc<IT>(C.cols + 1);
     C.colptr[0] = 0;
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 9463a54..94e6e78 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -732,9 +732,10 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         numThreads = omp_get_num_threads();
     }
 
-    if (!C.isEmpty()) { C.make_empty(); }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
+    C.zerobased = true;
 
     // Load-balancing Thread Scheduling
     IT *maxnnzc = my_malloc<IT>(A.rows);
diff --git a/inner_mult.h b/inner_mult.h
index ebdd13d..e924c7d 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -135,6 +135,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     //shrink C
 
     //* sequentially create global rowptr for final shrinked C*
+    C_final.make_empty();
     for (IT i = 0; i < C.rows; ++i)
          C_final.nnz += rownnz[i];
     
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 09730d9..9ab2061 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -41,6 +41,7 @@ mxm_hash_mask
     unsigned threadCount
 )
 {
+	C.make_empty();
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
@@ -174,6 +175,7 @@ mxm_hash_mask_wobin
     unsigned threadCount
 )
 {
+	C.make_empty();
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
diff --git a/outer_mult.h b/outer_mult.h
index 03cc0f7..bc78011 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -341,12 +341,11 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
+    const IT ncols = B.cols; // C may be B
+    C.make_empty();
     C.rows = A.rows;
-    C.cols = B.cols;
+    C.cols = ncols;
+    C.zerobased = true;
 
     C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
     C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
diff --git a/spa_mult.h b/spa_mult.h
index 558d205..4502216 100644
--- a/spa_mult.h
+++ b/spa_mult.h
@@ -12,6 +12,7 @@ template <typename IT, typename NT, typename MultiplyOperation, typename AddOper
 void MaskedSPASpGEMM(const CSR<IT, NT> & A, const CSR<IT, NT> & B, CSR<IT, NT> & C, const CSR<IT, NT> & Mask,
                MultiplyOperation multop, AddOperation addop, unsigned threadCount)
 {
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
     C.zerobased = true;
-- 
2.43.0


From 98ec37d9c3a54b87ff5745d66b3202c85520517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 32/41] fix: outer-product SpGEMM kept its block size in
 file-scope variables, so concurrent calls sorted with each other's keys

---
 outer_mult.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index bc78011..7bfdc88 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -17,9 +17,6 @@
 
 using namespace std;
 
-static uint32_t nrows_of_A;
-static uint32_t nrows_per_blocker;
-static bool narrow_keys; // ExtractKey2 keeps 12 bits of the row and 20 bits of the column
 // static int *rows_to_blockers;
 // static int *flops_by_row_blockers;
 #define TBB true
@@ -128,8 +125,11 @@ struct ExtractKey
 };
 
 
+// keeps 12 bits of the row and 20 bits of the column
 struct ExtractKey2
 {
+    uint32_t nrows_per_blocker;
+
     inline uint32_t operator()(tuple<int32_t, int32_t, double> tup)
     {
         // 32768 for S23
@@ -167,10 +167,11 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer,
+                        uint32_t nrows_per_blocker, bool narrow_keys)
 {
     if (narrow_keys)
-        radix_sort(begin, end, buffer, ExtractKey2());
+        radix_sort(begin, end, buffer, ExtractKey2{nrows_per_blocker});
     else
         radix_sort(begin, end, buffer, ExtractKey());
     // sort(begin, end, compareTuple<IT, NT>);
@@ -222,9 +223,8 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     const uint16_t nthreads = omp_get_max_threads();
     uint16_t num_blockers = nblockers;
     const uint16_t block_width = nblockchars;
-    nrows_of_A = A.rows;
-	nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
-    narrow_keys = nrows_per_blocker <= (1 << 12) && B.cols <= (1 << 20);
+	const uint32_t nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
+    const bool narrow_keys = nrows_per_blocker <= (1 << 12) && B.cols <= (1 << 20);
 
     IT total_flop = 0;
 
@@ -330,7 +330,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             // uint16_t my_blocker_id = scheduling_order[row_blocker_id].second;
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer);
+                        sorting_buffer, nrows_per_blocker, narrow_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
-- 
2.43.0


From 1ee9e79af57b400ccaf40ba129f21eaca96b2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:04 +0000
Subject: [PATCH 33/41] fix: the graph generators' heap sort read past the keys
 and skipped the last parent, so odd edge counts came out unsorted

---
 GTgraph/R-MAT/utils.c  | 4 ++--
 GTgraph/SSCA2/utils.c  | 4 ++--
 GTgraph/random/utils.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..13b6735 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index cf02a7a..bca529f 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -177,8 +177,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index a9cb33b..3609f07 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -173,8 +173,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From d7e7f387ded1442fe5fc7d1078c5097fbfd57023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 34/41] fix: the graph generators reported success after
 failing to write the graph file

---
 GTgraph/R-MAT/graph.c  |  3 ++-
 GTgraph/R-MAT/utils.c  | 21 ++++++++++++++++++++-
 GTgraph/R-MAT/utils.h  |  2 ++
 GTgraph/SSCA2/utils.c  | 21 ++++++++++++++++++++-
 GTgraph/SSCA2/utils.h  |  2 ++
 GTgraph/random/graph.c |  5 +++--
 GTgraph/random/utils.c | 23 ++++++++++++++++++++++-
 GTgraph/random/utils.h |  2 ++
 8 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/graph.c b/GTgraph/R-MAT/graph.c
index e0a7f8d..32f486c 100644
--- a/GTgraph/R-MAT/graph.c
+++ b/GTgraph/R-MAT/graph.c
@@ -29,6 +29,7 @@ void graphGen(graph* g)
 	if ((STORE_IN_MEMORY == 0) && (SORT_EDGELISTS == 0)) {
 		fprintf(stderr, "Generating edges 'on the fly' and writing to %s\n", OUTFILE);
 		outfp = fopen(OUTFILE, "w");
+		checkOutput(outfp != NULL);
                 fprintf(outfp, "c FILE			: %s\n", OUTFILE);
                 fprintf(outfp, "c No. of vertices	: %ld\n", n);
 		/* Leave a blank line to fill in the no. of edges later */
@@ -64,7 +65,7 @@ void graphGen(graph* g)
 			
 		}
 
-		fclose(outfp);
+		closeOutput(outfp);
                 fprintf(stderr, "done\n");
 
                 free(stream1);
diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 13b6735..cac8c54 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -1,5 +1,23 @@
 #include "utils.h"
 
+/* An incomplete output file must not look like a success */
+void checkOutput(int ok) {
+
+	if (!ok) {
+		fprintf(stderr, "Unable to write %s\n", OUTFILE);
+		exit(-1);
+	}
+}
+
+void closeOutput(FILE* outfp) {
+
+	int failed = ferror(outfp);
+
+	if (fclose(outfp) != 0)
+		failed = 1;
+	checkOutput(!failed);
+}
+
 void writeToFile(graph* g) {
 
 	FILE* outfp;
@@ -8,6 +26,7 @@ void writeToFile(graph* g) {
 	if ((WRITE_TO_FILE) && (STORE_IN_MEMORY == 1)) {
 		fprintf(stderr, "Writing to file ... ");
 		outfp = fopen(OUTFILE, "w");
+		checkOutput(outfp != NULL);
 		fprintf(outfp, "c FILE			: %s\n", OUTFILE);
 		fprintf(outfp, "c No. of vertices	: %ld\n", g->n);
 		fprintf(outfp, "c No. of directed edges	: %ld\n", g->m); 
@@ -20,7 +39,7 @@ void writeToFile(graph* g) {
 		for (i=0; i<g->m; i++)
 			fprintf(outfp, "a %ld %ld %ld\n", g->start[i]+1, \
 					g->end[i]+1, g->w[i]);
-		fclose(outfp);
+		closeOutput(outfp);
 		fprintf(stderr, "done\n");	
 	}
 }
diff --git a/GTgraph/R-MAT/utils.h b/GTgraph/R-MAT/utils.h
index f777322..e292b6b 100644
--- a/GTgraph/R-MAT/utils.h
+++ b/GTgraph/R-MAT/utils.h
@@ -10,6 +10,8 @@
 
 #define bits(x,k,j) ((x>>k) & ~(~0<<j))
 
+void checkOutput(int);
+void closeOutput(FILE*);
 void writeToFile(graph*);
 void updateLog(void);
 void countingSort(LONG_T*, LONG_T*, WEIGHT_T*, LONG_T);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index bca529f..da3dc8e 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -1,5 +1,23 @@
 #include "utils.h"
 
+/* An incomplete output file must not look like a success */
+void checkOutput(int ok) {
+
+	if (!ok) {
+		fprintf(stderr, "Unable to write %s\n", OUTFILE);
+		exit(-1);
+	}
+}
+
+void closeOutput(FILE* outfp) {
+
+	int failed = ferror(outfp);
+
+	if (fclose(outfp) != 0)
+		failed = 1;
+	checkOutput(!failed);
+}
+
 void writeToFile(graph* g) {
 
 	FILE* outfp;
@@ -8,6 +26,7 @@ void writeToFile(graph* g) {
 	if (WRITE_TO_FILE) {
 		fprintf(stderr, "Writing to file ... ");
 		outfp = fopen(OUTFILE, "w");
+		checkOutput(outfp != NULL);
 		fprintf(outfp, "c FILE			: %s\n", OUTFILE);
 		fprintf(outfp, "c No. of vertices	: %ld\n", g->n);
 		fprintf(outfp, "c No. of directed edges	: %ld\n", g->m); 
@@ -20,7 +39,7 @@ void writeToFile(graph* g) {
 		for (i=0; i<g->m; i++)
 			fprintf(outfp, "a %ld %ld %ld\n", g->start[i]+1, \
 					g->end[i]+1, g->w[i]);
-		fclose(outfp);
+		closeOutput(outfp);
 		fprintf(stderr, "done\n");	
 	}
 }
diff --git a/GTgraph/SSCA2/utils.h b/GTgraph/SSCA2/utils.h
index f777322..e292b6b 100644
--- a/GTgraph/SSCA2/utils.h
+++ b/GTgraph/SSCA2/utils.h
@@ -10,6 +10,8 @@
 
 #define bits(x,k,j) ((x>>k) & ~(~0<<j))
 
+void checkOutput(int);
+void closeOutput(FILE*);
 void writeToFile(graph*);
 void updateLog(void);
 void countingSort(LONG_T*, LONG_T*, WEIGHT_T*, LONG_T);
diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 5d83caa..e83f29a 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -26,6 +26,7 @@ void graphGen(graph* g)
 	if ((STORE_IN_MEMORY == 0) && (SORT_EDGELISTS == 0)) {
 		fprintf(stderr, "Generating edges on the fly\n");
 		outfp = fopen(OUTFILE, "w");
+		checkOutput(outfp != NULL);
                 fprintf(outfp, "c FILE			: %s\n", OUTFILE);
                 fprintf(outfp, "c No. of vertices	: %ld\n", n);
 		if (GRAPH_MODEL == 1) 
@@ -63,7 +64,7 @@ void graphGen(graph* g)
 			}
 
 			m = numEdges;	
-			fclose(outfp);
+			closeOutput(outfp);
 			fprintf(stderr, "done\n");
 			updateEdgeVal(OUTFILE, numEdges);			
 
@@ -88,7 +89,7 @@ void graphGen(graph* g)
                                
                         }
 
-			fclose(outfp);
+			closeOutput(outfp);
                         fprintf(stderr, "done\n");
 	
 		}	
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index 3609f07..48b0236 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -1,5 +1,23 @@
 #include "utils.h"
 
+/* An incomplete output file must not look like a success */
+void checkOutput(int ok) {
+
+	if (!ok) {
+		fprintf(stderr, "Unable to write %s\n", OUTFILE);
+		exit(-1);
+	}
+}
+
+void closeOutput(FILE* outfp) {
+
+	int failed = ferror(outfp);
+
+	if (fclose(outfp) != 0)
+		failed = 1;
+	checkOutput(!failed);
+}
+
 void writeToFile(graph* g) {
 
 	FILE* outfp;
@@ -8,6 +26,7 @@ void writeToFile(graph* g) {
 	if ((WRITE_TO_FILE) && (STORE_IN_MEMORY == 1)) {
 		fprintf(stderr, "Writing to file ... ");
 		outfp = fopen(OUTFILE, "w");
+		checkOutput(outfp != NULL);
 		fprintf(outfp, "c FILE			: %s\n", OUTFILE);
 		fprintf(outfp, "c No. of vertices	: %ld\n", g->n);
 		fprintf(outfp, "c No. of directed edges	: %ld\n", g->m); 
@@ -20,7 +39,7 @@ void writeToFile(graph* g) {
 		for (i=0; i<g->m; i++)
 			fprintf(outfp, "a %ld %ld %ld\n", g->start[i]+1, \
 					g->end[i]+1, g->w[i]);
-		fclose(outfp);
+		closeOutput(outfp);
 		fprintf(stderr, "done\n");	
 	}
 }
@@ -231,6 +250,7 @@ void updateEdgeVal(char* FILENAME, LONG_T numEdges) {
 	char line[100];
 
 	outfp = fopen(FILENAME, "r+");
+	checkOutput(outfp != NULL);
 
 	m = numEdges;
 
@@ -245,4 +265,5 @@ void updateEdgeVal(char* FILENAME, LONG_T numEdges) {
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fprintf(outfp, "p sp %ld %ld", n, numEdges);
+	closeOutput(outfp);
 }
diff --git a/GTgraph/random/utils.h b/GTgraph/random/utils.h
index c4e68ac..367a2b9 100644
--- a/GTgraph/random/utils.h
+++ b/GTgraph/random/utils.h
@@ -10,6 +10,8 @@
 
 #define bits(x,k,j) ((x>>k) & ~(~0<<j))
 
+void checkOutput(int);
+void closeOutput(FILE*);
 void writeToFile(graph*);
 void updateLog(void);
 void updateEdgeVal(char*, LONG_T);
-- 
2.43.0


From 9aafe5aa03b4a68a794e3cdc91b29602464f2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 35/41] fix: SSCA2 ignored the documented configuration
 parameter ProbIntercliqueEdges

---
 GTgraph/SSCA2/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 49df9c4..d317e30 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -153,7 +153,8 @@ void getParamsFromFile(char* configfile) {
 			MinWeight = (WEIGHT_T) val;
 		} else if (strcmp(var,"ProbUnidirectional")==0) {
 			ProbUnidirectional = (double) val;
-		} else if (strcmp(var,"ProbInterClEdges")==0) {
+		} else if ((strcmp(var,"ProbIntercliqueEdges")==0) ||
+			   (strcmp(var,"ProbInterClEdges")==0)) {
 			ProbIntercliqueEdges = (double) val;
 		} else if (strcmp(var,"MaxParallelEdges")==0) {
 			MaxParallelEdges = (LONG_T) val;
-- 
2.43.0


From 2c5f4d8d58279a5a3c5b3d45e12e3f163695ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:26 +0000
Subject: [PATCH 36/41] fix: graph generators wrote past the edge arrays when a
 graph had more edges than estimated

---
 GTgraph/SSCA2/graph.c  | 16 ++++++++++++++++
 GTgraph/random/graph.c |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 7dbf877..cf7ee86 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -1,5 +1,16 @@
 #include "graph.h"
 
+/* The number of edges is only estimated: make room for one more edge */
+static void growEdges(LONG_T** startV, LONG_T** endV, LONG_T* size, LONG_T edgeNum)
+{
+
+	if (edgeNum < *size)
+		return;
+	*size += *size/2 + 16;
+	*startV = (LONG_T *) realloc(*startV, *size * sizeof(LONG_T));
+	*endV = (LONG_T *) realloc(*endV, *size * sizeof(LONG_T));
+}
+
 void graphGen(graph* g)
 {
 
@@ -103,6 +114,7 @@ void graphGen(graph* g)
 				if (sprng(stream) >= p) {
 					/* generate edges in both directions */
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+						growEdges(&startV, &endV, &estNumEdges, edgeNum);
 						startV[edgeNum] = i + \
 							firstVsInCluster[i_cluster];
 						endV[edgeNum] = j + \
@@ -110,6 +122,7 @@ void graphGen(graph* g)
 						edgeNum++;
 					}
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+						growEdges(&startV, &endV, &estNumEdges, edgeNum);
 						startV[edgeNum] = j + \
 							firstVsInCluster[i_cluster];
                                         	endV[edgeNum] = i + \
@@ -122,6 +135,7 @@ void graphGen(graph* g)
 					 * one direction */
 					if (sprng(stream) > 0.5) {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {	
+							growEdges(&startV, &endV, &estNumEdges, edgeNum);
 							startV[edgeNum] = i + \
 							firstVsInCluster[i_cluster];
 							endV[edgeNum] = j + \
@@ -130,6 +144,7 @@ void graphGen(graph* g)
 						}
 					} else {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+							growEdges(&startV, &endV, &estNumEdges, edgeNum);
 							startV[edgeNum] = j + \
 							firstVsInCluster[i_cluster];	
 							endV[edgeNum] = i + \
@@ -187,6 +202,7 @@ void graphGen(graph* g)
 				
 				for (k=0; k<1+((LONG_T) (MaxParallelEdges - 1)* sprng(stream)); k++) {
 					if (p > sprng(stream)) {
+						growEdges(&startV, &endV, &estNumEdges, edgeNum);
 						startV[edgeNum] = i;
 						endV[edgeNum] = j;
 						edgeNum++;	
diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index e83f29a..61fc913 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -125,6 +125,12 @@ void graphGen(graph* g)
 
                                 if (p > sprng(stream1)) {
 
+					if (edgeNum == estNumEdges) {
+						/* more edges than estimated */
+						estNumEdges += estNumEdges/2 + 16;
+						startVertex = (LONG_T *) realloc(startVertex, estNumEdges * sizeof(LONG_T));
+						endVertex   = (LONG_T *) realloc(endVertex, estNumEdges * sizeof(LONG_T));
+					}
 					startVertex[edgeNum] = i; 
 					endVertex[edgeNum]   = j;
 					edgeNum++;
-- 
2.43.0


From 5dd84f1cb4a06572a199ce5cebe53165d483728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 37/41] fix: SSCA2 generator failed for cliques of one vertex
 and for graphs smaller than the cliques

---
 GTgraph/SSCA2/graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index cf7ee86..635803b 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -45,7 +45,9 @@ void graphGen(graph* g)
 
   	/* Estimate number of clusters required to make up 
 	 * TotVertices and pad by 25% */
-	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize/2);
+	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize > 1 ? MaxCliqueSize/2 : 1);
+	if (estTotClusters < 1)
+		estTotClusters = 1;
 	
 	/* Allocate a block of memory for this cluster-size array */
 	clusterSizes = (LONG_T *) malloc(estTotClusters*sizeof(LONG_T));
-- 
2.43.0


From 831187a049539dc68a152d9fb28391085d5843a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 38/41] fix: SPRNG's lagged Fibonacci generator initialised
 every stream with the register length of the first one

initialize() bounded its loop by the global lval instead of the length of the
stream at hand: streams depended on which generator had been created first, and
shorter ones were read past their start vector.
---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 4122633..569f07a 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -544,7 +544,7 @@ unsigned *nstart, seed, initseed;
   for (i=ngen-1;i>=0;i--) 
   {
     k = 0;
-    for (j=1;j<lval-1;j++)
+    for (j=1;j<length-1;j++)
       if (q[i]->si[j]) 
 	k = 1;
     if (!k) 
-- 
2.43.0


From 999cb2fb152a514e75515025bd5b9ae1df4970fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 39/41] fix: SPRNG's lagged Fibonacci generator reported the
 first stream's seed for every stream

---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 569f07a..1512feb 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -731,7 +731,7 @@ int get_seed_rng(gen)
 int *gen;
 #endif
 {
-        return(GS0^gseed);
+        return ((struct rngen *) gen)->init_seed;
 }
 
  
-- 
2.43.0


From 937ceb4b619b5c0d85c061222e234ed88e40b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 40/41] fix: SPRNG's multiplicative lagged Fibonacci generator
 leaked its start vector with every stream created

---
 GTgraph/sprng2.0-lite/src/mlfg/mlfg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
index 770eff8..5929d44 100755
--- a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
+++ b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
@@ -483,6 +483,7 @@ int rng_type,gennum,param,seed,total_gen;
     seti(0,nstart[i]);
 
   p = initialize(rng_type, 1,param,seed^GS0,nstart,seed);  /* create a generator  */
+  free(nstart);
   if (p==NULL) 
     return NULL;
   else
-- 
2.43.0


From 4b95b3aec6ed93b671152480fe65def447626620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:11 +0000
Subject: [PATCH 41/41] fix: sprng: streams spawned after a partly failed spawn
 repeated earlier ones

---
 GTgraph/sprng2.0-lite/src/cmrg/cmrg.c   | 5 +++--
 GTgraph/sprng2.0-lite/src/lcg/lcg.c     | 5 +++--
 GTgraph/sprng2.0-lite/src/lcg64/lcg64.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c b/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
index 2b12b47..57c57d5 100755
--- a/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
+++ b/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
@@ -416,7 +416,7 @@ int *igenptr,nspawned, ***newgens, checkid;
 #endif
 {
   struct rngen **genptr, *tempptr = (struct rngen *) igenptr;
-  int i;
+  int i, requested;
   
   if (nspawned <= 0) /* is nspawned valid ? */
   {
@@ -431,6 +431,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     return 0;
   }
   
+  requested = nspawned;	/* fewer may be created if memory runs out */
   for(i=0; i<nspawned; i++)	/* create nspawned new streams */
   {
     int seed, gennum;
@@ -457,7 +458,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     genptr[i]->spawn_offset = (nspawned+1)*tempptr->spawn_offset;
   }
   
-  tempptr->spawn_offset *= (nspawned+1);
+  tempptr->spawn_offset *= (requested+1);
   
 
   *newgens = (int **) genptr;
diff --git a/GTgraph/sprng2.0-lite/src/lcg/lcg.c b/GTgraph/sprng2.0-lite/src/lcg/lcg.c
index c42107d..e5352e6 100755
--- a/GTgraph/sprng2.0-lite/src/lcg/lcg.c
+++ b/GTgraph/sprng2.0-lite/src/lcg/lcg.c
@@ -444,7 +444,7 @@ int *igenptr,nspawned, ***newgens, checkid;
 #endif
 {
   struct rngen **genptr, *tempptr = (struct rngen *) igenptr;
-  int i, j;
+  int i, j, requested;
   
   if (nspawned <= 0) /* check if nspawned is valid */
   {
@@ -459,6 +459,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     return 0;
   }
   
+  requested = nspawned;	/* fewer may be created if memory runs out */
   for(i=0; i<nspawned; i++)
   {
     genptr[i] = (struct rngen *) mymalloc(sizeof(struct rngen));
@@ -504,7 +505,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     for(j=0; j<LCGRUNUP*(genptr[i]->prime_position); j++)
       get_rn_dbl( (int *) genptr[i]);
   }
-  tempptr->prime_next = (nspawned+1)*tempptr->prime_next;
+  tempptr->prime_next = (requested+1)*tempptr->prime_next;
     
   NGENS += nspawned;
     
diff --git a/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c b/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
index 46b1e73..b9a3ff9 100755
--- a/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
+++ b/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
@@ -370,7 +370,7 @@ int *igenptr,nspawned, ***newgens, checkid;
 #endif
 {
   struct rngen **genptr, *tempptr = (struct rngen *) igenptr;
-  int i;
+  int i, requested;
   
   if (nspawned <= 0) /* is nspawned valid ? */
   {
@@ -385,6 +385,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     return 0;
   }
   
+  requested = nspawned;	/* fewer may be created if memory runs out */
   for(i=0; i<nspawned; i++)	/* create nspawned new streams */
   {
     int seed, gennum;
@@ -411,7 +412,7 @@ int *igenptr,nspawned, ***newgens, checkid;
     genptr[i]->spawn_offset = (nspawned+1)*tempptr->spawn_offset;
   }
   
-  tempptr->spawn_offset *= (nspawned+1);
+  tempptr->spawn_offset *= (requested+1);
   
 
   *newgens = (int **) genptr;
-- 
2.43.0

