From c2cbeb5bb6cd20a8c19feb424c14ecc7f4e062c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 01/55] fix: do not wait forever for worker threads that could
 not be created

---
 src/MathThreads.cpp |  3 ++-
 src/MathWorker.cpp  | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/MathThreads.cpp b/src/MathThreads.cpp
index da4c261..b2a40f3 100644
--- a/src/MathThreads.cpp
+++ b/src/MathThreads.cpp
@@ -219,13 +219,14 @@ THANDLE StartThread(stWorkerRing * pWorkerRing)
 THANDLE StartThread(stWorkerRing * pWorkerRing)
 {
     int err;
-    THANDLE hThread;
+    THANDLE hThread{};
 
     err = pthread_create(&hThread, NULL, &WorkerThreadFunction, pWorkerRing);
 
     if (err != 0)
     {
         printf("*** Cannot create thread :[%s]\n", strerror(err));
+        return THANDLE{};
     }
 
     return hThread;
diff --git a/src/MathWorker.cpp b/src/MathWorker.cpp
index adc4e17..0577bec 100644
--- a/src/MathWorker.cpp
+++ b/src/MathWorker.cpp
@@ -504,11 +504,19 @@ int GetProcCount()
 void CMathWorker::StartWorkerThreads(int numaNode)
 {
     MATHLOGGING("Start worker threads\n");
+    int32_t started = 0;
     for (int i = 0; i < WorkerThreadCount; i++)
     {
-        WorkerThreadHandles[i] = StartThread(pWorkerRing);
+        THANDLE const handle = StartThread(pWorkerRing);
+        if (handle != THANDLE{})
+        {
+            WorkerThreadHandles[started++] = handle;
+        }
     }
 
+    // Threads that could not be created will never report in; carry on with the ones that exist
+    WorkerThreadCount = started;
+
     // There's a potential for deadlock here if this function is called from DllMain
     // When threads are created in DllMain, they can be suspended until DllMain exits,
     // meaning the loops below will just end up waiting forever
-- 
2.43.0


From 082d2b83fe8029b99468ab0f5bc22596bbc9548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 02/55] fix: do not drop an interrupt that arrives right after
 the SIGINT handler is installed

---
 src/interrupt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interrupt.cpp b/src/interrupt.cpp
index 389e562..8a1c1c1 100644
--- a/src/interrupt.cpp
+++ b/src/interrupt.cpp
@@ -17,8 +17,9 @@ namespace riptide
     bool interruptible_section(std::function<void(void)> function)
     {
         // Install our handler and save the previous handler
-        auto previous_handler = std::signal(SIGINT, internal::signal_handler);
+        // (the flag is cleared first: an interrupt that arrives once the handler is installed must not be forgotten)
         internal::interrupted_.store(false);
+        auto previous_handler = std::signal(SIGINT, internal::signal_handler);
 
         // Invoke the user-defined code
         function();
-- 
2.43.0


From c3fff5902106d67586c81b3502a603fb0335714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 03/55] fix: keep the scalar with its argument when bitwise
 and-not swaps its operands

---
 src/BasicMath.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..1cbacb4 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -907,6 +907,15 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // the scalar, if any, changes sides together with its argument
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    }
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
+    }
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From 4138a46a2d576fb81fc060dc055aad0dbd548661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 04/55] fix: round halfway cases the same way whatever the
 alignment of the data

---
 src/UnaryOps.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..42082be 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -289,20 +289,21 @@ static const inline bool ISNANORZERO_OP(T x)
     return x == 0.0 || std::isnan(x);
 }
 
+// halfway cases go to the even neighbour, as in the vector form below
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return rintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return rint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return rintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From 2d56d1022e1325397498a9557968d25093955615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 05/55] fix: count string groups from zero when base_index is
 zero

GroupFromLexSort with cutoffs, or with base_index=0, left the counts of
string and record keys shifted by one entry, so partitions lost their last
count and wrote into the first count of the next partition.
---
 src/Sort.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..a1bea0d 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3831,7 +3831,8 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX baseIndex = (UINDEX)base_index;
     UINDEX curGroup = 0;
 
-    // Invalid bin init when base_index is 1
+    // The zero bin of pCountOut exists only when base_index is not 0
+    const UINDEX countShift = base_index == 0 ? 0 : 1;
     pCountOut[0] = 0;
 
     pFirstOut[0] = curIndex;
@@ -3849,16 +3850,16 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
         }
         else
         {
+            pCountOut[curGroup + countShift] = curCount;
             curGroup++;
-            pCountOut[curGroup] = curCount;
             pFirstOut[curGroup] = curIndex;
             pGroupOut[curIndex] = curGroup + baseIndex;
             val1 = val2;
             curCount = 1;
         }
     }
+    pCountOut[curGroup + countShift] = curCount;
     curGroup++;
-    pCountOut[curGroup] = curCount;
     return curGroup;
 }
 
-- 
2.43.0


From 015509b4dd05db972c2d1196ce2a76b71ebb1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 06/55] fix: compare doubles as doubles when sorting

The float variants of merge, quick and heap sort narrowed every value to
float before comparing, so doubles that differ only beyond float precision
were left in arbitrary order.
---
 src/Sort.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index a1bea0d..27ea0bf 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -859,11 +859,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         tmp = a[l];
         for (i = l, j = l << 1; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j += 1;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -884,11 +884,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         n -= 1;
         for (i = 1, j = 2; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j++;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -1122,11 +1122,11 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
         {
             /* quicksort partition */
             pm = pl + ((pr - pl) >> 1);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
-            if (COMPARE_LT<float, Ascending>(v[*pr], v[*pm]))
+            if (COMPARE_LT<T, Ascending>(v[*pr], v[*pm]))
                 INTP_SWAP(*pr, *pm);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
             vp = v[*pm];
             pi = pl;
@@ -1136,10 +1136,10 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             {
                 do
                     ++pi;
-                while (COMPARE_LT<float, Ascending>(v[*pi], vp));
+                while (COMPARE_LT<T, Ascending>(v[*pi], vp));
                 do
                     --pj;
-                while (COMPARE_LT<float, Ascending>(vp, v[*pj]));
+                while (COMPARE_LT<T, Ascending>(vp, v[*pj]));
                 if (pi >= pj)
                 {
                     break;
@@ -1171,7 +1171,7 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             vp = v[vi];
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, v[*pk]))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, v[*pk]))
             {
                 *pj-- = *pk--;
             }
@@ -1437,7 +1437,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
         pk = pl;
         while (pj < pi && pm < pr)
         {
-            if (COMPARE_LT<float, Ascending>(*pm, *pj))
+            if (COMPARE_LT<T, Ascending>(*pm, *pj))
             {
                 *pk++ = *pm++;
             }
@@ -1470,7 +1470,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
             vp = *pi;
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, *pk))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, *pk))
             {
                 *pj-- = *pk--;
             }
-- 
2.43.0


From 756154015930e0e094acc07d322086b39e328d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 07/55] fix: group 1 and 2 byte keys correctly in prime hash
 mode

The perfect hash used for such keys masks with the table size, which is not
a power of two in prime mode, so different keys fell into one group.
---
 src/HashLinear.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..4c32a93 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5188,16 +5188,17 @@ uint64_t GroupByInternal(void ** pFirstArray, void ** pHashTableAny, int64_t * h
         {
         case 1:
             {
+                // the perfect hash of 1 and 2 byte keys requires the mask mode
                 numUnique = DoLinearHashItemSize<uint8_t, INDEX_TYPE>(totalRows, totalItemSize, pInput1, coreType, pIndexArray,
-                                                                      pFirstArray, pHashTableAny, hashTableSize, hashMode, 256 / 2,
-                                                                      pBoolFilter);
+                                                                      pFirstArray, pHashTableAny, hashTableSize, HASH_MODE_MASK,
+                                                                      256 / 2, pBoolFilter);
                 calculated = true;
             }
             break;
         case 2:
             {
                 numUnique = DoLinearHashItemSize<uint16_t, INDEX_TYPE>(totalRows, totalItemSize, pInput1, coreType, pIndexArray,
-                                                                       pFirstArray, pHashTableAny, hashTableSize, hashMode,
+                                                                       pFirstArray, pHashTableAny, hashTableSize, HASH_MODE_MASK,
                                                                        65536 / 2, pBoolFilter);
                 calculated = true;
             }
-- 
2.43.0


From aa9dfb15616f145d909203980b5ce21d2b76c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 08/55] fix: let MultiKeyRolling take more than two keys

The tuple of keys was parsed like an argument tuple, so the second and third
key were taken for the hint and the filter.
---
 src/MultiKey.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..5c55dbd 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1457,7 +1457,21 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         }
     }
 
-    CMultiKeyPrepare mkp(firstArg);
+    // Pass the keys as one list, otherwise the second and third key are taken for the hint and the filter
+    PyObject * keyList = PySequence_List(firstArg);
+    if (! keyList)
+    {
+        return NULL;
+    }
+    PyObject * keyArgs = PyTuple_Pack(1, keyList);
+    Py_DECREF(keyList);
+    if (! keyArgs)
+    {
+        return NULL;
+    }
+
+    CMultiKeyPrepare mkp(keyArgs);
+    Py_DECREF(keyArgs);
 
     if (mkp.pSuperArray)
     {
@@ -1487,7 +1501,8 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         return (PyObject *)retObject;
     }
 
-    RETURN_NONE;
+    // error already set
+    return NULL;
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From ec61d01cb43603a11ae9ecc0ae0d4634d9d11e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 09/55] fix: keep the GIL while MultiKeyGroupBy32Super hashes

The hash tables are shared process wide, so another Python thread could
corrupt the result, and an exception thrown for a too small hint left the
function without the GIL, crashing the interpreter.
---
 src/MultiKey.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 5c55dbd..c4a63dc 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1196,20 +1196,17 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                     "hintsize: %lld  filter: %p  coreType:%d\n",
                     numpyIndexType, mkp.totalRows, mkp.totalItemSize, mkp.hintSize, mkp.pBoolFilter, coreType);
 
-                Py_BEGIN_ALLOW_THREADS
+                // keep the GIL: the hash table is shared, and the call may throw
+                numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
+                                                    pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
+                                                    HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
 
-                    numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
-                                                        pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
-                                                        HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
-
-                Py_END_ALLOW_THREADS
-
-                    // now one based, so zero reserved
-                    //++numUnique;
+                // now one based, so zero reserved
+                //++numUnique;
 
-                    // Once we know the number of unique, we can allocate the smaller
-                    // array
-                    PyArrayObject * uniqueArray = AllocateNumpyArray(1, (npy_intp *)&numUnique, numpyIndexType);
+                // Once we know the number of unique, we can allocate the smaller
+                // array
+                PyArrayObject * uniqueArray = AllocateNumpyArray(1, (npy_intp *)&numUnique, numpyIndexType);
                 PyArrayObject * uniqueCountArray = AllocateNumpyArray(1, (npy_intp *)&numUnique, numpyIndexType);
 
                 CHECK_MEMORY_ERROR(uniqueArray);
-- 
2.43.0


From d75a8f65113392c6695f3187dc62fdb1001c0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 10/55] fix: report errors of MultiKeyRolling

Keys wider than 16 bytes returned uninitialised arrays, and more keys than
the table holds ended the process with an uncaught exception.
---
 src/MultiKey.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index c4a63dc..690622f 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1472,6 +1472,12 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
 
     if (mkp.pSuperArray)
     {
+        if (mkp.totalItemSize > 16)
+        {
+            return PyErr_Format(PyExc_ValueError, "MultiKeyRolling keys must not be wider than 16 bytes but are %lld",
+                                mkp.totalItemSize);
+        }
+
         PyArrayObject * firstObject = mkp.aInfo[0].pObject;
 
         PyArrayObject * indexArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
@@ -1484,12 +1490,27 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         bool prevValue = g_cMathWorker->NoCaching;
         g_cMathWorker->NoCaching = true;
 
-        void * pKeepRolling =
-            MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
-                                 HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique, (void *)memPointer);
+        void * pKeepRolling = nullptr;
+        try
+        {
+            pKeepRolling =
+                MultiKeyRollingStep2(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, pIndexArray, pRunningCountArray,
+                                     HASH_MODE::HASH_MODE_MASK, hintSize, &numUnique, (void *)memPointer);
+        }
+        catch (const std::exception & e)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyRolling failed. Exception: %s", e.what());
+        }
 
         g_cMathWorker->NoCaching = prevValue;
 
+        if (PyErr_Occurred())
+        {
+            Py_DECREF((PyObject *)indexArray);
+            Py_DECREF((PyObject *)runningCountArray);
+            return NULL;
+        }
+
         // Build tuple to return
         PyObject * retObject = Py_BuildValue("(OOLL)", indexArray, runningCountArray, (int64_t)numUnique, (int64_t)pKeepRolling);
 
-- 
2.43.0


From 1aaf05f8d1e8bfe73a8321d50e812ee4b832e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 11/55] fix: let Where select from arrays that are not aligned
 to their items

---
 src/BasicMath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 1cbacb4..37ae540 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3625,7 +3625,8 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
 
                 // calculate the address delta since we know input1 and input2 are the
                 // same itemsize assumes 64bit addressing
-                uint64_t delta = pInput2 - pInput1;
+                // (in bytes: unaligned arrays need not be a whole number of items apart)
+                uint64_t delta = (char *)pInput2 - (char *)pInput1;
                 uint64_t ulength = (uint64_t)length;
 
                 for (uint64_t i = 0; i < ulength; i++)
@@ -3633,7 +3634,7 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                     // The condition is either 1 or 0.  if 1 we use the address delta to get
                     // from input2 to input1
                     uint64_t test = pCondition[i] == 0;
-                    pOutput[i] = pInput1[i + delta * test];
+                    pOutput[i] = *(T *)((char *)(pInput1 + i) + delta * test);
                 }
 
                 // This is slower on msft windows compiler
-- 
2.43.0


From 12d0edb7b50a0d824da0ffd87c25b9f327dea08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 12/55] fix: load int32 operands of divisions without assuming
 alignment

---
 src/BasicMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 37ae540..254bf6e 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -567,7 +567,7 @@ static const inline __m256d DIV_OP_256f64(__m256d x, __m256d y)
 }
 static const inline __m256d CONV_INT32_DOUBLE(__m128i * x)
 {
-    return _mm256_cvtepi32_pd(*x);
+    return _mm256_cvtepi32_pd(_mm_loadu_si128(x));
 }
 
 // static const inline __m256d CONV_INT16_DOUBLE(__m128i x) { return
-- 
2.43.0


From e3e1adfb62ba42e1a243077e8ad421192f7f096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 13/55] fix: integer overflow in group medians and quantiles

The midpoint of two 32 or 64 bit integers was computed from their sum in
their own type, so the median or quantile of large values came out with
the wrong sign.
---
 src/GroupBy.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..97e9f1e 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -43,21 +43,22 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 {
     return (X + Y) / 2;
 }
+// The sum of two values can exceed their type
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<int32_t>((static_cast<int64_t>(X) + Y) / 2);
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<uint32_t>((static_cast<uint64_t>(X) + Y) / 2);
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    return ((X < 0) != (Y < 0)) ? (X + Y) / 2 : X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +76,9 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // The sum of two integers can exceed their type
+    using wide_t = std::conditional_t<std::is_integral_v<T>, double, T>;
+    return static_cast<U>((static_cast<wide_t>(X) + static_cast<wide_t>(Y)) / 2.0);
 }
 
 // Overloads to handle cases of bool, float, long double
-- 
2.43.0


From 03805a758a914667238502e384e75fb86cff98c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 14/55] fix: float32 nansum and nanmean of groups left bins
 unset

The bins are cleared from the first bin of the range instead of bin 0, so
with at least as many bins as rows the last, empty bin kept whatever the
memory held.
---
 src/GroupBy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 97e9f1e..f68b259 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -398,7 +398,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -883,7 +883,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
-- 
2.43.0


From 9689995aa10ec21dd6c72d744d1379aa17b0bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 15/55] fix: interrupted group-by returned no exception

A call interrupted while another thread's Python code runs it returned NULL
without an exception (SystemError); in the main thread the single-column
paths silently started over.
---
 src/GroupBy.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f68b259..48c3feb 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4238,6 +4238,20 @@ GROUPBY_TWO_FUNC GetGroupByFunctionStep1(int32_t iKeyType, bool * hasCounts, int
     return pFunction;
 }
 
+//---------------------------------------------------------------
+// Passes an interrupt that arrived during the computation on to Python.
+// An exception must be set when NULL is returned: PyErr_SetInterrupt alone only
+// schedules one for later, and only in the main thread.
+static PyObject * ReportInterrupt()
+{
+    PyErr_SetInterrupt();
+    if (PyErr_CheckSignals() == 0)
+    {
+        PyErr_SetNone(PyExc_KeyboardInterrupt);
+    }
+    return NULL;
+}
+
 //---------------------------------------------------------------
 // When just a single array needs to be calculated
 // For some operations we can multithread by scattering the work
@@ -4381,8 +4395,7 @@ PyObject * GroupBySingleOpMultiBands(ArrayInfo * aInfo, PyArrayObject * iKey, Py
 
             if (interruptible_section(section))
             {
-                PyErr_SetInterrupt();
-                return NULL;
+                return ReportInterrupt();
             }
 
             // New reference
@@ -4539,8 +4552,7 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
 
             if (interruptible_section(section))
             {
-                PyErr_SetInterrupt();
-                return NULL;
+                return ReportInterrupt();
             }
 
             logger->debug("after threaded");
@@ -4822,8 +4834,7 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
 
         if (interruptible_section(section))
         {
-            PyErr_SetInterrupt();
-            return NULL;
+            return ReportInterrupt();
         }
 
         logger->debug("!!groupby done {}", tupleSize);
@@ -5136,8 +5147,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
         if (interruptible_section(section))
         {
-            PyErr_SetInterrupt();
-            return NULL;
+            return ReportInterrupt();
         }
 
         logger->debug("!!groupby done {}", tupleSize);
-- 
2.43.0


From 51ef4d53b148db3bb37b1991a671eeb3835b373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 16/55] fix: group boundaries between 7-byte keys that differ
 only by a smaller last byte

---
 src/Sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 27ea0bf..60f6685 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -396,7 +396,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return 1;
         }
         return 0;
     case 8:
-- 
2.43.0


From d74aad4600d7b49370646b780a7b2476cbded559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 17/55] fix: size the prime-mode hash table of 1 and 2 byte
 values for every value

---
 src/HashLinear.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 4c32a93..e155607 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -502,6 +502,10 @@ void * CHashLinear<T, U>::AllocMemory(int64_t numberOfEntries, int64_t sizeofStr
     else
     {
         HashSize = GetHashSize(NumEntries);
+
+        // 1 and 2 byte values are their own hash
+        if (sizeof(T) <= 2 && HashSize < 65537)
+            HashSize = 65537;
     }
 
     size_t allocSize = HashSize * sizeofStruct;
-- 
2.43.0


From d3e7c0efe5627f16d624c8ba053efb8382b6a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 18/55] fix: membership of float 0.0 and -0.0, which are equal

---
 src/HashLinear.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index e155607..5a54927 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -2031,7 +2031,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT3;
                     uint64_t hash = h;
                     while (1)
@@ -2079,7 +2079,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT4;
                     uint64_t hash = h;
                     while (1)
@@ -2133,7 +2133,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT1;
                     uint64_t hash = h;
                     while (1)
@@ -2181,7 +2181,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT2;
                     uint64_t hash = h;
                     while (1)
@@ -2264,7 +2264,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT3;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2317,7 +2317,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT4;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2373,7 +2373,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT1;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2426,7 +2426,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT2;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2496,7 +2496,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT3;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2516,7 +2516,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT4;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2539,7 +2539,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT1;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2559,7 +2559,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // 0.0 and -0.0 are equal
                     HASH_FLOAT2;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
-- 
2.43.0


From 1c27421d47422736f344ec07e45e57881dde69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 19/55] fix: accept strided key arrays of one element

---
 src/MultiKey.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 690622f..9734e20 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -252,7 +252,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                     goto EXIT_ROUTINE;
                 }
 
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize,
                                  stride0);
@@ -261,7 +261,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             }
             else
             {
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     // If 2 dims and Fortran, then strides will not match
                     // TODO: better check
-- 
2.43.0


From b31e72996a7594f0a1f53273953f59b103624041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 20/55] fix: membership tests and alignment of strided arrays

---
 src/HashFunctions.cpp | 22 ++++++++++++++++++++++
 src/HashLinear.cpp    | 10 ++++++++++
 src/MultiKey.cpp      | 11 +++++++++--
 src/RipTide.h         | 39 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..34f889b 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -131,6 +131,16 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The lookups below walk the elements without regard to strides
+    contiguous_array const contig1{ inArr1 };
+    contiguous_array const contig2{ inArr2 };
+    if (! contig1 || ! contig2)
+    {
+        return NULL;
+    }
+    inArr1 = contig1.get();
+    inArr2 = contig2.get();
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
@@ -376,6 +386,18 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                            &unique2Length, &baseoffset1, &baseoffset2))
         return NULL;
 
+    // The lookups below walk the elements without regard to strides
+    contiguous_array const contig1{ inArr1 };
+    contiguous_array const contig2{ inArr2 };
+    contiguous_array const contigUnique{ isMemberUnique };
+    if (! contig1 || ! contig2 || ! contigUnique)
+    {
+        return NULL;
+    }
+    inArr1 = contig1.get();
+    inArr2 = contig2.get();
+    isMemberUnique = contigUnique.get();
+
     int64_t const arraySize1 = (int64_t)ArrayLength(inArr1);
     int64_t const arraySize2 = (int64_t)ArrayLength(inArr2);
     int64_t const arraySizeUnique64 = (int64_t)ArrayLength(isMemberUnique);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 5a54927..6df5961 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5752,6 +5752,16 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The lookups below walk the elements without regard to strides
+    contiguous_array const contig1{ inArr1 };
+    contiguous_array const contig2{ inArr2 };
+    if (! contig1 || ! contig2)
+    {
+        return NULL;
+    }
+    inArr1 = contig1.get();
+    inArr2 = contig2.get();
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 9734e20..67e0f04 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1821,8 +1821,15 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
 
     if (mkp1.pSuperArray && mkp2.pSuperArray)
     {
-        void * pVal1 = PyArray_BYTES(pvalArray1);
-        void * pVal2 = PyArray_BYTES(pvalArray2);
+        // The values are walked without regard to strides
+        contiguous_array const contigVal1{ pvalArray1 };
+        contiguous_array const contigVal2{ pvalArray2 };
+        if (! contigVal1 || ! contigVal2)
+        {
+            return NULL;
+        }
+        void * pVal1 = PyArray_BYTES(contigVal1.get());
+        void * pVal2 = PyArray_BYTES(contigVal2.get());
         PyArrayObject * indexArray = (PyArrayObject *)Py_None;
         bool isIndex32 = true;
         bool success = false;
diff --git a/src/RipTide.h b/src/RipTide.h
index 7e4edf9..aa3e432 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -169,6 +169,45 @@ extern bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t
 extern bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyType);
 extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
 
+/**
+ * @brief Scoped access to the elements of an array laid out contiguously.
+ * Refers to the given array when it is already contiguous, else to a copy which is released at the end of the scope.
+ * Converts to false, with a Python error set, when the copy could not be made.
+ */
+class contiguous_array
+{
+    PyArrayObject * m_original;
+    PyArrayObject * m_array;
+
+public:
+    explicit contiguous_array(PyArrayObject * original)
+        : m_original{ original }
+        , m_array{ EnsureContiguousArray(original) }
+    {
+    }
+
+    contiguous_array(contiguous_array const &) = delete;
+    contiguous_array & operator=(contiguous_array const &) = delete;
+
+    ~contiguous_array()
+    {
+        if (m_array != m_original)
+        {
+            Py_XDECREF(m_array);
+        }
+    }
+
+    explicit operator bool() const
+    {
+        return m_array != nullptr;
+    }
+
+    PyArrayObject * get() const
+    {
+        return m_array;
+    }
+};
+
 extern int64_t NpyItemSize(PyObject * self);
 extern const char * NpyToString(int32_t numpyType);
 extern int32_t NpyToSize(int32_t numpyType);
-- 
2.43.0


From df1c6eb6953cb0b88bf0f360198c619cb272d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 21/55] fix: MergeBinnedAndSorted reads the right key and takes
 the index type from the keys

---
 src/HashLinear.cpp | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 6df5961..a5ed86a 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -823,7 +823,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         else
         {
             // key2 is first
-            U lookup = pKey2[i];
+            U lookup = pKey2[j];
             pLocation[lookup] = j;
             j++;
         }
@@ -6205,30 +6205,43 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         }
     }
 
-    void * pVal1 = PyArray_BYTES(pvalArray1);
-    void * pVal2 = PyArray_BYTES(pvalArray2);
-    void * pKey1 = PyArray_BYTES(key1);
-    void * pKey2 = PyArray_BYTES(key2);
+    // The keys' type is also the type of the result, whose elements are row numbers
+    int32_t const keyType = PyArray_TYPE(key1);
+    if (! PyTypeNum_ISSIGNED(keyType) || ! PyTypeNum_ISSIGNED(PyArray_TYPE(key2)) ||
+        PyArray_ITEMSIZE(key1) != PyArray_ITEMSIZE(key2) || PyArray_ITEMSIZE(key1) < 4)
+    {
+        PyErr_Format(PyExc_ValueError,
+                     "MergeBinnedAndSorted keys must both be int32 or both be int64, not "
+                     "dtype.num: %d and %d",
+                     keyType, PyArray_TYPE(key2));
+        return NULL;
+    }
+
+    // The keys and values are walked without regard to strides
+    contiguous_array const contigVal1{ pvalArray1 };
+    contiguous_array const contigVal2{ pvalArray2 };
+    contiguous_array const contigKey1{ key1 };
+    contiguous_array const contigKey2{ key2 };
+    if (! contigVal1 || ! contigVal2 || ! contigKey1 || ! contigKey2)
+    {
+        return NULL;
+    }
+
+    void * pVal1 = PyArray_BYTES(contigVal1.get());
+    void * pVal2 = PyArray_BYTES(contigVal2.get());
+    void * pKey1 = PyArray_BYTES(contigKey1.get());
+    void * pKey2 = PyArray_BYTES(contigKey2.get());
 
     PyArrayObject * indexArray = (PyArrayObject *)Py_None;
     bool isIndex32 = true;
     bool success = false;
 
-    indexArray = AllocateLikeNumpyArray(key1, dtype1);
+    indexArray = AllocateLikeNumpyArray(key1, keyType);
 
     if (indexArray)
     {
-        switch (dtype1)
+        switch (keyType)
         {
-        case NPY_INT8:
-            success = MergePreBinned<int8_t>(ArrayLength(key1), (int8_t *)pKey1, pVal1, ArrayLength(key2), (int8_t *)pKey2, pVal2,
-                                             (int8_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        case NPY_INT16:
-            success =
-                MergePreBinned<int16_t>(ArrayLength(key1), (int16_t *)pKey1, pVal1, ArrayLength(key2), (int16_t *)pKey2, pVal2,
-                                        (int16_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
         CASE_NPY_INT32:
             success =
                 MergePreBinned<int32_t>(ArrayLength(key1), (int32_t *)pKey1, pVal1, ArrayLength(key2), (int32_t *)pKey2, pVal2,
-- 
2.43.0


From 243c22ceea30d43a12c39bff70657a1eba5bdda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 22/55] fix: MBGet with unsigned indexes

---
 src/Merge.cpp | 61 ++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..b5b7013 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -855,7 +855,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                (uint64_t)index < (uint64_t)valLength ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -866,9 +866,8 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
         while (pDataOut != pDataOutEnd)
         {
             const INDEX index = *pIndex;
-            // Make sure the item is in range; if the index is negative -- but
-            // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            // Make sure the item is in range
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
             }
@@ -990,7 +989,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (itemSize * index);
             }
@@ -1014,7 +1013,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1024,7 +1022,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (strideValue * index);
             }
@@ -1046,7 +1044,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -1151,17 +1148,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<__m128, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1186,17 +1183,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<__m128, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1221,17 +1218,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<__m128, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1256,17 +1253,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<__m128, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 8ac59766dea2d8db6a383973451ba8db47ce91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 23/55] fix: MBGet of a strided array writes its blocks to the
 right place

---
 src/Merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index b5b7013..8ad3868 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1099,7 +1099,7 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
-- 
2.43.0


From ffc3093cf8ef753851d1471dc85748ba6458e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 24/55] fix: MBGet default of strings

---
 src/Merge.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 8ad3868..8d62295 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -5,6 +5,7 @@
 #include "Convert.h"
 
 #include <algorithm>
+#include <vector>
 
 // for _pext_u64
 #if defined(__GNUC__) || defined(__clang__)
@@ -1385,9 +1386,30 @@ PyObject * MBGet(PyObject * self, PyObject * args)
 
                 // reserve a full 16 bytes for default in case we have oneS
                 _m256all tempDefault;
+                std::vector<char> flexibleDefault;
 
+                if (PyTypeNum_ISFLEXIBLE(numpyValuesType))
+                {
+                    // the default has to have the size of an item
+                    flexibleDefault.resize(std::max<size_t>(aValueItemSize, sizeof(tempDefault)));
+                    pDefault = flexibleDefault.data();
+
+                    if (defaultValue != Py_None)
+                    {
+                        PyArray_Descr * descr = PyArray_DESCR(aValues);
+                        Py_INCREF(descr);
+                        PyObject * item = PyArray_FromAny(defaultValue, descr, 0, 0, NPY_ARRAY_DEFAULT | NPY_ARRAY_FORCECAST, NULL);
+                        if (! item)
+                        {
+                            Py_DECREF(outArray);
+                            return NULL;
+                        }
+                        memcpy(pDefault, PyArray_BYTES((PyArrayObject *)item), aValueItemSize);
+                        Py_DECREF(item);
+                    }
+                }
                 // Check if a default value was passed in as third parameter
-                if (defaultValue != Py_None)
+                else if (defaultValue != Py_None)
                 {
                     bool result;
                     int64_t itemSize;
-- 
2.43.0


From 12aeda0ec3a35b3814d5935b0a95f6206a6b5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 25/55] fix: boolean indexes of strided arrays, both-mode
 offsets and allocation failure

---
 src/Merge.cpp | 53 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 8d62295..e1aad17 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -584,7 +584,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
@@ -741,13 +741,19 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int ndimBoolean;
-    int64_t strideBoolean;
-
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    contiguous_array mask{ aIndex };
+    if (! mask)
+    {
+        return NULL;
+    }
 
     int64_t * pChunkCount = NULL;
-    int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
+    int64_t chunks = BooleanCount(mask.get(), &pChunkCount, 1);
+
+    if (chunks == 0)
+    {
+        return PyErr_NoMemory();
+    }
 
     int64_t totalTrue = 0;
     for (int64_t i = 0; i < chunks; i++)
@@ -1523,31 +1529,37 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
-    int ndimBoolean;
-    int64_t strideBoolean;
-
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    contiguous_array mask{ aIndex };
+    if (! mask)
+    {
+        return NULL;
+    }
 
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
 
     int64_t * pChunkCount = NULL;
     int64_t * pChunkCountFalse = NULL;
-    int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
+    int64_t chunks = BooleanCount(mask.get(), &pChunkCount, 1);
     int64_t indexLength = ArrayLength(aIndex);
 
+    if (chunks == 0)
+    {
+        return PyErr_NoMemory();
+    }
+
     int64_t totalTrue = 0;
 
     if (bothMode)
     {
-        // now count up the chunks
-        // TJD: April 2019 note -- when the chunk size is between 65536 and 128000
-        // it is really one chunk, but the code still works
-        int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
-        int64_t chunks = (indexLength + (chunkSize - 1)) / chunkSize;
-
         // Also need false count
+        const int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
         pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
+        if (! pChunkCountFalse)
+        {
+            WORKSPACE_FREE(pChunkCount);
+            return PyErr_NoMemory();
+        }
         int64_t totalFalse = 0;
 
         // Store the offset
@@ -1555,8 +1567,9 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         {
             int64_t temp = totalFalse;
 
-            // check for last chunk
-            totalFalse += (chunkSize - pChunkCount[i]);
+            // the last chunk (the only one when not multithreaded) has all remaining elements
+            const int64_t chunkLength = (i == chunks - 1) ? indexLength - (i * chunkSize) : chunkSize;
+            totalFalse += (chunkLength - pChunkCount[i]);
 
             // reassign to the cumulative sum so we know the offset
             pChunkCountFalse[i] = temp;
@@ -1703,7 +1716,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         BTFCallbackStruct stBTFCallback;
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
-        stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(mask.get());
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
-- 
2.43.0


From e4eeff9e4494bfbaea1f76691984e3500b01dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 26/55] fix: False is no sentinel in PutMask and
 HomogenizeArrays

---
 src/Convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..e450df5 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3278,7 +3278,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             if (dtype != aInfo[t].NumpyDType)
             {
                 CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
-                void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
+                void * pBadInput1 = GetInvalid(aInfo[t].NumpyDType);
                 PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
 
                 // TODO: multithread this
@@ -3950,7 +3950,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        stMask.pBadInput1 = GetInvalid(inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
-- 
2.43.0


From e99db13d068025f912a4d150c88208a3358f6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 27/55] fix: conversion of multidimensional strided arrays

---
 src/Convert.cpp | 63 ++++++++++++++++++++++---------------------------
 src/RipTide.cpp |  3 ++-
 2 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index e450df5..f900b0b 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1102,9 +1102,12 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     int64_t strideOut;
     int directionOut = GetStridesAndContig(outArray, ndimOut, strideOut);
 
+    // The input and the output can only be walked together with one stride each when both have the same order
+    const bool sameOrder = ndim <= 1 || PyArray_IS_C_CONTIGUOUS(inArr1) || PyArray_IS_F_CONTIGUOUS(inArr1);
+
     // If the input is C and/or F-contiguous, the output should have
     // the same flag(s) set.
-    if (directionIn != 0 || directionOut != 0)
+    if (directionIn != 0 || directionOut != 0 || ! sameOrder)
     {
         // non-contiguous loop
         // Walk the input, dimension by dimension, getting the stride
@@ -1130,39 +1133,19 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
                           pBadOutput1, strideIn, strideOut);
             }
         }
-        else if (directionIn == -1 && directionOut == 0)
-        {
-            // Col Major 2dim like array with output being fully contiguous
-            int64_t innerLen = 1;
-            directionIn = -directionIn;
-            for (int i = 0; i < directionIn; i++)
-            {
-                innerLen *= PyArray_DIM(inArr1, i);
-            }
-            // TODO: consider dividing the work over multiple threads if innerLen is
-            // large enough
-            const int64_t outerLen = PyArray_DIM(inArr1, (ndim - 1));
-            const int64_t outerStride = PyArray_STRIDE(inArr1, (ndim - 1));
-
-            LOGGING("Col Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
-
-            for (int64_t j = 0; j < outerLen; j++)
-            {
-                pFunction((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen, pBadInput1,
-                          pBadOutput1, strideIn, strideOut);
-            }
-        }
         else
         {
             // Don't leak the memory we allocated -- free it before raising the Python
             // error and returning.
             Py_DECREF(outArray);
-            // have numpy do the work
-            outArray = (PyArrayObject *)PyArray_FROM_OT((PyObject *)inArr1, numpyOutType);
-            // return PyErr_Format(PyExc_RuntimeError, "ConvertSafe allocated an
-            // output array whose *_CONTIGUOUS flags were not set even though the input
-            // array was contiguous. %d %d   out:%d %d  strideIn:%lld  strideOut:%lld",
-            // contigIn, ndim, contigOut, ndimOut, strideIn, strideOut);
+            // convert a copy which can be walked
+            PyArrayObject * copy = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+            if (! copy)
+            {
+                return NULL;
+            }
+            outArray = (PyArrayObject *)ConvertSafeInternal(copy, out_dtype);
+            Py_DECREF(copy);
         }
     }
     else
@@ -1271,13 +1254,22 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    // Only a single stride can be walked
+    contiguous_array contiguousInput{ inArr1 };
+    if (! contiguousInput)
+    {
+        return NULL;
+    }
+    if (PyArray_NDIM(inArr1) > 1)
+    {
+        inArr1 = contiguousInput.get();
+    }
+
     void * pDataIn = PyArray_BYTES(inArr1);
+    const int64_t strideIn = PyArray_NDIM(inArr1) == 1 ? PyArray_STRIDE(inArr1, 0) : PyArray_ITEMSIZE(inArr1);
 
     const int ndim = PyArray_NDIM(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
-    // auto* const inArr1_strides = PyArray_STRIDES(inArr1);
-    // TODO: CalcArrayLength probably needs to be fixed to account for any
-    // non-default striding
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
@@ -1291,6 +1283,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     }
 
     void * pDataOut = PyArray_BYTES(outArray);
+    const int64_t strideOut = PyArray_ITEMSIZE(outArray);
 
     void * pBadInput1 = GetInvalid(numpyInType);
 
@@ -1303,7 +1296,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
     }
     else
     {
@@ -1317,8 +1310,8 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = strideOut;
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..0ded62c 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -247,7 +247,8 @@ PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject)
     if (! (arrFlags & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
     {
         // Have to make a copy (which needs to be deleted later)
-        inObject = (PyArrayObject *)PyArray_FromAny((PyObject *)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY, NULL);
+        inObject = (PyArrayObject *)PyArray_FromAny((PyObject *)inObject, NULL, 0, 0,
+                                                     NPY_ARRAY_ENSURECOPY | NPY_ARRAY_C_CONTIGUOUS, NULL);
         if (! inObject)
         {
             PyErr_Format(PyExc_ValueError, "RipTide: Error converting non-contiguous array");
-- 
2.43.0


From 4be84398210e0b100abd981b95202eac34ab9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 28/55] fix: SetItem, PutMask, ShiftArrays, CombineFilter and
 BitCount of strided arrays

---
 src/BitCount.cpp |  5 +++++
 src/Convert.cpp  | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..99df15a 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -26,6 +26,11 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArr))
         return NULL;
 
+    contiguous_array contiguous{ inArr };
+    if (! contiguous)
+        return NULL;
+    inArr = contiguous.get();
+
     const int ndim = PyArray_NDIM(inArr);
     // N.B. AllocateNumpyArray doesn't accept const pointer for dims
     npy_intp * dims = PyArray_DIMS(inArr);
diff --git a/src/Convert.cpp b/src/Convert.cpp
index f900b0b..2e6f490 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1435,6 +1435,15 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    contiguous_array contiguousIndex{ inArr1 };
+    contiguous_array contiguousFilter{ inFilter };
+    if (! contiguousIndex || ! contiguousFilter)
+    {
+        return NULL;
+    }
+    inArr1 = contiguousIndex.get();
+    inFilter = contiguousFilter.get();
+
     int32_t numpyOutType = PyArray_TYPE(inArr1);
     void * pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
@@ -3195,6 +3204,16 @@ PyObject * ShiftArrays(PyObject * self, PyObject * args)
 
         g_cMathWorker->DoMultiThreadedWork((int)tupleSize, lambdaShiftCallback, &myshift);
 
+        // Non-contiguous arrays were shifted in a contiguous copy
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (aInfo[t].pOriginalObject && PyArray_CopyInto(aInfo[t].pOriginalObject, aInfo[t].pObject) < 0)
+            {
+                FreeArrayInfo(aInfo);
+                return NULL;
+            }
+        }
+
         FreeArrayInfo(aInfo);
         Py_IncRef(inList1);
         return inList1;
@@ -3810,6 +3829,7 @@ PyObject * SetItem(PyObject * self, PyObject * args)
             // TODO: improvement when string itemsize is different length -- we can do
             // a custom string copy
             if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 &&
+                PyArray_IS_C_CONTIGUOUS(arr) && PyArray_IS_C_CONTIGUOUS(mask) && PyArray_IS_C_CONTIGUOUS(inValues) &&
                 PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues))
             {
                 // Boolean path...
@@ -3894,9 +3914,9 @@ PyObject * PutMask(PyObject * self, PyObject * args)
             int64_t itemSizeOut = PyArray_ITEMSIZE(arr);
             int64_t itemSizeIn = PyArray_ITEMSIZE(inValues);
 
-            // check for strides... ?
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask) && PyArray_IS_C_CONTIGUOUS(arr) && PyArray_IS_C_CONTIGUOUS(mask) &&
+                PyArray_IS_C_CONTIGUOUS(inValues))
             {
                 int64_t valLength = ArrayLength(inValues);
 
-- 
2.43.0


From 1d780ea32a583f4f610a99e6a0f343fb5637eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 29/55] fix: float variance loads unaligned arrays with an
 unaligned load

---
 src/Reduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..b6dd203 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -2791,7 +2791,7 @@ class ReduceVariance final
             while (pIn < pEnd)
             {
                 // Load 8 floats or 4 doubles
-                m0 = _mm256_sub_pd(_mm256_cvtps_pd(*(__m128 *)pIn), m3);
+                m0 = _mm256_sub_pd(_mm256_cvtps_pd(_mm_loadu_ps(pIn)), m3);
 
                 // square the diff of mean
                 m1 = _mm256_mul_pd(m0, m0);
-- 
2.43.0


From f3af78858599c6a795b3dea2641b93f5a882bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 30/55] fix: Reduce read non contiguous multi-dimensional and
 0-d arrays as flat memory

---
 src/Reduce.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index b6dd203..80bf6f9 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3191,7 +3191,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     fl.NumpyOutputType = 0;
     fl.NumpyType = numpyInType;
     fl.InputItemSize = PyArray_ITEMSIZE(inArr1);
-    fl.Input1Strides = len > 1 ? PyArray_STRIDE(inArr1, 0) : 0;
+    fl.Input1Strides = PyArray_NDIM(inArr1) > 0 && len > 1 ? PyArray_STRIDE(inArr1, 0) : 0;
     fl.OutputItemSize = 0;
     fl.TypeOfFunctionCall = TYPE_OF_FUNCTION_CALL::ANY_SCATTER_GATHER;
 
@@ -3394,14 +3394,16 @@ PyObject * Reduce(PyObject * self, PyObject * args)
 
     if (IsFastArrayOrNumpy(inArr1))
     {
-        // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        PyObject * object2 = PyTuple_GET_ITEM(args, 1);
+        if (PyLong_Check(object2))
         {
-            PyObject * object2 = PyTuple_GET_ITEM(args, 1);
-            if (PyLong_Check(object2))
-            {
-                int64_t func = PyLong_AsLongLong(object2);
+            int64_t func = PyLong_AsLongLong(object2);
+            const bool isArg = func >= REDUCE_FUNCTIONS::REDUCE_ARGMIN && func <= REDUCE_FUNCTIONS::REDUCE_NANARGMAX;
 
+            // make sure not strided -- we don't currently handle those
+            // the elements are read in memory order, which only gives the right index for C order
+            if (PyArray_IS_C_CONTIGUOUS(inArr1) || (! isArg && PyArray_IS_F_CONTIGUOUS(inArr1)))
+            {
                 // possible TODO: wrap result back into np scalar type
                 return ReduceInternal(inArr1, (REDUCE_FUNCTIONS)func, ddof);
             }
-- 
2.43.0


From 1e7634c5de8058911819f55c4646512e0e597136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 31/55] fix: integer sums lost precision, parallel float
 reductions became nan when a part exceeded the int64 range

---
 src/Reduce.cpp | 53 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 80bf6f9..8252997 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -9,6 +9,7 @@
 #include "simd.h"
 
 #include <algorithm>
+#include <type_traits>
 #include <variant>
 
 namespace
@@ -379,6 +380,12 @@ struct stScatterGatherFunc
     any_supported_cpptype min_or_max;
 };
 
+// Integer sums are accumulated modulo 2^64; the double sum kept next to them tells an overflow.
+static inline int64_t wrapping_add(int64_t x, int64_t y)
+{
+    return static_cast<int64_t>(static_cast<uint64_t>(x) + static_cast<uint64_t>(y));
+}
+
 bool CMathWorker::AnyScatterGather(struct stMATH_WORKER_ITEM * pstWorkerItem, int core, int64_t workIndex)
 {
     bool didSomeWork = false;
@@ -546,16 +553,14 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
                 pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
+                    wrapping_add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
+            }
 
-                if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
-                {
-                    pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
-                }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
+            // An invalid in any part makes the double result nan.  The integer result is only meaningful
+            // for integer sums, so it must not invalidate the double result.
+            if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
+            {
+                pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
             }
         }
         WORKSPACE_FREE(pWorkSpace);
@@ -2178,10 +2183,12 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        int64_t resultInt64 = 0;
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
-            result = (double)SumBooleanMask((int8_t *)pDataIn, length);
+            resultInt64 = SumBooleanMask((int8_t *)pDataIn, length);
+            result = (double)resultInt64;
         }
         else
         {
@@ -2196,12 +2203,23 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt64 = wrapping_add(resultInt64, static_cast<int64_t>(value));
+                }
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        if (riptide::invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
+        {
+            pstScatterGatherFunc->resultOutInt64 = wrapping_add(pstScatterGatherFunc->resultOutInt64, resultInt64);
+        }
+        else
+        {
+            pstScatterGatherFunc->resultOutInt64 = riptide::invalid_for_type<int64_t>::value;
+        }
         return result;
     }
 
@@ -2618,6 +2636,7 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        int64_t resultInt64 = 0;
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2626,12 +2645,16 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt64 = wrapping_add(resultInt64, static_cast<int64_t>(pIn[i]));
+                }
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        pstScatterGatherFunc->resultOutInt64 = wrapping_add(pstScatterGatherFunc->resultOutInt64, resultInt64);
         return result;
     }
 
@@ -3280,7 +3303,11 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
-                return PyLong_FromUnsignedLongLong(riptide::cast<uint64_t>(sgFunc.resultOutInt64));
+                if (! riptide::invalid_for_type<double>::is_valid(sgFunc.resultOut))
+                {
+                    return PyLong_FromUnsignedLongLong(riptide::invalid_for_type<uint64_t>::value);
+                }
+                return PyLong_FromUnsignedLongLong(static_cast<uint64_t>(sgFunc.resultOutInt64));
             case NPY_FLOAT:
             case NPY_DOUBLE:
             case NPY_LONGDOUBLE:
-- 
2.43.0


From 01095aa40a66b837725f512af3021bebf93daa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 32/55] fix: EMA, time window, interpolation and bin cuts read
 strided arrays as contiguous memory, EMA column length unchecked

---
 src/Bins.cpp       | 39 ++++++++++++++++++++++++++++++++-------
 src/Ema.cpp        | 38 +++++++++++++++++++++++++++++++++-----
 src/RipTide.h      |  4 ++--
 src/TimeWindow.cpp | 11 +++++++++--
 4 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..d31ea17 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -715,9 +715,19 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+        return NULL;
     }
     else
     {
+        // the kernels read contiguous memory
+        contiguous_array const inData{ inArr1 };
+        contiguous_array const binData{ binArr1 };
+        contiguous_array const indexData{ indexArr1 };
+        if (! inData || ! binData || ! indexData)
+        {
+            return NULL;
+        }
+
         int numpyInType = PyArray_TYPE(inArr1);
         int numpyIndexType = PyArray_TYPE(indexArr1);
         int64_t binSize = ArrayLength(binArr1);
@@ -800,9 +810,9 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
             if (result)
             {
                 void * pDataOut = PyArray_BYTES(result);
-                void * pDataIn1 = PyArray_BYTES(inArr1);
-                void * pIndex1 = PyArray_BYTES(indexArr1);
-                void * pBin1 = PyArray_BYTES(binArr1);
+                void * pDataIn1 = PyArray_BYTES(inData.get());
+                void * pIndex1 = PyArray_BYTES(indexData.get());
+                void * pBin1 = PyArray_BYTES(binData.get());
 
                 func(pDataIn1, pIndex1, pDataOut, ArrayLength(inArr1), (double *)pBin1, binSize, nancount, infcount, neginfcount);
                 return (PyObject *)result;
@@ -1772,6 +1782,21 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
         }
     }
 
+    // there is no unicode search, and the string search makes bin cuts only
+    if (isString && (numpyInType == NPY_UNICODE || searchMode != 0))
+    {
+        PyErr_Format(PyExc_ValueError, "BinsToCutsBSearch: mode %d is not supported for type %d", searchMode, numpyInType);
+        return NULL;
+    }
+
+    // the bins and values are read as contiguous memory
+    contiguous_array const inData{ inArr1 };
+    contiguous_array const binData{ binArr1 };
+    if (! inData || ! binData)
+    {
+        return NULL;
+    }
+
     MAKE_BINS_BSEARCH func = NULL;
 
     switch (binmode)
@@ -1896,8 +1921,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
                 };
 
                 stBSearchCallback.pDataOut = PyArray_BYTES(result);
-                stBSearchCallback.pDataIn1 = PyArray_BYTES(inArr1);
-                stBSearchCallback.pBin1 = PyArray_BYTES(binArr1);
+                stBSearchCallback.pDataIn1 = PyArray_BYTES(inData.get());
+                stBSearchCallback.pBin1 = PyArray_BYTES(binData.get());
                 stBSearchCallback.binSize = binSize; // length of the bin
                 stBSearchCallback.numpyInType = numpyInType;
                 stBSearchCallback.binmode = binmode;
@@ -1935,8 +1960,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
                 };
 
                 stBSearchCallback.pDataOut = PyArray_BYTES(result);
-                stBSearchCallback.pDataIn1 = PyArray_BYTES(inArr1);
-                stBSearchCallback.pBin1 = PyArray_BYTES(binArr1);
+                stBSearchCallback.pDataIn1 = PyArray_BYTES(inData.get());
+                stBSearchCallback.pBin1 = PyArray_BYTES(binData.get());
                 stBSearchCallback.binSize = binSize;
                 stBSearchCallback.numpyInType = numpyInType;
                 stBSearchCallback.func = func;
diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..f08fd17 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2437,6 +2437,28 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    for (Py_ssize_t i = 0; i < tupleSize; i++)
+    {
+        if (aInfo[i].ArrayLength != totalArrayLength)
+        {
+            PyErr_Format(PyExc_ValueError, "EmaAll32 array length %lld does not match the key length %lld",
+                         (long long)aInfo[i].ArrayLength, (long long)totalArrayLength);
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+    }
+
+    // the kernels read the key, time and masks as contiguous memory
+    contiguous_array const keyData{ iKey };
+    contiguous_array const timeData{ inTime };
+    contiguous_array const includeData{ inIncludeMask };
+    contiguous_array const resetData{ inResetMask };
+    if (! keyData || (inTime && ! timeData) || (inIncludeMask && ! includeData) || (inResetMask && ! resetData))
+    {
+        FreeArrayInfo(aInfo);
+        return NULL;
+    }
+
     LOGGING("Ema started %llu  param:%lf\n", tupleSize, doubleParam);
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
@@ -2445,14 +2467,14 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
 
     pstEma32->aInfo = aInfo;
     pstEma32->funcNum = (int32_t)funcNum;
-    pstEma32->pKey = (int32_t *)PyArray_BYTES(iKey);
+    pstEma32->pKey = (int32_t *)PyArray_BYTES(keyData.get());
     pstEma32->tupleSize = tupleSize;
     pstEma32->uniqueRows = unique_rows;
     pstEma32->totalInputRows = totalArrayLength;
     pstEma32->doubleParam = doubleParam;
-    pstEma32->pTime = inTime == NULL ? NULL : PyArray_BYTES(inTime);
-    pstEma32->inIncludeMask = inIncludeMask == NULL ? NULL : (int8_t *)PyArray_BYTES(inIncludeMask);
-    pstEma32->inResetMask = inResetMask == NULL ? NULL : (int8_t *)PyArray_BYTES(inResetMask);
+    pstEma32->pTime = inTime == NULL ? NULL : PyArray_BYTES(timeData.get());
+    pstEma32->inIncludeMask = inIncludeMask == NULL ? NULL : (int8_t *)PyArray_BYTES(includeData.get());
+    pstEma32->inResetMask = inResetMask == NULL ? NULL : (int8_t *)PyArray_BYTES(resetData.get());
     pstEma32->typeOfFunctionCall = TYPE_OF_FUNCTION_CALL::ANY_GROUPBY_FUNC;
 
     LOGGING("Ema unique %lld  total: %lld  arrays: %p %p %p\n", unique_rows, totalArrayLength, pstEma32->pTime,
@@ -2859,6 +2881,12 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    contiguous_array const arrData{ arr };
+    if (! arrData)
+    {
+        return NULL;
+    }
+
     // allocate a float or a double
     returnArray = AllocateLikeNumpyArray(arr, dtype);
 
@@ -2867,7 +2895,7 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         // copy params we will use into a struct on the stack
         stInterp interp;
         interp.itemsize = (int)PyArray_ITEMSIZE(xp);
-        interp.x = PyArray_BYTES(arr);
+        interp.x = PyArray_BYTES(arrData.get());
         interp.xp = PyArray_BYTES(xp);
         interp.yp = PyArray_BYTES(yp);
         interp.out = PyArray_BYTES(returnArray);
diff --git a/src/RipTide.h b/src/RipTide.h
index aa3e432..cc90500 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -172,7 +172,7 @@ extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
 /**
  * @brief Scoped access to the elements of an array laid out contiguously.
  * Refers to the given array when it is already contiguous, else to a copy which is released at the end of the scope.
- * Converts to false, with a Python error set, when the copy could not be made.
+ * Converts to false when no array was given, or, with a Python error set, when the copy could not be made.
  */
 class contiguous_array
 {
@@ -182,7 +182,7 @@ class contiguous_array
 public:
     explicit contiguous_array(PyArrayObject * original)
         : m_original{ original }
-        , m_array{ EnsureContiguousArray(original) }
+        , m_array{ original ? EnsureContiguousArray(original) : nullptr }
     {
     }
 
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..1310d10 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -199,6 +199,13 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
 
     if (pTimeWindowFunc)
     {
+        contiguous_array const inData{ inArr };
+        contiguous_array const timeData{ timeArr };
+        if (! inData || ! timeData)
+        {
+            return NULL;
+        }
+
         // Dont bother allocating if we cannot call the function
         outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, numpyOutType);
 
@@ -229,8 +236,8 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
             };
 
             stTWCallback.func = pTimeWindowFunc;
-            stTWCallback.pDataIn = PyArray_BYTES(inArr);
-            stTWCallback.pTimeIn = PyArray_BYTES(timeArr);
+            stTWCallback.pDataIn = PyArray_BYTES(inData.get());
+            stTWCallback.pTimeIn = PyArray_BYTES(timeData.get());
             stTWCallback.pDataOut = PyArray_BYTES(outArray);
             stTWCallback.timeDelta = param1;
 
-- 
2.43.0


From fdcb82c78bc7af3ba4abdd4d5462dbef86b84f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 33/55] fix: string bin cuts started each parallel part at the
 wrong element, unsupported searches returned garbage or SystemError

---
 src/Bins.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index d31ea17..71ccee7 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1178,7 +1178,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1273,7 +1273,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1975,6 +1975,5 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     }
     PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
-- 
2.43.0


From 3d6e3cb36d332b6a97e81b613b6dbafa106f6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 34/55] fix: bin cuts truncated bin edges or values to the
 other's type and took False as invalid

---
 src/Bins.cpp | 81 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 71ccee7..a5453f5 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -824,6 +824,25 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     return Py_None;
 }
 
+//=================================================================================================
+// The type in which a value of type T is compared with a bin edge of type BINTYPE.
+// Neither side may be truncated to the type of the other: an integer value can be
+// split on a fractional edge and an edge can be out of range for the value's type.
+template <typename T, typename BINTYPE>
+struct BinCompareType
+{
+    static constexpr bool both_integral = std::is_integral<T>::value && std::is_integral<BINTYPE>::value;
+    static constexpr bool any_integral = std::is_integral<T>::value || std::is_integral<BINTYPE>::value;
+    static constexpr bool same_sign = std::is_signed<T>::value == std::is_signed<BINTYPE>::value;
+    static constexpr bool any_uint64 = std::is_same<T, uint64_t>::value || std::is_same<BINTYPE, uint64_t>::value;
+
+    using integral_type =
+        std::conditional_t<same_sign, std::common_type_t<T, BINTYPE>, std::conditional_t<any_uint64, double, int64_t>>;
+    using mixed_type = std::common_type_t<T, BINTYPE, double>;
+    using type =
+        std::conditional_t<both_integral, integral_type, std::conditional_t<any_integral, mixed_type, std::common_type_t<T, BINTYPE>>>;
+};
+
 //=================================================================================================
 // T is the value type
 // U is the index type (often INT32)
@@ -846,15 +865,17 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompareType<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
     // Now assign a valid bin to the good data in the middle
     for (int64_t i = 0; i < length; i++)
     {
-        const T value = pData[i];
+        const T original = pData[i];
+        const COMPARE value = (COMPARE)original;
 
         if (value >= veryfirst && value < verylast)
         {
@@ -862,19 +883,18 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > value)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else if ((COMPARE)pBin1[middle] <= value)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -926,15 +946,17 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompareType<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
     // Now assign a valid bin to the good data in the middle
     for (int64_t i = 0; i < length; i++)
     {
-        const T value = pData[i];
+        const T original = pData[i];
+        const COMPARE value = (COMPARE)original;
 
         if (value > veryfirst && value <= verylast)
         {
@@ -942,19 +964,18 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if ((COMPARE)pBin1[middle] >= value)     // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < value)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -1382,8 +1403,9 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompareType<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1393,25 +1415,25 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     // Now assign a valid bin to the good data in the middle
     for (int64_t i = 0; i < length; i++)
     {
-        const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        const T original = pData[i];
+        const COMPARE value = (COMPARE)original;
+        if (std::isfinite(original) && value >= veryfirst && value <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > value)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < value)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1430,7 +1452,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (value <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
@@ -1478,36 +1500,39 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
     void * pDefault = GetDefaultForType(numpyInType);
     const T defaultNan = *(T *)pDefault;
+    // bool cannot have an invalid
+    const bool hasInvalid = numpyInType != NPY_BOOL;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompareType<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
     // Now assign a valid bin to the good data in the middle
     for (int64_t i = 0; i < length; i++)
     {
-        const T value = pData[i];
+        const T original = pData[i];
+        const COMPARE value = (COMPARE)original;
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        if (! (hasInvalid && original == defaultNan) && value >= veryfirst && value <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > value)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < value)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1526,7 +1551,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (value <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
-- 
2.43.0


From 0152f76216fccb5956517a68f5bf3d89fb34e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 35/55] fix: group cummin/cummax left rows of the invalid group
 uninitialized or treated them as a group, leaked a workspace

---
 src/Ema.cpp | 77 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index f08fd17..07bdb02 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -951,6 +951,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -978,6 +982,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1010,6 +1018,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1020,18 +1032,25 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                // if new value (pSrc[i]) is invalid, do nothing
-                if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
+                if (location >= GB_BASE_INDEX)
                 {
-                    // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
-                    // is in favor of new value, set answer to new value.
-                    if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
-                        _compare(pSrc[i], pWorkSpace[location]))
+                    // if new value (pSrc[i]) is invalid, do nothing
+                    if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                     {
-                        pWorkSpace[location] = pSrc[i];
+                        // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
+                        // is in favor of new value, set answer to new value.
+                        if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
+                            _compare(pSrc[i], pWorkSpace[location]))
+                        {
+                            pWorkSpace[location] = pSrc[i];
+                        }
                     }
+                    pDest[i] = pWorkSpace[location];
+                }
+                else
+                {
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
@@ -1100,6 +1119,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1130,6 +1153,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1161,6 +1188,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1171,25 +1202,33 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                if (not pWorkSpaceDataSeen[location])
+                if (location >= GB_BASE_INDEX)
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    if (not pWorkSpaceDataSeen[location])
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
+                    // AND new value passes comparison to old value, set answer to new value
+                    else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
+                             ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
+                              _compare(pSrc[i], pWorkSpace[location])))
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    pDest[i] = pWorkSpace[location];
                 }
-                // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
-                // AND new value passes comparison to old value, set answer to new value
-                else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
-                         ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
-                          _compare(pSrc[i], pWorkSpace[location])))
+                else
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
 
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
     WORKSPACE_FREE(pWorkSpace);
 }
 
-- 
2.43.0


From 156d4be7355b9d434b414f943de13b76ba7c3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 36/55] fix: ema decay with a filter and a reset filter
 returned zeros

---
 src/Ema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 07bdb02..695c4b0 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1511,7 +1511,7 @@ public:
                             pLastTime[location] = pTime[i];
                         }
 
-                        pDest[i] = 0;
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
-- 
2.43.0


From f34d7176ca083d32c3cfb12e6ca9d8fceea910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 37/55] fix: rolling nanvar, nanstd and nanmean when the number
 of valid values changes, negative window wrote before the array

---
 src/Ema.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 695c4b0..f59318e 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -253,6 +253,12 @@ public:
             {
                 currentSum -= pIn[i - windowSize];
                 count--;
+
+                // no value left, so there is no mean: drop the rounding errors of the running sum
+                if (count == 0)
+                {
+                    currentSum = 0;
+                }
             }
 
             pOut[i] = currentSum / count;
@@ -427,7 +433,8 @@ public:
             }
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        // the window may hold fewer valid values than its size
+        U count_inv = (U)1 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
@@ -463,7 +470,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -514,7 +521,8 @@ public:
             }
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        // the window may hold fewer valid values than its size
+        U count_inv = (U)1 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
@@ -550,7 +558,7 @@ public:
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -695,6 +703,12 @@ PyObject * Rolling(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (param1 < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Rolling window size must not be negative: %lld", (long long)param1);
+        return NULL;
+    }
+
     // TODO: determine based on function
     int32_t numpyOutType = NPY_FLOAT64;
 
-- 
2.43.0


From bef9afc5da8d5b0e9a8a20369c88b803703115cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 38/55] fix: interpolation read past the last point, EmaAll32
 went on after refusing an argument

---
 src/Ema.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index f59318e..caed601 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2432,6 +2432,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2441,6 +2442,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2450,6 +2452,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
@@ -2643,7 +2646,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2678,7 +2681,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2724,7 +2727,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2758,7 +2761,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
-- 
2.43.0


From c6fe28450b434e3eeec597760c7edd7b63ed2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 39/55] fix: SDS file reads and writes continue after short or
 interrupted calls

A short or interrupted read or write was taken for an error or for the end of the file, and a failing
close was not noticed.
---
 src/SDSFile.cpp | 65 +++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..52d4023 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -665,10 +665,10 @@ int64_t SDSFileWriteChunk(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE Handle,
 }
 
 //---------------------------------------------------
-void SDSFileClose(SDS_FILE_HANDLE handle)
+bool SDSFileClose(SDS_FILE_HANDLE handle)
 {
     logger->debug("File closed {}", (void *)handle);
-    CloseHandle(handle);
+    return CloseHandle(handle) != 0;
 }
 
 #else
@@ -787,19 +787,26 @@ int64_t SDSFileReadChunk(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHandl
     }
     else
     {
-        ssize_t bytes_read = pread(fileHandle, buffer, (size_t)bufferSize, bufferPos);
+        // pread() may return fewer bytes than asked for, or be interrupted; go on until all
+        // bytes are read, the end of the file is reached or an error occurs.
+        int64_t bytes_read = 0;
 
-        // pread() returns -1 on error; make sure the read actually succeeded.
-        if (bytes_read == -1)
+        while (bytes_read < bufferSize)
         {
-            logger->error("!!readchunk failed for fd {} -- {} vs {} (errno {})", fileHandle, bufferSize, bytes_read, errno);
-            return 0;
-        }
+            ssize_t result = pread(fileHandle, (char *)buffer + bytes_read, (size_t)(bufferSize - bytes_read), bufferPos + bytes_read);
 
-        if (bytes_read != bufferSize)
-        {
-            logger->error("!!readchunk failed for fd {} -- {} vs {} (errno {})", fileHandle, bufferSize, bytes_read, errno);
-            return 0;
+            if (result == -1 && errno == EINTR)
+            {
+                continue;
+            }
+
+            if (result <= 0)
+            {
+                logger->error("!!readchunk failed for fd {} -- {} vs {} (errno {})", fileHandle, bufferSize, bytes_read,
+                              result == 0 ? 0 : errno);
+                return 0;
+            }
+            bytes_read += result;
         }
         return bytes_read;
     }
@@ -840,19 +847,26 @@ int64_t SDSFileWriteChunk(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHand
     }
     else
     {
-        ssize_t bytes_written = pwrite(fileHandle, buffer, (size_t)bufferSize, bufferPos);
+        // pwrite() may write fewer bytes than asked for, or be interrupted; go on until all
+        // bytes are written or an error occurs.
+        int64_t bytes_written = 0;
 
-        // pwrite() returns -1 on error; make sure the write actually succeeded.
-        if (bytes_written == -1)
+        while (bytes_written < bufferSize)
         {
-            logger->error("!!Write failed done  buff:{}  size:{}  pos:{}  errno:{}", buffer, bufferSize, bufferPos, errno);
-            return 0;
-        }
+            ssize_t result =
+                pwrite(fileHandle, (char *)buffer + bytes_written, (size_t)(bufferSize - bytes_written), bufferPos + bytes_written);
 
-        if (bytes_written != bufferSize)
-        {
-            logger->error("!!Write failed small buff:{}  size:{}  pos:{}  errno:{}", buffer, bufferSize, bufferPos, errno);
-            return 0;
+            if (result == -1 && errno == EINTR)
+            {
+                continue;
+            }
+
+            if (result <= 0)
+            {
+                logger->error("!!Write failed done  buff:{}  size:{}  pos:{}  errno:{}", buffer, bufferSize, bufferPos, errno);
+                return 0;
+            }
+            bytes_written += result;
         }
 
         return bytes_written;
@@ -860,14 +874,17 @@ int64_t SDSFileWriteChunk(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHand
 }
 
 //---------------------------------------------------
-void SDSFileClose(SDS_FILE_HANDLE handle)
+// Returns false if data written to the file may have been lost
+bool SDSFileClose(SDS_FILE_HANDLE handle)
 {
     errno = 0;
     int32_t result = close(handle);
     if (result < 0)
     {
         logger->error("Error closing file {}", strerror(errno));
+        return false;
     }
+    return true;
 }
 
 #endif
@@ -927,7 +944,7 @@ typedef int64_t (*SDS_FileReadChunk)(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HAND
                                      int64_t BufferPos);
 typedef int64_t (*SDS_FileWriteChunk)(SDS_EVENT_HANDLE eventHandle, SDS_FILE_HANDLE fileHandle, void * buffer, int64_t bufferSize,
                                       int64_t bufferPos);
-typedef void (*SDS_FileClose)(SDS_FILE_HANDLE handle);
+typedef bool (*SDS_FileClose)(SDS_FILE_HANDLE handle);
 
 class SDSFileIO
 {
-- 
2.43.0


From 1c024216bd66d28014ef134fbb44f15d8cce813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 40/55] fix: SDS section list: size its buffer for any name
 length and check what was read

Long section names ran over the end of the buffer.
---
 src/SDSFile.cpp | 60 ++++++++++++++++++++++++++++++++++---------------
 src/SDSFile.h   |  4 ++--
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 52d4023..3ce1ed0 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2013,8 +2013,13 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
                                                     int64_t newSectionOffset // 0 Allowed
 )
 {
-    // alloc worst case scenario
-    int64_t allocSize = SDS_PAD_NUMBER((((SDS_MAX_SECTIONNAME + 8) * (SectionCount + 1)) + 1024));
+    // names are zero terminated and followed by their offset
+    int64_t allocSize = strlen(pNewSectionName) + 1 + sizeof(int64_t);
+    for (int64_t i = 0; i < SectionCount; i++)
+    {
+        allocSize += strlen(pSectionNames[i]) + 1 + sizeof(int64_t);
+    }
+    allocSize = SDS_PAD_NUMBER(allocSize);
 
     *pListNames = (char *)WORKSPACE_ALLOC(allocSize);
 
@@ -2022,6 +2027,7 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
     {
         return 0;
     }
+    memset(*pListNames, 0, allocSize);
 
     char * pStart = *pListNames;
     char * pDest = *pListNames;
@@ -2057,26 +2063,35 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
 //--------------------------------------------
 // Also zero out pArrayNames, zero out pArrayEnums
 //
-void SDSSectionName::AllocateSectionData(int64_t sectionBlockCount, int64_t sectionSize)
+// Returns false when out of memory
+bool SDSSectionName::AllocateSectionData(int64_t sectionBlockCount, int64_t sectionSize)
 {
-    SectionCount = sectionBlockCount;
+    SectionCount = 0;
     if (pSectionData != NULL)
     {
         logger->debug("Double Allocation sectionData!!");
     }
     pSectionData = (char *)WORKSPACE_ALLOC(sectionSize);
 
+    pSectionNames = (const char **)WORKSPACE_ALLOC(sectionBlockCount * sizeof(void *));
+    pSectionOffsets = (int64_t *)WORKSPACE_ALLOC(sectionBlockCount * sizeof(int64_t));
+    if (! pSectionData || ! pSectionNames || ! pSectionOffsets)
+    {
+        DeleteSectionData();
+        return false;
+    }
+    SectionCount = sectionBlockCount;
+
     // ZERO OUT
-    pSectionNames = (const char **)WORKSPACE_ALLOC(SectionCount * sizeof(void *));
     for (int32_t i = 0; i < SectionCount; i++)
     {
         pSectionNames[i] = NULL;
     }
-    pSectionOffsets = (int64_t *)WORKSPACE_ALLOC(SectionCount * sizeof(int64_t));
     for (int32_t i = 0; i < SectionCount; i++)
     {
         pSectionOffsets[i] = 0;
     }
+    return true;
 }
 
 //----------------------------------------
@@ -2098,15 +2113,17 @@ void SDSSectionName::DeleteSectionData()
         WORKSPACE_FREE(pSectionOffsets);
         pSectionOffsets = NULL;
     }
+    SectionCount = 0;
 }
 
 //--------------------------------------------------------
 // Returns the section names and offsets of sections written
 //
 // Called by DecompressFileIntenral
-void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize)
+// Returns false if the list is damaged
+bool SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize)
 {
-    const char * startSectionData = pSectionData;
+    const char * endSectionData = pSectionData + sectionByteSize;
     const char * pSections = pSectionData;
 
     // for every section
@@ -2115,8 +2132,12 @@ void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int
         const char * pStart = pSections;
 
         // skip to end (search for 0 terminating char)
-        while (*pSections++)
-            ;
+        const char * pEnd = (const char *)memchr(pSections, 0, endSectionData - pSections);
+        if (! pEnd || (endSectionData - (pEnd + 1)) < (int64_t)sizeof(int64_t))
+        {
+            return false;
+        }
+        pSections = pEnd + 1;
 
         // get the offset
         int64_t value = *(int64_t *)pSections;
@@ -2129,10 +2150,8 @@ void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int
 
         // Offset within file to SDS_FILE_OFFSET
         pSectionOffsets[i] = value;
-
-        if ((pSections - startSectionData) >= sectionByteSize)
-            break;
     }
+    return true;
 }
 
 //===============================================================
@@ -2144,7 +2163,10 @@ char * SDSSectionName::MakeFirstSectionName()
     if (SectionCount == 0)
     {
         // Will allocate pSectionData for us
-        AllocateSectionData(1, sizeof(g_firstsectiondata));
+        if (! AllocateSectionData(1, sizeof(g_firstsectiondata)))
+        {
+            return NULL;
+        }
         pSectionNames[0] = g_firstsectioname;
         pSectionOffsets[0] = g_firstsectionoffset;
         SectionCount = 1;
@@ -2171,9 +2193,7 @@ char * SDSSectionName::ReadListSections(SDS_FILE_HANDLE SDSFile, SDS_FILE_HEADER
         logger->debug("Section Block Count {},  sectionSize {}, reserved {}", pFileHeader->SectionBlockCount, sectionSize,
                       pFileHeader->SectionBlockReservedSize);
 
-        AllocateSectionData(pFileHeader->SectionBlockCount, sectionSize);
-
-        if (! pSectionData)
+        if (! AllocateSectionData(pFileHeader->SectionBlockCount, sectionSize))
         {
             SetErr_Format(SDS_VALUE_ERROR, "Decompression error in sectionSize: %lld", sectionSize);
             return NULL;
@@ -2188,7 +2208,11 @@ char * SDSSectionName::ReadListSections(SDS_FILE_HANDLE SDSFile, SDS_FILE_HEADER
         }
 
         // Run through Section list and setup pointers
-        MakeListSections(SectionCount, sectionSize);
+        if (! MakeListSections(SectionCount, sectionSize))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error in section list of size: %lld", sectionSize);
+            return NULL;
+        }
         logger->debug("Returning sections: {}", pSectionData);
         return pSectionData;
     }
diff --git a/src/SDSFile.h b/src/SDSFile.h
index 2b3d047..23eed21 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -417,10 +417,10 @@ public:
                                         const char * pNewSectionName,
                                         int64_t newSectionOffset // 0 Allowed
     );
-    void AllocateSectionData(int64_t sectionBlockCount, int64_t sectionSize);
+    bool AllocateSectionData(int64_t sectionBlockCount, int64_t sectionSize);
 
     void DeleteSectionData();
-    void MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize);
+    bool MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize);
     char * MakeFirstSectionName();
     char * ReadListSections(SDS_FILE_HANDLE SDSFile, SDS_FILE_HEADER * pFileHeader);
     ~SDSSectionName();
-- 
2.43.0


From 372d487e91ce7d86d9db0893d6cc8d3c6e966c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 41/55] fix: SDS shared memory: allocate it fully, validate it,
 and report failures

A full /dev/shm gave a crash, an incomplete save was left visible, and unmapping used freed memory.
---
 src/SDSFile.cpp      | 49 ++++++++++++++++++++++++++++++++--------
 src/SharedMemory.cpp | 54 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 81 insertions(+), 22 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 3ce1ed0..6bb6a69 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -919,18 +919,21 @@ void AddSharedMemory(const char * name, PMAPPED_VIEW_STRUCT pmvs, void * pointer
 
 //------------------------------------------------------------------------------------------
 //
-void DelSharedMemory(void * pBase, int64_t length)
+void DelSharedMemory(PMAPPED_VIEW_STRUCT pmvs)
 {
     auto it = g_SMMap.begin();
 
     while (it != g_SMMap.end())
     {
-        PMAPPED_VIEW_STRUCT pmvs = it->second;
-        // TODO: check range
-        it++;
+        if (it->second == pmvs)
+        {
+            it = g_SMMap.erase(it);
+        }
+        else
+        {
+            it++;
+        }
     }
-
-    // when found g_SMMap.erase(name)
 }
 
 //==========================================================================================
@@ -1049,17 +1052,38 @@ public:
         SharedMemoryName[0] = 0;
         if (pMapStruct)
         {
+            DelSharedMemory(pMapStruct);
             SharedMemoryEnd(pMapStruct);
         }
         pMapStruct = NULL;
     }
 
+    //----------------------------------------------
+    // Like Destroy() for shared memory which was created but could not be filled:
+    // nobody may find it
+    void DestroyIncomplete()
+    {
+#if ! defined(_WIN32)
+        if (pMapStruct)
+        {
+            shm_unlink(SharedMemoryName);
+        }
+#endif
+        Destroy();
+    }
+
+    //----------------------------------------------
+    // Returns false if the existing memory which was mapped does not hold a complete file
+    bool CheckExisting();
+
     //-----------------------------------------------
     // Derives a sharename from a filename
     // NOTE: Often called first before creating memory share
     // On return SharedMemoryName is set
-    void MakeShareName(const char * pszFilename, const char * shareName)
+    // Returns false if the name is too long
+    bool MakeShareName(const char * pszFilename, const char * shareName)
     {
+        SharedMemoryName[0] = 0;
         //
         // Break off any \ or : or / in the file
         //
@@ -1081,6 +1105,12 @@ public:
 
             logger->debug("Orig filename:{} -- mapping: {}", pszFilename, pMappingName);
 
+            // prefix, bang and terminating zero
+            if (strlen(shareName) + strlen(pMappingName) + 10 > sizeof(SharedMemoryName))
+            {
+                return false;
+            }
+
             char * pStart = SharedMemoryName;
 
 #if defined(_WIN32)
@@ -2841,7 +2871,7 @@ int64_t CalculateSharedMemorySize(SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK
     #include <setjmp.h>
     #include <signal.h>
 
-jmp_buf sigbus_jmp;
+sigjmp_buf sigbus_jmp;
 
     /* sighandler_t is a GNU extension; if it's not available, just define it with a
      * typedef. */
@@ -2854,8 +2884,7 @@ sighandler_t sigbus_orighandler;
 void sigbus_termination_handler(int32_t signum)
 {
     // try to recover
-    // NOTE: consider changing to siglongjmp
-    longjmp(sigbus_jmp, 1);
+    siglongjmp(sigbus_jmp, 1);
     // printf("BUS Error while writing to linux shared memory.\n");
 }
 #endif
diff --git a/src/SharedMemory.cpp b/src/SharedMemory.cpp
index 202727d..e116520 100644
--- a/src/SharedMemory.cpp
+++ b/src/SharedMemory.cpp
@@ -718,13 +718,13 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
     // Should we delete it?
     int fd = shm_open(pMappingName, O_RDWR | O_CREAT | O_EXCL, 0666);
 
-    if (fd <= 0)
+    if (fd < 0)
     {
         // Try to delete link and re-open
         shm_unlink(pMappingName);
         fd = shm_open(pMappingName, O_RDWR | O_CREAT | O_EXCL, 0666);
     }
-    if (fd <= 0)
+    if (fd < 0)
     {
         // todo use errno
         // this error can be expected if the shared memory does not exist yet
@@ -760,20 +760,34 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
     int visibility = MAP_SHARED; // | MAP_ANONYMOUS;
 
     // Needed when non MAP_ANONYMOUS
-    int result = ftruncate(fd, size);
-    if (result && errno < 0)
+    int result = ftruncate(fd, size) ? errno : 0;
+
+    // TJD: Note if do not use MAP_ANONYMOUS have to use fallocate to actually
+    // reserve the space, or touching it fails when the shared memory is full
+    if (! result)
+    {
+        do
+        {
+            result = posix_fallocate(fd, 0, size);
+        }
+        while (result == EINTR);
+    }
+
+    if (result)
     {
-        printf("Error UtilSharedMemoryCopy ftruncate: %s\n", strerror(errno));
+        printf("Error UtilSharedMemoryBegin cannot allocate %lld bytes: %s\n", (long long)size, strerror(result));
+        close(fd);
+        shm_unlink(pMappingName);
         return -1;
     }
 
-    // TJD: Note if do not use MAP_ANONYMOUS believe have to use fallocate or
-    // similar to actually reserve the space
     void * memaddress = mmap(0, size, protection, visibility, fd, 0);
 
     if (memaddress == (void *)-1)
     {
         printf("Error UtilSharedMemoryBegin mmap: %s\n", strerror(errno));
+        close(fd);
+        shm_unlink(pMappingName);
         return -1;
     }
 
@@ -784,6 +798,14 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
     //
     PMAPPED_VIEW_STRUCT pMappedViewStruct = static_cast<PMAPPED_VIEW_STRUCT>(WORKSPACE_ALLOC(sizeof(MAPPED_VIEW_STRUCT)));
 
+    if (! pMappedViewStruct)
+    {
+        munmap(memaddress, size);
+        close(fd);
+        shm_unlink(pMappingName);
+        return -1;
+    }
+
     // The remaining parameters to `mmap()` are not important for this use case,
     // but the manpage for `mmap` explains their purpose.
     pMappedViewStruct->FileHandle = fd;
@@ -808,13 +830,13 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
     LOGGING("Trying to open shared memory %s.\n", pMappingName);
     int fd = shm_open(pMappingName, O_RDWR, 0666);
 
-    if (fd <= 0)
+    if (fd < 0)
     {
         bCanOnlyRead = true;
         fd = shm_open(pMappingName, O_RDONLY, 0666);
     }
 
-    if (fd <= 0)
+    if (fd < 0)
     {
         // todo use errno
         printf("UtilSharedMemoryCopy: %s. Error memory copy: %s\n", pMappingName, strerror(errno));
@@ -834,19 +856,20 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
 
     // Get the size of existing shared memory
     struct stat sb;
-    fstat(fd, &sb);
-    off_t size = sb.st_size;
-    if (errno < 0)
+    if (fstat(fd, &sb) != 0)
     {
         printf("Error UtilSharedMemoryCopy fstat: %s\n", strerror(errno));
+        close(fd);
         return -1;
     }
+    off_t size = sb.st_size;
 
     void * memaddress = mmap(NULL, size, protection, visibility, fd, 0);
 
     if (memaddress == (void *)-1)
     {
         printf("Error UtilSharedMemoryCopy mmap: %s  %lld\n", strerror(errno), (long long)size);
+        close(fd);
         return -1;
     }
 
@@ -857,6 +880,13 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
 
     pMappedViewStruct = static_cast<PMAPPED_VIEW_STRUCT>(WORKSPACE_ALLOC(sizeof(MAPPED_VIEW_STRUCT)));
 
+    if (! pMappedViewStruct)
+    {
+        munmap(memaddress, size);
+        close(fd);
+        return -1;
+    }
+
     // The remaining parameters to `mmap()` are not important for this use case,
     // but the manpage for `mmap` explains their purpose.
     pMappedViewStruct->FileHandle = fd;
-- 
2.43.0


From 503c30359f655b4ecc3c5b859e8e205fa93cb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 42/55] fix: saving an SDS file reports every failed write

Errors writing headers, names, meta data, arrays and section lists, failing allocations and failing closes
were ignored, and a file which was not completely written could be appended to.
---
 src/SDSFile.cpp | 288 +++++++++++++++++++++++++++++++++---------------
 src/SDSFile.h   |   3 +
 2 files changed, 201 insertions(+), 90 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 6bb6a69..6a51f48 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2317,6 +2317,13 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
         {
             return BAD_SDS_HANDLE;
         }
+
+        if (pFileHeader->ArraysWritten != pFileHeader->ArrayBlockSize / (int64_t)sizeof(SDS_ARRAY_BLOCK))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append to a file which was not completely written: %s", fileName);
+            DefaultFileIO.FileClose(fileHandle);
+            return BAD_SDS_HANDLE;
+        }
     }
 
     size_t dest_size = strMetaLength;
@@ -2331,6 +2338,7 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
 
         if (! dest)
         {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error out of memory for metadata of file: %s", fileName);
             DefaultFileIO.FileClose(fileHandle);
             return BAD_SDS_HANDLE;
         }
@@ -2348,6 +2356,7 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
         {
             if (CompressIsError(compType, cSize))
             {
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error in metadata of file: %s", fileName);
                 DefaultFileIO.FileClose(fileHandle);
                 WORKSPACE_FREE(dest);
                 return BAD_SDS_HANDLE;
@@ -2367,18 +2376,24 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
 
     pFileHeader->TotalMetaCompressedSize = cSize;
     pFileHeader->TotalMetaUncompressedSize = strMetaLength;
-    DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
+
+    // This header claims that no array was written yet, which marks the file as incomplete, also when there will be none
+    pFileHeader->ArraysWritten = arrayCount ? 0 : -1;
+    bool written = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset) ==
+                   sizeof(SDS_FILE_HEADER);
+    pFileHeader->ArraysWritten = 0;
 
     logger->debug("meta compressed to {} vs {}  {}", cSize, strMetaLength, sizeof(SDS_FILE_HEADER));
 
-    if (listNameLength)
+    if (written && listNameLength)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength, pFileHeader->NameBlockOffset);
+        written = DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength, pFileHeader->NameBlockOffset) ==
+                  listNameLength;
     }
 
-    if (cSize)
+    if (written && cSize)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset);
+        written = DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset) == cSize;
     }
 
     //// PAD THE REST OUT
@@ -2397,15 +2412,27 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
         WORKSPACE_FREE(dest);
     }
 
+    if (! written)
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write to file: %s.  Error: %s", fileName, GetLastErrorMessage());
+        DefaultFileIO.FileClose(fileHandle);
+        return BAD_SDS_HANDLE;
+    }
+
     return fileHandle;
 }
 
 //-------------------------------------------------------
-// NOTE: Should sdsFileHandle be passed as a pointer?  are we closing files
-// twice? Will close file Will free any memory allocated for the arrayblocks and
-// set pointer to NULL
+// Writes whatever describes the arrays already written to the file and closes it.
+//
+// The order of the writes matters: a header is written only after everything it
+// describes, so that a file which was not written to the end does not pass for a
+// complete one, and an incomplete append leaves the sections already there readable.
+//
+// pArrayBlocks is NULL if there are no arrays
+// Returns false (an error was recorded) on failure.
 //-------------------------------------------------------
-void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks,
+bool EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks,
                        SDS_WRITE_INFO * pWriteInfo)
 {
     // close it out
@@ -2415,14 +2442,30 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
 
     int64_t LastFileOffset = pFileHeader->GetEndOfFileOffset();
 
-    // Check if the user is appending to an existing file
-    if (pWriteInfo->sectionName)
+    // Write all of this
+    auto writeAll = [&](void * data, int64_t size, int64_t offset, const char * what) -> bool
     {
-        SDSSectionName cSDSSectionName;
+        if (size > 0 && DefaultFileIO.FileWriteChunk(NULL, sdsFile, data, size, offset) != size)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write %s, %lld bytes at offset %lld.  Error: %s", what,
+                          (long long)size, (long long)offset, GetLastErrorMessage());
+            return false;
+        }
+        return true;
+    };
+
+    bool result = writeAll(pArrayBlocks, pFileHeader->ArrayBlockSize, pFileHeader->ArrayBlockOffset, "array blocks");
+
+    SDSSectionName cSDSSectionName;
+    char * pListNames = NULL;
 
-        // This is the first section name
-        char * pListNames = NULL;
+    // The first file header, if appending
+    SDS_FILE_HEADER fileHeader;
+    bool rewriteFirstHeader = false;
 
+    // Check if the user is appending to an existing file
+    if (result && pWriteInfo->sectionName)
+    {
         // Are we the first entry?
         if (pFileHeader->FileOffset == 0)
         {
@@ -2438,49 +2481,57 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
             pFileHeader->SectionBlockSize = sectionSize;
             pFileHeader->SectionBlockReservedSize = SDS_PAD_NUMBER(sectionSize);
 
-            // write first section header
-            int64_t result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pListNames, pFileHeader->SectionBlockReservedSize,
-                                                          pFileHeader->SectionBlockOffset);
-
-            if (result != pFileHeader->SectionBlockReservedSize)
+            if (! pListNames)
             {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld",
-                              pFileHeader->SectionBlockReservedSize, pFileHeader->SectionBlockOffset);
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error out of memory for section %s", pWriteInfo->sectionName);
+                result = false;
+            }
+            else
+            {
+                // write first section header
+                result = writeAll(pListNames, pFileHeader->SectionBlockReservedSize, pFileHeader->SectionBlockOffset, "section list");
             }
         }
         else
         {
-            // old fileheader
-            SDS_FILE_HEADER fileHeader;
-
             // read in the first file header to get section information since we are
             // appending another section
-            int64_t result = ReadFileHeader(sdsFile, &fileHeader, 0, "reread");
-
-            if (result == 0)
+            if (ReadFileHeader(sdsFile, &fileHeader, 0, "reread") != 0)
             {
-                char * pSectionNames = cSDSSectionName.ReadListSections(sdsFile, &fileHeader);
+                // an error was recorded and the file closed
+                return false;
+            }
 
-                // If the user is appending a section for the first time but the file
-                // already exists. In this case the blockcount is really 1 but the first
-                // section has no name
-                if (! pSectionNames)
-                {
-                    pSectionNames = cSDSSectionName.MakeFirstSectionName();
-                    fileHeader.SectionBlockCount = 1;
-                }
+            char * pSectionNames = cSDSSectionName.ReadListSections(sdsFile, &fileHeader);
 
-                int64_t blockCount = fileHeader.SectionBlockCount;
+            // If the user is appending a section for the first time but the file
+            // already exists. In this case the blockcount is really 1 but the first
+            // section has no name
+            if (! pSectionNames && fileHeader.SectionBlockSize == 0)
+            {
+                pSectionNames = cSDSSectionName.MakeFirstSectionName();
+                fileHeader.SectionBlockCount = 1;
+            }
 
-                logger->debug(
-                    "SDS: Writing section {} with blockcount:{} at {} ({}) "
-                    "at {}",
-                    pWriteInfo->sectionName, blockCount, pFileHeader->FileOffset, fileHeader.FileOffset, LastFileOffset);
-                int64_t sectionSize =
+            int64_t sectionSize = 0;
+            if (pSectionNames)
+            {
+                logger->debug("SDS: Writing section {} with blockcount:{} at {} ({}) at {}", pWriteInfo->sectionName,
+                              fileHeader.SectionBlockCount, pFileHeader->FileOffset, fileHeader.FileOffset, LastFileOffset);
+                sectionSize =
                     cSDSSectionName.BuildSectionNamesAndOffsets(&pListNames, pWriteInfo->sectionName, pFileHeader->FileOffset);
+            }
 
+            if (! pListNames)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot build the section list for section %s",
+                              pWriteInfo->sectionName);
+                result = false;
+            }
+            else
+            {
                 // Mark this section as older
-                fileHeader.SectionBlockCount = blockCount + 1;
+                fileHeader.SectionBlockCount++;
                 fileHeader.SectionBlockSize = sectionSize;
 
                 logger->debug("SDS: new section size {} vs {}", sectionSize, fileHeader.SectionBlockReservedSize);
@@ -2491,49 +2542,40 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
                     fileHeader.SectionBlockOffset = LastFileOffset;
                     fileHeader.SectionBlockReservedSize = SDS_PAD_NUMBER(sectionSize);
                 }
-            }
-
-            // update or rewrite section header
-            result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pListNames, fileHeader.SectionBlockReservedSize,
-                                                  fileHeader.SectionBlockOffset);
 
-            if (result != fileHeader.SectionBlockReservedSize)
-            {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld",
-                              fileHeader.SectionBlockReservedSize, fileHeader.SectionBlockOffset);
-            }
-
-            // update first file header
-            result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, &fileHeader, sizeof(SDS_FILE_HEADER), 0);
-            if (result != sizeof(SDS_FILE_HEADER))
-            {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot rewrite fileheader\n");
+                // update or rewrite section header
+                int64_t writeSize = SDS_PAD_NUMBER(sectionSize);
+                if (writeSize > fileHeader.SectionBlockReservedSize)
+                {
+                    writeSize = fileHeader.SectionBlockReservedSize;
+                }
+                result = writeAll(pListNames, writeSize, fileHeader.SectionBlockOffset, "section list");
+                rewriteFirstHeader = true;
             }
         }
-
-        if (pListNames)
-            WORKSPACE_FREE(pListNames);
     }
 
+    if (pListNames)
+        WORKSPACE_FREE(pListNames);
+
     // Timestamp
     pFileHeader->TimeStampUTCNanos = GetUTCNanos();
 
-    int64_t result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pFileHeader, sizeof(SDS_FILE_HEADER), pFileHeader->FileOffset);
-    if (result != sizeof(SDS_FILE_HEADER))
-    {
-        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write fileheader at offset %lld\n", pFileHeader->FileOffset);
-    }
+    result = result && writeAll(pFileHeader, sizeof(SDS_FILE_HEADER), pFileHeader->FileOffset, "fileheader");
     logger->debug("Total arrays written {}  --- {} {}", pFileHeader->ArraysWritten, sizeof(SDS_FILE_HEADER), result);
 
-    result = DefaultFileIO.FileWriteChunk(NULL, sdsFile, pArrayBlocks, pFileHeader->ArrayBlockSize, pFileHeader->ArrayBlockOffset);
-    logger->debug("array block offset --- {} {}  {}", pFileHeader->ArrayBlockOffset, pFileHeader->ArrayBlockSize,
-                  pArrayBlocks[0].ArrayDataOffset);
-    if (result != pFileHeader->ArrayBlockSize)
+    // update first file header
+    if (rewriteFirstHeader)
     {
-        logger->error("!!!Internal error closing compressed file");
+        result = result && writeAll(&fileHeader, sizeof(SDS_FILE_HEADER), 0, "first fileheader");
     }
 
-    DefaultFileIO.FileClose(sdsFile);
+    if (! DefaultFileIO.FileClose(sdsFile) && result)
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot close the file.  Error: %s", GetLastErrorMessage());
+        result = false;
+    }
+    return result;
 }
 
 //----------------------------------------------------------
@@ -2661,7 +2703,8 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         wantedSize += bandCount * sizeof(int64_t);
     }
 
-    if (pstCompressArrays->pCoreMemorySize[core] < wantedSize)
+    // Temporary memory is needed only to compress
+    if (pstCompressArrays->compType == COMPRESSION_TYPE_ZSTD && pstCompressArrays->pCoreMemorySize[core] < wantedSize)
     {
         if (pstCompressArrays->pCoreMemory[core])
         {
@@ -2669,8 +2712,8 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
             WORKSPACE_FREE(pstCompressArrays->pCoreMemory[core]);
         }
 
-        pstCompressArrays->pCoreMemorySize[core] = wantedSize;
         pstCompressArrays->pCoreMemory[core] = WORKSPACE_ALLOC(wantedSize);
+        pstCompressArrays->pCoreMemorySize[core] = pstCompressArrays->pCoreMemory[core] ? wantedSize : 0;
 
         logger->debug("-");
     }
@@ -2682,7 +2725,11 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     void * pTempMemory = pstCompressArrays->pCoreMemory[core];
 
     // Make sure we were able to alloc memory
-    if (pTempMemory)
+    if (! pTempMemory && pstCompressArrays->compType == COMPRESSION_TYPE_ZSTD)
+    {
+        InterlockedAdd64(&pstCompressArrays->failedArrays, 1);
+    }
+    else
     {
         logger->debug("[{}] started {} {}", (int)t, source_size, pTempMemory);
 
@@ -2827,6 +2874,7 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
                 "[{}] error while writing into compressed  offset:{}  sz: {} "
                 " vs {}",
                 t, fileOffset, cSize, result);
+            InterlockedAdd64(&pstCompressArrays->failedArrays, 1);
         }
     }
 
@@ -2963,7 +3011,11 @@ bool SDSWriteFileInternal(const char * fileName,
             logger->debug("Making sharedname {}", shareName);
 
             // Try to allocate sharename
-            DefaultMemoryIO.MakeShareName(fileName, shareName);
+            if (! DefaultMemoryIO.MakeShareName(fileName, shareName))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Shared memory name is too long: %s  %s", shareName, fileName);
+                return false;
+            }
 
             // Calculate size of shared memory
             int64_t totalSize = CalculateSharedMemorySize(pFileHeader, NULL);
@@ -2978,13 +3030,14 @@ bool SDSWriteFileInternal(const char * fileName,
 
             // Make sure we can allocate it
             HRESULT hr = DefaultMemoryIO.Begin(totalSize);
+            volatile bool isStored = false;
 
             if (hr >= 0)
             {
 #if defined(_WIN32)
                 // For windows consider MS _try to catch more exceptions
 #else
-                if (setjmp(sigbus_jmp) == 0)
+                if (sigsetjmp(sigbus_jmp, 1) == 0)
                 {
                     // for linux handle SIGBUS, other errors
                     sigbus_orighandler = signal(SIGBUS, sigbus_termination_handler);
@@ -2996,6 +3049,8 @@ bool SDSWriteFileInternal(const char * fileName,
 
                     logger->debug("Writing header to {} from {}", (void *)pMemoryFileHeader, (void *)pFileHeader);
                     // Step 1: copy fileheader
+                    // (without the magic number until everything is there)
+                    pFileHeader->SDSHeaderMagic = 0;
                     memcpy(pMemoryFileHeader, pFileHeader, sizeof(SDS_FILE_HEADER));
 
                     logger->debug("Step 2");
@@ -3031,9 +3086,6 @@ bool SDSWriteFileInternal(const char * fileName,
                         int32_t ndim = aInfo[arrayNumber].NDim;
                         if (ndim > SDS_MAX_DIMS)
                             ndim = SDS_MAX_DIMS;
-                        if (ndim < 1)
-                            ndim = 1;
-
                         pDestArrayBlock[arrayNumber].NDim = (int8_t)ndim;
 
                         for (int32_t j = 0; j < SDS_MAX_DIMS; j++)
@@ -3066,10 +3118,15 @@ bool SDSWriteFileInternal(const char * fileName,
                         // pDestArrayBlock[arrayNumber].ArrayUncompressedSize,
                         // DefaultMemoryIO.GetMemoryOffset(pDestArrayBlock[arrayNumber].ArrayDataOffset));
 
-                        memcpy(DefaultMemoryIO.GetMemoryOffset(pDestArrayBlock[arrayNumber].ArrayDataOffset),
-                               aInfo[arrayNumber].pData, pDestArrayBlock[arrayNumber].ArrayUncompressedSize);
+                        if (aInfo[arrayNumber].pData)
+                        {
+                            memcpy(DefaultMemoryIO.GetMemoryOffset(pDestArrayBlock[arrayNumber].ArrayDataOffset),
+                                   aInfo[arrayNumber].pData, pDestArrayBlock[arrayNumber].ArrayUncompressedSize);
+                        }
                     }
 
+                    pMemoryFileHeader->SDSHeaderMagic = SDS_MAGIC;
+                    isStored = true;
                     logger->debug("Succeeded in copying memory");
                     // Keep handle open?
                 }
@@ -3092,13 +3149,25 @@ bool SDSWriteFileInternal(const char * fileName,
                 // For linux restore signal handler
                 signal(SIGBUS, sigbus_orighandler);
                 // For linux ok to close it since /dev/shm has it
-                DefaultMemoryIO.Destroy();
+                if (isStored)
+                {
+                    DefaultMemoryIO.Destroy();
+                }
+                else
+                {
+                    DefaultMemoryIO.DestroyIncomplete();
+                }
 #endif
             }
             else
             {
                 logger->error("!!Failed to create shared memory");
             }
+            if (! isStored)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Cannot store %lld bytes in shared memory for file %s", totalSize, fileName);
+                return false;
+            }
         }
         else
         {
@@ -3117,9 +3186,12 @@ bool SDSWriteFileInternal(const char * fileName,
             logger->debug("Current fileoffset is {}", pFileHeader->FileOffset);
             if (sdsFile)
             {
-                // Allocate an arrayblock and zero it out
-                SDS_ARRAY_BLOCK * pArrayBlocks = (SDS_ARRAY_BLOCK *)WORKSPACE_ALLOC(pFileHeader->ArrayBlockSize);
-                memset(pArrayBlocks, 0, pFileHeader->ArrayBlockSize);
+                // Allocate an arrayblock and zero it out (there may be no arrays)
+                SDS_ARRAY_BLOCK * pArrayBlocks = NULL;
+                if (arrayCount > 0)
+                {
+                    pArrayBlocks = (SDS_ARRAY_BLOCK *)WORKSPACE_ALLOC(pFileHeader->ArrayBlockSize);
+                }
 
                 //------------------ Allocate struct to hold information during
                 // processing SDS_WRITE_COMPRESS_ARRAYS* pstCompressArrays =
@@ -3127,7 +3199,28 @@ bool SDSWriteFileInternal(const char * fileName,
                 // + (arrayCount * sizeof(SDSArrayInfo)));
                 SDS_WRITE_COMPRESS_ARRAYS * pstCompressArrays =
                     (SDS_WRITE_COMPRESS_ARRAYS *)WORKSPACE_ALLOC(sizeof(SDS_WRITE_COMPRESS_ARRAYS));
+
+                if (! pstCompressArrays || (arrayCount > 0 && ! pArrayBlocks))
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Compression error out of memory for %lld arrays", (long long)arrayCount);
+                    if (pArrayBlocks)
+                    {
+                        WORKSPACE_FREE(pArrayBlocks);
+                    }
+                    if (pstCompressArrays)
+                    {
+                        WORKSPACE_FREE(pstCompressArrays);
+                    }
+                    DefaultFileIO.FileClose(sdsFile);
+                    return false;
+                }
+
+                if (pArrayBlocks)
+                {
+                    memset(pArrayBlocks, 0, pFileHeader->ArrayBlockSize);
+                }
                 pstCompressArrays->totalHeaders = arrayCount;
+                pstCompressArrays->failedArrays = 0;
 
                 //---------------------
                 if (level <= 0)
@@ -3174,15 +3267,30 @@ bool SDSWriteFileInternal(const char * fileName,
                     }
                 }
 
-                // TODO: Have class that holds sdsdFile, fileheader
-                EndCompressedFile(sdsFile, pFileHeader, pArrayBlocks, pWriteInfo);
+                bool complete = pstCompressArrays->failedArrays == 0;
+                if (complete)
+                {
+                    // TODO: Have class that holds sdsdFile, fileheader
+                    complete = EndCompressedFile(sdsFile, pFileHeader, pArrayBlocks, pWriteInfo);
+                }
+                else
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write %lld of %lld arrays to file: %s",
+                                  (long long)pstCompressArrays->failedArrays, (long long)arrayCount, fileName);
+                    DefaultFileIO.FileClose(sdsFile);
+                }
 
-                WORKSPACE_FREE(pArrayBlocks);
+                if (pArrayBlocks)
+                {
+                    WORKSPACE_FREE(pArrayBlocks);
+                }
                 WORKSPACE_FREE(pstCompressArrays);
+                return complete;
             }
             else
             {
                 logger->debug("Failure to start compressed file {}", fileName);
+                return false;
             }
         }
     }
diff --git a/src/SDSFile.h b/src/SDSFile.h
index 23eed21..c4fc270 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -511,6 +511,9 @@ struct SDS_WRITE_COMPRESS_ARRAYS
     // Used when going to shared memory
     class SharedMemory * pMemoryIO;
 
+    // How many arrays could not be written
+    int64_t failedArrays;
+
     int64_t totalHeaders;
     int16_t compMode;
     int16_t compType;
-- 
2.43.0


From f1f2da730ebf75e8f43ade1faba7e4debe90379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 43/55] fix: loading an SDS file checks what it reads and
 reports every error

Truncated or damaged files and read errors gave wrong data, None or a crash. Empty banded arrays could not
be read. Results of failed reads were leaked or returned.
---
 src/MultiKey.cpp      |  10 +-
 src/SDSFile.cpp       | 892 ++++++++++++++++++++++++++++++++++--------
 src/SDSFile.h         |   8 +
 src/SDSFilePython.cpp | 231 ++++++++---
 4 files changed, 909 insertions(+), 232 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 67e0f04..a0378e8 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -172,6 +172,13 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
     // NOTE: If the list is empty, this will allocate 0 memory (which C99 says can
     // return NULL
     ArrayInfo * aInfo = AllocArrayInfo(tupleSize);
+    if (! aInfo)
+    {
+        PyErr_NoMemory();
+        *pTupleSize = 0;
+        *pTotalItemSize = 0;
+        return NULL;
+    }
 
     int64_t totalItemSize = 0;
 
@@ -241,8 +248,9 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                 goto EXIT_ROUTINE;
             }
 
-            int64_t stride0 = PyArray_STRIDE((PyArrayObject *)inObject, 0);
             int64_t itemSize = aInfo[i].ItemSize;
+            // an array without dimensions has no strides
+            int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject *)inObject, 0) : itemSize;
 
             if (checkrows)
             {
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 6a51f48..dc9a6a4 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -300,12 +300,12 @@ static size_t DecompressDataPartial(int32_t core, int32_t compMode, void * dst,
         do
         {
             cErr = ZSTD_decompressStream(dctx, &output, &input);
-            if (cErr < 0)
+            if (ZSTD_isError(cErr))
                 break;
         }
         while (input.pos < input.size && output.pos < output.size);
 
-        if (cErr >= 0)
+        if (! ZSTD_isError(cErr))
         {
             cErr = output.pos;
         }
@@ -1138,6 +1138,7 @@ public:
                 ;
             logger->debug("Shared memory name is {}", SharedMemoryName);
         }
+        return true;
     }
 
 } DefaultMemoryIO;
@@ -1303,6 +1304,13 @@ int64_t GetBytesPerRow(SDS_ARRAY_BLOCK * pBlockInfo)
     int64_t bytesPerRow = 0;
     int64_t dim0 = pBlockInfo->Dimensions[0];
     int64_t arrayLength = dim0;
+
+    // an array without dimensions is one row
+    if (pBlockInfo->NDim < 1)
+    {
+        return pBlockInfo->ItemSize;
+    }
+
     for (int32_t i = 1; i < pBlockInfo->NDim; i++)
     {
         arrayLength *= pBlockInfo->Dimensions[i];
@@ -1360,6 +1368,12 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
 {
     int64_t result = -1;
 
+    // Nothing to read when there are no rows, or when every row is filtered out
+    if (bytesPerRow <= 0 || pFilter->BoolMaskTrueCount == 0 || rowOffset >= pFilter->BoolMaskLength)
+    {
+        return 0;
+    }
+
     int64_t lastRow = pFilter->BoolMaskLength;
     int64_t lastPossibleRow = (uncompressedSize - bytesPerRow) / bytesPerRow;
     int64_t lastData = (bytesPerRow * lastRow);
@@ -1377,6 +1391,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // Read compressed chunk directly into our destBuffer
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, lastData, arrayDataOffset);
+            if (result != lastData)
+            {
+                logger->error("[{}][{}] error while reading filtered rows  sz: {}", core, stackIndex, lastData);
+                result = -1;
+            }
         }
         else
         {
@@ -1420,6 +1439,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                     result = -1;
                 }
             }
+            else
+            {
+                logger->error("[{}][{}] error while reading filtered rows  sz: {}", core, stackIndex, compressedSize);
+                result = -1;
+            }
         }
     }
     else
@@ -1427,23 +1451,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         //===================================================
         // bool MASK
         // TODO: check for out of bounds lastBand and if found reduce masklength
-        int64_t lastRow = pFilter->BoolMaskLength;
-
-        if (rowOffset > lastRow)
-        {
-            // nothing to do
-            logger->debug("nothing to read all filtered out!");
-            return result;
-        }
         logger->debug(
             "Boolmask bpr:{}  ai:{}  rowOffset:{}  fixup:{}  "
             "masklength:{}",
             bytesPerRow, stackIndex, rowOffset, 0LL, pFilter->BoolMaskLength);
 
-        // Make sure something to read
-        // if (pFilter->pFilterInfo && pFilter->pFilterInfo[stackIndex].TrueCount >
-        // 0) {
-        if (pFilter->BoolMaskTrueCount > 0)
         {
             bool uncompressedRead = false;
 
@@ -1459,7 +1471,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                 result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, tempBuffer, compressedSize, arrayDataOffset);
             }
 
-            if (result == compressedSize)
+            bool isRead = (result == compressedSize);
+            result = -1;
+
+            if (isRead)
             {
                 // Copy all true rows
                 bool * pMask = pFilter->pBoolMask + rowOffset;
@@ -1484,6 +1499,7 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
 
                     if (dcSize == uncompressedSize)
                     {
+                        result = compressedSize;
                         char * pDest = (char *)destBuffer;
                         int64_t sectionLength = uncompressedSize / bytesPerRow;
 
@@ -1564,11 +1580,64 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                     WORKSPACE_FREE(pTempBuffer);
                 }
             }
+
+            if (result < 0)
+            {
+                logger->error("[{}][{}] error while reading filtered rows  sz: {}", core, stackIndex, compressedSize);
+            }
         }
     }
     return result;
 }
 
+//-----------------------------------------------------
+// Returns true if the array data was stored as is: no bands, no compression
+// (The stored size of banded data may equal the uncompressed size by chance)
+static bool IsStoredAsIs(const SDS_ARRAY_BLOCK * pBlockInfo)
+{
+    return pBlockInfo->ArrayBandCount <= 0 && pBlockInfo->ArrayCompressedSize == pBlockInfo->ArrayUncompressedSize;
+}
+
+//-----------------------------------------------------
+// Read and check the table of band offsets which is stored in front of the bands.
+// On return: bands has the offset of the end of each band
+// Returns false if the table could not be read or does not fit the array
+static bool ReadBandOffsets(const SDS_ARRAY_BLOCK * pBlockInfo, int64_t bytesPerRow, SDS_EVENT_HANDLE eventHandle,
+                            SDS_FILE_HANDLE fileHandle, std::unique_ptr<int64_t[]> & bands)
+{
+    int64_t bandCount = pBlockInfo->ArrayBandCount;
+    int64_t bandDataSize = bandCount * sizeof(int64_t);
+    int64_t rowCount = bytesPerRow > 0 ? pBlockInfo->ArrayUncompressedSize / bytesPerRow : 0;
+
+    // every band but the last one is full
+    if (pBlockInfo->ArrayBandSize <= 0 || bandDataSize > pBlockInfo->ArrayCompressedSize ||
+        (bandCount - 1) > rowCount / pBlockInfo->ArrayBandSize)
+    {
+        logger->error("!!!Error in band count {}", bandCount);
+        return false;
+    }
+
+    bands.reset(new (std::nothrow) int64_t[bandCount]);
+    if (! bands ||
+        DefaultFileIO.FileReadChunk(eventHandle, fileHandle, bands.get(), bandDataSize, pBlockInfo->ArrayDataOffset) != bandDataSize)
+    {
+        logger->error("!!!Error reading in band header");
+        return false;
+    }
+
+    int64_t previous = 0;
+    for (int64_t i = 0; i < bandCount; i++)
+    {
+        if (bands[i] < previous || bands[i] > pBlockInfo->ArrayCompressedSize - bandDataSize)
+        {
+            logger->error("!!!Error in band header");
+            return false;
+        }
+        previous = bands[i];
+    }
+    return true;
+}
+
 //-----------------------------------------------------
 // Called when a filter is passed in to read
 // The data is banded.
@@ -1584,10 +1653,6 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
 
                                         int64_t bandDataSize, int64_t * pBands)
 {
-    // Check if all filtered out
-    if (pFilter->pFilterInfo && pFilter->pFilterInfo[stackIndex].TrueCount == 0)
-        return 0;
-
     int64_t arrayDataOffset = pBlockInfo->ArrayDataOffset + bandDataSize;
     char * destBandBuffer = (char *)destBuffer;
 
@@ -1600,7 +1665,7 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
     int64_t boolLength = pFilter->BoolMaskLength;
     int64_t bandStart = 0;
     int64_t bandIndex = 0;
-    int64_t result = -1;
+    int64_t result = 0;
     int64_t runningTrueCount = 0;
 
     logger->debug(
@@ -1670,6 +1735,10 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
                                           tempBuffer, destBandBuffer, &tempFilter, rowOffset,
                                           0, // fake to 0 to read our filterinfo
                                           core, compMode);
+            if (result < 0)
+            {
+                break;
+            }
 
             // TODO change based on how many true values in the mask
             destBandBuffer += (trueCount * bytesPerRow);
@@ -1704,6 +1773,13 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
 {
     int64_t result = -1;
     bool didAlloc = false;
+    int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
+
+    // Check if there are no rows or if all are filtered out
+    if (bytesPerRow <= 0 || (pFilter->pFilterInfo && pFilter->pFilterInfo[stackIndex].TrueCount == 0))
+    {
+        return 0;
+    }
 
     if (! tempBuffer)
     {
@@ -1722,23 +1798,17 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
                           pBlockInfo->ArrayUncompressedSize);
 
             // read in band header
-            // allocate memory on the stack
             int64_t bandDataSize = pBlockInfo->ArrayBandCount * sizeof(int64_t);
-            int64_t * pBands = (int64_t *)alloca(bandDataSize);
-            result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, pBands, bandDataSize, pBlockInfo->ArrayDataOffset);
+            std::unique_ptr<int64_t[]> bands;
 
-            if (result == bandDataSize)
+            if (ReadBandOffsets(pBlockInfo, bytesPerRow, eventHandle, fileHandle, bands))
             {
                 // read from banded decompressed into array
                 result = ReadAndDecompressBandWithFilter(pBlockInfo, eventHandle, fileHandle, tempBuffer, destBuffer, pFilter,
                                                          rowOffset, // the rowOffset # we are on
                                                          stackIndex,
                                                          core, // thread # we are on
-                                                         compMode, bandDataSize, pBands);
-            }
-            else
-            {
-                logger->error("!!!Error reading in band header");
+                                                         compMode, bandDataSize, bands.get());
             }
         }
         else
@@ -1746,7 +1816,7 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
             // No bands, but compressed and a filter exists
             // read from decompressed into array
             result = DecompressWithFilter(pBlockInfo->ArrayCompressedSize, pBlockInfo->ArrayUncompressedSize,
-                                          pBlockInfo->ArrayDataOffset, GetBytesPerRow(pBlockInfo), eventHandle, fileHandle,
+                                          pBlockInfo->ArrayDataOffset, bytesPerRow, eventHandle, fileHandle,
                                           tempBuffer, destBuffer, pFilter, rowOffset, stackIndex, core, compMode);
         }
     }
@@ -1784,11 +1854,17 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
     int64_t result = -1;
     int64_t compressedSize = pBlockInfo->ArrayCompressedSize;
 
+    // Check if there is nothing to read
+    if (pBlockInfo->ArrayUncompressedSize == 0)
+    {
+        return 0;
+    }
+
     logger->debug("[{}] seek to {}  sz: {}  <-- ReadAndDecompressArrayBlock", arrayIndex, pBlockInfo->ArrayDataOffset,
                   pBlockInfo->ArrayCompressedSize);
 
     // Check if uncompressed
-    if (compressedSize == pBlockInfo->ArrayUncompressedSize)
+    if (IsStoredAsIs(pBlockInfo))
     {
         // Read uncompressed chunk directly into our destination
         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, compressedSize, pBlockInfo->ArrayDataOffset);
@@ -1811,18 +1887,17 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             // pBlockInfo->ArrayUncompressedSize);
 
             // read in band
-            // allocate memory on the stack
             int64_t bandDataSize = pBlockInfo->ArrayBandCount * sizeof(int64_t);
-            int64_t * pBands = (int64_t *)alloca(bandDataSize);
-            result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, pBands, bandDataSize, pBlockInfo->ArrayDataOffset);
+            std::unique_ptr<int64_t[]> pBands;
 
             int64_t arrayDataOffset = pBlockInfo->ArrayDataOffset + bandDataSize;
             char * destBandBuffer = (char *)destBuffer;
 
             int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
 
-            if (result == bandDataSize)
+            if (ReadBandOffsets(pBlockInfo, bytesPerRow, eventHandle, fileHandle, pBands))
             {
+                result = bandDataSize;
                 int64_t previousSize = 0;
 
                 for (int32_t i = 0; i < pBlockInfo->ArrayBandCount; i++)
@@ -1858,8 +1933,11 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, tempBuffer, compressedSize, arrayDataOffset);
                         // printf("[%d] decompressing  %d  size %lld  uncomp: %lld\n", core,
                         // i, compressedSize, uncompressedSize);
-                        int64_t dcSize =
-                            DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize);
+                        int64_t dcSize = -1;
+                        if (result == compressedSize)
+                        {
+                            dcSize = DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize);
+                        }
                         if (dcSize != uncompressedSize)
                         {
                             logger->error(
@@ -1875,10 +1953,6 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                     destBandBuffer += uncompressedSize;
                 }
             }
-            else
-            {
-                logger->error("!!!Error reading in band header");
-            }
         }
         else
         {
@@ -2028,9 +2102,104 @@ int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader
         return -1;
     }
 
+    // Every array must have been written, and no size or count can be negative or more than its block holds
+    if (pFileHeader->NameBlockSize < 0 || pFileHeader->NameBlockOffset < 0 || pFileHeader->NameBlockCount < 0 ||
+        pFileHeader->NameBlockCount > pFileHeader->NameBlockSize / 2 || pFileHeader->MetaBlockOffset < 0 ||
+        pFileHeader->TotalMetaCompressedSize < 0 || pFileHeader->TotalMetaUncompressedSize < 0 ||
+        pFileHeader->ArrayBlockSize < 0 || pFileHeader->ArrayBlockOffset < 0 || pFileHeader->ArraysWritten < 0 ||
+        pFileHeader->ArraysWritten > INT32_MAX ||
+        pFileHeader->ArrayBlockSize != pFileHeader->ArraysWritten * (int64_t)sizeof(SDS_ARRAY_BLOCK) ||
+        pFileHeader->SectionBlockSize < 0 || pFileHeader->SectionBlockOffset < 0 || pFileHeader->SectionBlockCount < 0 ||
+        pFileHeader->SectionBlockReservedSize < 0 ||
+        pFileHeader->SectionBlockCount > pFileHeader->SectionBlockSize / (int64_t)(1 + sizeof(int64_t)))
+    {
+        SetErr_Format(SDS_VALUE_ERROR,
+                      "Decompression error cannot use header for file (incomplete or corrupt): %s  arrays: %lld  fileoffset: %lld",
+                      fileName, pFileHeader->ArraysWritten, fileOffset);
+        DefaultFileIO.FileClose(fileHandle);
+        return -1;
+    }
+
     return 0;
 }
 
+static int32_t GetFixedItemSize(int32_t dtype, int64_t itemsize);
+
+//----------------------------------------
+// Returns false if an array block makes no sense
+static bool CheckArrayBlocks(SDS_ARRAY_BLOCK * pArrayBlocks, int64_t arrayCount)
+{
+    for (int64_t i = 0; i < arrayCount; i++)
+    {
+        SDS_ARRAY_BLOCK * pBlock = &pArrayBlocks[i];
+
+        // this flag is only used while reading
+        pBlock->Flags &= ~SDS_ARRAY_FILTERED;
+
+        if (pBlock->NDim < 0 || pBlock->NDim > SDS_MAX_DIMS || pBlock->ItemSize < 0 || pBlock->DType < SDS_BOOL ||
+            pBlock->DType > SDS_VOID || pBlock->DType == SDS_OBJECT || pBlock->ArrayDataOffset < 0 ||
+            pBlock->ArrayCompressedSize < 0 || pBlock->ArrayUncompressedSize < 0)
+        {
+            return false;
+        }
+
+        // saved as None
+        if (pBlock->NDim == 0 && pBlock->ItemSize == 0)
+        {
+            continue;
+        }
+
+        // string and void types have any size, unicode has four bytes per character
+        int32_t itemSize = GetFixedItemSize(pBlock->DType, pBlock->ItemSize);
+        if ((itemSize != 0 && itemSize != pBlock->ItemSize) || (pBlock->DType == SDS_UNICODE && pBlock->ItemSize % 4 != 0))
+        {
+            return false;
+        }
+
+        // the dimensions must account for all the data
+        int64_t totalSize = pBlock->ItemSize;
+        bool isEmpty = totalSize == 0;
+        for (int32_t j = 0; j < pBlock->NDim; j++)
+        {
+            if (pBlock->Dimensions[j] < 0)
+            {
+                return false;
+            }
+            if (pBlock->Dimensions[j] == 0)
+            {
+                isEmpty = true;
+            }
+            else if (! isEmpty)
+            {
+                if (pBlock->Dimensions[j] > INT64_MAX / totalSize)
+                {
+                    return false;
+                }
+                totalSize *= pBlock->Dimensions[j];
+            }
+        }
+        if (pBlock->ArrayUncompressedSize != (isEmpty ? 0 : totalSize))
+        {
+            return false;
+        }
+
+        // the data is always contiguous
+        if (! isEmpty)
+        {
+            bool isFortran =
+                (pBlock->Flags & (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS)) == SDS_ARRAY_F_CONTIGUOUS;
+            int64_t stride = pBlock->ItemSize;
+            for (int32_t j = 0; j < pBlock->NDim; j++)
+            {
+                int32_t dim = isFortran ? j : pBlock->NDim - 1 - j;
+                pBlock->Strides[dim] = stride;
+                stride *= pBlock->Dimensions[dim];
+            }
+        }
+    }
+    return true;
+}
+
 //----------------------------------------
 //
 //-----------------------------------------------------------
@@ -2621,7 +2790,7 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if (source_size != pBlockInfo->ArrayUncompressedSize && (pstCompressArrays->pCoreMemorySize[core] < source_size))
+        if (! IsStoredAsIs(pBlockInfo) && (pstCompressArrays->pCoreMemorySize[core] < source_size))
         {
             //  Not large enough, allocate more
             if (pstCompressArrays->pCoreMemory[core])
@@ -2631,8 +2800,8 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
             }
 
             // Reallocate larger memory
-            pstCompressArrays->pCoreMemorySize[core] = source_size;
             pstCompressArrays->pCoreMemory[core] = WORKSPACE_ALLOC(source_size);
+            pstCompressArrays->pCoreMemorySize[core] = pstCompressArrays->pCoreMemory[core] ? source_size : 0;
 
             // Log that we were forced to reallocate
             logger->debug("forced to reallocate...");
@@ -2640,18 +2809,25 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
 
         void * tempBuffer = pstCompressArrays->pCoreMemory[core];
 
+        int64_t result = -1;
+
         if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
-            int64_t result =
+            result =
                 ReadAndDecompressArrayBlockWithFilter(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
                                                       destBuffer, 0, pstCompressArrays->pFilter, t, core, COMPRESSION_TYPE_ZSTD);
         }
         else
         {
             // No stacking, no filtering
-            int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
-                                                         destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
+            result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
+                                                 destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
+        }
+
+        if (result < 0)
+        {
+            InterlockedAdd64(&pstCompressArrays->failedArrays, 1);
         }
     }
 
@@ -2884,6 +3060,52 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
 //------------------------------------------------------------
 // Return amount of memory needed to allocate
 //
+bool SharedMemory::CheckExisting()
+{
+    const SDS_FILE_HEADER * pHeader = GetFileHeader();
+    const int64_t size = pMapStruct->FileSize;
+
+    auto isInside = [size](int64_t offset, int64_t length)
+    {
+        return offset >= 0 && length >= 0 && offset <= size && length <= size - offset;
+    };
+
+    if (size < (int64_t)sizeof(SDS_FILE_HEADER) || pHeader->SDSHeaderMagic != SDS_MAGIC ||
+        pHeader->VersionHigh != SDS_VERSION_HIGH || ! isInside(pHeader->NameBlockOffset, pHeader->NameBlockSize) ||
+        ! isInside(pHeader->MetaBlockOffset, pHeader->MetaBlockSize) ||
+        ! isInside(pHeader->ArrayBlockOffset, pHeader->ArrayBlockSize) || pHeader->ArraysWritten < 0 ||
+        pHeader->ArraysWritten > pHeader->ArrayBlockSize / (int64_t)sizeof(SDS_ARRAY_BLOCK))
+    {
+        return false;
+    }
+
+    // names are followed by one byte
+    const char * pName = GetMemoryOffset(pHeader->NameBlockOffset);
+    const char * pEndName = pName + pHeader->NameBlockSize;
+    for (int64_t i = 0; i < pHeader->NameBlockCount; i++)
+    {
+        pName = pName < pEndName ? (const char *)memchr(pName, 0, pEndName - pName) : NULL;
+        if (! pName || pName + 1 >= pEndName)
+        {
+            return false;
+        }
+        pName += 2;
+    }
+
+    for (int64_t i = 0; i < pHeader->ArraysWritten; i++)
+    {
+        SDS_ARRAY_BLOCK block = *GetArrayBlock(i);
+        if (! CheckArrayBlocks(&block, 1) || ! isInside(block.ArrayDataOffset, block.ArrayUncompressedSize) ||
+            memcmp(block.Strides, GetArrayBlock(i)->Strides, block.NDim * sizeof(block.Strides[0])) != 0)
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
+//----------------------------------------
+//
 int64_t CalculateSharedMemorySize(SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK * pArrayBlocks)
 {
     // Calculate size of shared memory
@@ -3417,6 +3639,9 @@ struct SDS_MULTI_IO_PACKETS
     // New Filtering
     SDS_FILTER * pFilter;
 
+    // How many arrays could not be read
+    int64_t failedArrays;
+
     // See: compMode value -- COMPRESSIOM_MODE_SHAREDMEMORY
     // used when compressing to file
 
@@ -3427,16 +3652,28 @@ struct SDS_MULTI_IO_PACKETS
     //--------------------------------------
     // Allocates pMultiIOPackets->pDestInfo
     // Allocates event handles
+    // Returns NULL when out of memory
     static SDS_MULTI_IO_PACKETS * Allocate(int64_t tupleSize, SDS_FILTER * pFilter)
     {
         int64_t allocSize = sizeof(SDS_MULTI_IO_PACKETS) + ((sizeof(SDS_IO_PACKET) * tupleSize));
         SDS_MULTI_IO_PACKETS * pMultiIOPackets = (SDS_MULTI_IO_PACKETS *)WORKSPACE_ALLOC(allocSize);
+        if (! pMultiIOPackets)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld arrays", tupleSize);
+            return NULL;
+        }
         memset(pMultiIOPackets, 0, allocSize);
 
         pMultiIOPackets->pFilter = pFilter;
 
         int64_t allocSizeDestInfo = tupleSize * sizeof(SDSArrayInfo);
         pMultiIOPackets->pDestInfo = (SDSArrayInfo *)WORKSPACE_ALLOC(allocSizeDestInfo);
+        if (! pMultiIOPackets->pDestInfo)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld arrays", tupleSize);
+            WORKSPACE_FREE(pMultiIOPackets);
+            return NULL;
+        }
         memset(pMultiIOPackets->pDestInfo, 0, allocSizeDestInfo);
 
         // Set all the cores working memory to zero
@@ -3590,6 +3827,24 @@ bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS
     return wasFiltered;
 }
 
+//=============================================================
+// Give back the arrays which were allocated for a read which failed
+static void FreeArrays(SDS_READ_CALLBACKS * pReadCallbacks, SDSArrayInfo * pArrayInfo, int64_t count)
+{
+    for (int64_t i = 0; i < count; i++)
+    {
+        if (pArrayInfo[i].pArrayObject)
+        {
+            if (pReadCallbacks->FreeArrayCallback)
+            {
+                pReadCallbacks->FreeArrayCallback(pArrayInfo[i].pArrayObject);
+            }
+            pArrayInfo[i].pArrayObject = NULL;
+            pArrayInfo[i].pData = NULL;
+        }
+    }
+}
+
 //=============================================================
 //
 //
@@ -3672,7 +3927,9 @@ public:
     //
     // Callee must return:
     // pDestInfo filled in with pData (location of first element in array)
-    void AllocateOneArray(int32_t colPos, // which array index (which column in the file)
+    //
+    // Returns false if the array could not be allocated
+    bool AllocateOneArray(int32_t colPos, // which array index (which column in the file)
                           SDS_READ_CALLBACKS * pReadCallbacks, SDSArrayInfo * pDestInfo, bool isSharedMemory, bool isOneFile,
                           bool isStackable)
     {
@@ -3695,8 +3952,10 @@ public:
         sdsArrayCallback.strides = pBlock->Strides;
 
         // Handle error cases
-        sdsArrayCallback.pArrayName = pArrayNames ? pArrayNames[colPos] : NULL;
-        sdsArrayCallback.sdsFlags = pArrayEnums ? pArrayEnums[colPos] : 0;
+        // (there may be fewer names than arrays)
+        bool hasName = pArrayNames && pArrayEnums && colPos < NameCount;
+        sdsArrayCallback.pArrayName = hasName ? pArrayNames[colPos] : NULL;
+        sdsArrayCallback.sdsFlags = hasName ? pArrayEnums[colPos] : 0;
         // sdsArrayCallback.pInclusionList = pReadCallbacks->pInclusionList;
         // sdsArrayCallback.pExclusionList = pReadCallbacks->pExclusionList;
 
@@ -3714,10 +3973,11 @@ public:
         pDestInfo->pData = NULL;
 
         bool wasFiltered = false;
+        bool result = true;
 
         // logger->debug("Checking to allocate name {}", pAllocateArray->pArrayName);
         // Include exclude check
-        if (! pArrayNames || IsNameIncluded(pInclude, pFolderName, sdsArrayCallback.pArrayName, isOneFile))
+        if (! hasName || IsNameIncluded(pInclude, pFolderName, sdsArrayCallback.pArrayName, isOneFile))
         {
             //-----------------------------------
             // Caller will fill info pArrayObject and pData
@@ -3726,10 +3986,28 @@ public:
             if (pReadCallbacks->AllocateArrayCallback)
             {
                 // FILTERING check...
+                int64_t dim0Length = pBlock->Dimensions[0];
                 wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, isStackable);
 
+                if (wasFiltered)
+                {
+                    // Only the part of the mask which covers this array counts
+                    if (dim0Length > pReadCallbacks->Filter.BoolMaskLength)
+                    {
+                        dim0Length = pReadCallbacks->Filter.BoolMaskLength;
+                    }
+                    pBlock->Dimensions[0] = SumBooleanMask((const int8_t *)pReadCallbacks->Filter.pBoolMask, dim0Length);
+                }
+
                 pReadCallbacks->AllocateArrayCallback(&sdsArrayCallback);
 
+                // Nothing is allocated for an entry which was saved as None
+                if ((pBlock->NDim > 0 || pBlock->ItemSize > 0) && ! pDestInfo->pArrayObject)
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate array %d", colPos);
+                    result = false;
+                }
+
                 logger->debug(
                     "Allocating dims:{} -- {} {} {}   flags:{}  itemsize:{}  "
                     "wasFiltered: {}",
@@ -3746,12 +4024,14 @@ public:
             pDestInfo->Flags |= SDS_ARRAY_FILTERED;
             pBlock->Flags |= SDS_ARRAY_FILTERED;
         }
+        return result;
     }
 
     //-----------------------------------------------------------
     // Fills in multiple io packets (tupleSize items)
     //
-    void AllocMultiArrays(SDS_IO_PACKET * pIOPacket, SDSArrayInfo * pDestInfo, SDS_READ_CALLBACKS * pReadCallbacks,
+    // Returns false if an array could not be allocated
+    bool AllocMultiArrays(SDS_IO_PACKET * pIOPacket, SDSArrayInfo * pDestInfo, SDS_READ_CALLBACKS * pReadCallbacks,
                           int64_t tupleSize, bool isSharedMemory)
     {
         bool oneFile = (pFileHeader->FileType == SDS_FILE_TYPE_ONEFILE);
@@ -3788,11 +4068,15 @@ public:
                 (fileType == SDS_FILE_TYPE_DATASET || fileType == SDS_FILE_TYPE_TABLE || fileType == SDS_FILE_TYPE_ARRAY);
 
             // callback into python or matlab to allocate memory
-            AllocateOneArray(t, pReadCallbacks, &pDestInfo[t], false, oneFile, fileTypeStackable);
+            if (! AllocateOneArray(t, pReadCallbacks, &pDestInfo[t], false, oneFile, fileTypeStackable))
+            {
+                return false;
+            }
 
             // next io packet to build
             pIOPacket++;
         }
+        return true;
     }
 
     //-----------------------------------------------------------
@@ -3815,14 +4099,25 @@ public:
 
         SDS_READ_DECOMPRESS_ARRAYS * pstDecompressArrays =
             (SDS_READ_DECOMPRESS_ARRAYS *)WORKSPACE_ALLOC(sizeof(SDS_READ_DECOMPRESS_ARRAYS) + (tupleSize * sizeof(SDSArrayInfo)));
+        if (! pstDecompressArrays)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld arrays", tupleSize);
+            return NULL;
+        }
         pstDecompressArrays->totalHeaders = tupleSize;
+        pstDecompressArrays->failedArrays = 0;
 
         // Init all the pNumpyArray pointers
         for (int32_t t = 0; t < tupleSize; t++)
         {
             SDSArrayInfo * pDestInfo = &pstDecompressArrays->ArrayInfo[t];
 
-            AllocateOneArray(t, pReadCallbacks, pDestInfo, isSharedMemory, isOneFile, isStackable);
+            if (! AllocateOneArray(t, pReadCallbacks, pDestInfo, isSharedMemory, isOneFile, isStackable))
+            {
+                FreeArrays(pReadCallbacks, pstDecompressArrays->ArrayInfo, t + 1);
+                WORKSPACE_FREE(pstDecompressArrays);
+                return NULL;
+            }
         }
 
         pstDecompressArrays->pReadCallbacks = pReadCallbacks;
@@ -3897,26 +4192,35 @@ public:
     //--------------------------------------------
     // Also zero out pArrayNames, zero out pArrayEnums
     //
-    void AllocateNameData(int64_t nameBlockCount, int64_t nameSize)
+    // Returns false when out of memory
+    bool AllocateNameData(int64_t nameBlockCount, int64_t nameSize)
     {
-        NameCount = nameBlockCount;
+        NameCount = 0;
         if (pNameData != NULL)
         {
             logger->warn("Double Allocation nameData!!");
         }
         pNameData = (char *)WORKSPACE_ALLOC(nameSize);
 
+        pArrayNames = (const char **)WORKSPACE_ALLOC(nameBlockCount * sizeof(void *));
+        pArrayEnums = (int32_t *)WORKSPACE_ALLOC(nameBlockCount * sizeof(int32_t));
+        if (! pNameData || ! pArrayNames || ! pArrayEnums)
+        {
+            DeleteNameData();
+            return false;
+        }
+        NameCount = nameBlockCount;
+
         // ZERO OUT
-        pArrayNames = (const char **)WORKSPACE_ALLOC(NameCount * sizeof(void *));
         for (int32_t i = 0; i < NameCount; i++)
         {
             pArrayNames[i] = NULL;
         }
-        pArrayEnums = (int32_t *)WORKSPACE_ALLOC(NameCount * sizeof(int32_t));
         for (int32_t i = 0; i < NameCount; i++)
         {
             pArrayEnums[i] = 0;
         }
+        return true;
     }
 
     //----------------------------------------
@@ -3938,6 +4242,7 @@ public:
             WORKSPACE_FREE(pArrayEnums);
             pArrayEnums = NULL;
         }
+        NameCount = 0;
     }
 
     //------------------------------------------
@@ -4074,6 +4379,7 @@ public:
                 // allocate a string object
                 if (! metaDataUncompressed)
                 {
+                    WORKSPACE_FREE(metaDataCompressed);
                     SetErr_Format(SDS_VALUE_ERROR, "Decompression error meta: could not allocate meta string %lld",
                                   metaUncompressedSize);
                     return false;
@@ -4125,6 +4431,12 @@ public:
             // read uncompressed data in
             bytesRead = DefaultFileIO.FileReadChunk(NULL, SDSFile, metaDataUncompressed, metaUncompressedSize,
                                                     pFileHeader->MetaBlockOffset);
+
+            if (bytesRead != metaUncompressedSize)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error meta: could not read %lld bytes", metaUncompressedSize);
+                return false;
+            }
         }
 
         logger->debug("out decompress meta");
@@ -4159,6 +4471,12 @@ public:
                 return false;
             }
 
+            if (! CheckArrayBlocks(pArrayBlocks, pFileHeader->ArraysWritten))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in array blocks of file %s", FileName);
+                return false;
+            }
+
             // Calculate size of shared memory
             int64_t totalSize = CalculateSharedMemorySize(pFileHeader, pArrayBlocks);
             int64_t arrayCount = pFileHeader->ArraysWritten;
@@ -4187,18 +4505,22 @@ public:
                                0, // stack Type
                                pFileHeader->AuthorId, pFileHeader->NameBlockSize, pFileHeader->NameBlockCount,
                                pFileHeader->TotalMetaUncompressedSize, pFileHeader->ArraysWritten, 0);
+                // not before everything is there
+                pMemoryFileHeader->SDSHeaderMagic = 0;
 
                 logger->debug("Fill name block");
 
                 // Read name block
-                DefaultFileIO.FileReadChunk(NULL, SDSFile, DefaultMemoryIO.GetMemoryOffset(pMemoryFileHeader->NameBlockOffset),
-                                            pFileHeader->NameBlockSize, pFileHeader->NameBlockOffset);
-
                 //------------- LIST NAMES -------------------------------
                 // NO LIST NAMES ARE ALLOWED (root file?)
-                if (pMemoryFileHeader->NameBlockSize && ReadListNames() == NULL)
+                if (pMemoryFileHeader->NameBlockSize)
                 {
-                    // goto EXIT_DECOMPRESS;
+                    if (ReadListNames() == NULL)
+                    {
+                        return false;
+                    }
+                    memcpy(DefaultMemoryIO.GetMemoryOffset(pMemoryFileHeader->NameBlockOffset), pNameData,
+                           pFileHeader->NameBlockSize);
                 }
 
                 logger->debug("Fill meta block");
@@ -4213,9 +4535,8 @@ public:
 
                     SDS_ARRAY_BLOCK * pDestArrayBlock = DefaultMemoryIO.GetArrayBlock(0);
 
-                    // Read array block
-                    DefaultFileIO.FileReadChunk(NULL, SDSFile, pDestArrayBlock, pFileHeader->ArrayBlockSize,
-                                                pFileHeader->ArrayBlockOffset);
+                    // Copy array block
+                    memcpy(pDestArrayBlock, pArrayBlocks, arrayCount * sizeof(SDS_ARRAY_BLOCK));
 
                     // offset to first location of array data
                     int64_t startOffset = pMemoryFileHeader->ArrayFirstOffset;
@@ -4244,17 +4565,28 @@ public:
 
                     logger->debug("last offset {}", startOffset);
 
-                    bool oneFile = (pFileHeader->FileType == SDS_FILE_TYPE_ONEFILE);
-                    int32_t fileType = pFileHeader->FileType;
-                    bool fileTypeStackable =
-                        (fileType == SDS_FILE_TYPE_DATASET || fileType == SDS_FILE_TYPE_TABLE || fileType == SDS_FILE_TYPE_ARRAY);
+                    // All the arrays are decompressed into the shared memory, none is allocated
+                    pstCompressArrays = (SDS_READ_DECOMPRESS_ARRAYS *)WORKSPACE_ALLOC(sizeof(SDS_READ_DECOMPRESS_ARRAYS) +
+                                                                                      (arrayCount * sizeof(SDSArrayInfo)));
+                    if (! pstCompressArrays)
+                    {
+                        SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld arrays", arrayCount);
+                        return false;
+                    }
+                    pstCompressArrays->totalHeaders = arrayCount;
+                    pstCompressArrays->failedArrays = 0;
+                    pstCompressArrays->pReadCallbacks = pReadCallbacks;
+                    pstCompressArrays->pBlockInfo = pArrayBlocks;
 
-                    // MORE WORK TO DO
-                    SDS_READ_DECOMPRESS_ARRAYS * pstCompressArrays =
-                        AllocDecompressArrays(pReadCallbacks, arrayCount, true, oneFile, fileTypeStackable);
+                    for (int64_t i = 0; i < arrayCount; i++)
+                    {
+                        pstCompressArrays->ArrayInfo[i].pArrayObject = NULL;
+                        pstCompressArrays->ArrayInfo[i].pData = NULL;
+                        CopyFromBlockToInfo(&pArrayBlocks[i], &pstCompressArrays->ArrayInfo[i]);
+                    }
 
                     // Set all the cores working memory to zero
-                    int32_t numCores = g_cMathWorker->WorkerThreadCount + 1;
+                    int32_t numCores = g_cMathWorker->GetNumCores();
                     for (int32_t j = 0; j < numCores; j++)
                     {
                         pstCompressArrays->pCoreMemory[j] = NULL;
@@ -4286,9 +4618,16 @@ public:
                         DefaultFileIO.DestroyEventHandle(pstCompressArrays->eventHandles[j]);
                     }
 
+                    if (pstCompressArrays->failedArrays > 0)
+                    {
+                        SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read %lld of %lld arrays of file %s",
+                                      pstCompressArrays->failedArrays, arrayCount, FileName);
+                        return false;
+                    }
+
                     pMemoryFileHeader->ArraysWritten = arrayCount;
+                    pMemoryFileHeader->SDSHeaderMagic = SDS_MAGIC;
                     logger->debug("End fill array block {}", arrayCount);
-                    ;
                     return true;
                 }
             }
@@ -4325,9 +4664,10 @@ public:
     //--------------------------------------------------------
     // Returns the names and enum flags of everything written
     // Called by DecompressFileIntenral
-    void MakeListNames(const int64_t nameBlockCount, const int64_t nameByteSize)
+    // Returns false if the list is damaged
+    bool MakeListNames(const int64_t nameBlockCount, const int64_t nameByteSize)
     {
-        const char * startNameData = pNameData;
+        const char * endNameData = pNameData + nameByteSize;
         const char * pNames = pNameData;
 
         // for every name
@@ -4336,8 +4676,12 @@ public:
             const char * pStart = pNames;
 
             // skip to end (search for 0 terminating char)
-            while (*pNames++)
-                ;
+            const char * pEnd = (const char *)memchr(pNames, 0, endNameData - pNames);
+            if (! pEnd || pEnd + 1 >= endNameData)
+            {
+                return false;
+            }
+            pNames = pEnd + 1;
 
             // get the enum
             uint8_t value = *pNames++;
@@ -4346,10 +4690,8 @@ public:
 
             pArrayNames[i] = pStart;
             pArrayEnums[i] = value;
-
-            if ((pNames - startNameData) >= nameByteSize)
-                break;
         }
+        return true;
     }
 
     //===============================================================
@@ -4367,9 +4709,7 @@ public:
         {
             logger->debug("Name Block Count {},  namesize {}", pFileHeader->NameBlockCount, nameSize);
 
-            AllocateNameData(pFileHeader->NameBlockCount, nameSize);
-
-            if (! pNameData)
+            if (! AllocateNameData(pFileHeader->NameBlockCount, nameSize))
             {
                 SetErr_Format(SDS_VALUE_ERROR, "Decompression error in nameSize: %lld", nameSize);
                 return NULL;
@@ -4384,7 +4724,11 @@ public:
             }
 
             // Run through name list and setup pointers
-            MakeListNames(NameCount, nameSize);
+            if (! MakeListNames(NameCount, nameSize))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in name list of size: %lld", nameSize);
+                return NULL;
+            }
             return pNameData;
         }
         return NULL;
@@ -4412,7 +4756,10 @@ public:
             }
 
             //------------- META DATA -------------------------------
-            DecompressMetaData(pFileHeader, NULL, core);
+            if (! DecompressMetaData(pFileHeader, NULL, core))
+            {
+                goto EXIT_DECOMPRESS;
+            }
 
             //------------- SECTION DATA -------------------------------
             // only offset ==0 (first fileheader) is responsible for reading the
@@ -4450,6 +4797,11 @@ public:
             }
 
             int64_t tupleSize = pFileHeader->ArraysWritten;
+            if (! CheckArrayBlocks(pArrayBlocks, tupleSize))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in array blocks of file %s", FileName);
+                goto EXIT_DECOMPRESS;
+            }
             logger->debug("Arrays to read {}  {}", tupleSize, (void *)pArrayBlocks);
 
             // If we got this far, the file is good
@@ -4470,6 +4822,10 @@ public:
             //--------- ALLOCATE COMPRESS ARRAYS ---
             pstCompressArrays = AllocDecompressArrays(pReadCallbacks, tupleSize, false,
                                                       pFileHeader->FileType == SDS_FILE_TYPE_ONEFILE, fileTypeStackable);
+            if (! pstCompressArrays)
+            {
+                goto EXIT_DECOMPRESS;
+            }
 
             pstCompressArrays->fileHandle = SDSFile;
             pstCompressArrays->pFileHeader = pFileHeader;
@@ -4507,6 +4863,14 @@ public:
                 DefaultFileIO.DestroyEventHandle(pstCompressArrays->eventHandles[j]);
             }
 
+            if (pstCompressArrays->failedArrays > 0)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read %lld of %lld arrays of file %s",
+                              pstCompressArrays->failedArrays, tupleSize, FileName);
+                FreeArrays(pReadCallbacks, pstCompressArrays->ArrayInfo, tupleSize);
+                goto EXIT_DECOMPRESS;
+            }
+
             return true;
         }
         else
@@ -4545,16 +4909,24 @@ public:
         //------------------------------------------------------
         // CHECK FOR SHARED MEMORY
         //------------------------------------------------------
-        if (ShareName)
-        {
-            // Place GLOBAL in front or other variations to make a sharename
-            DefaultMemoryIO.MakeShareName(FileName, ShareName);
+        // The shared memory holds the whole file: read a part of it from the file
+        bool isPartial = pReadCallbacks->Filter.pBoolMask || (pFolderName && ! pFolderName->IsEmpty());
 
+        // Place GLOBAL in front or other variations to make a sharename
+        if (ShareName && ! isPartial && DefaultMemoryIO.MakeShareName(FileName, ShareName))
+        {
             // Check for previous existence first
             HRESULT result = DefaultMemoryIO.MapExisting();
             bool bResult = true;
 
-            if (result < 0)
+            if (result >= 0 && ! DefaultMemoryIO.CheckExisting())
+            {
+                // Somebody else is still filling it, or did not finish
+                logger->error("Existing share name {} is incomplete, reading the file", DefaultMemoryIO.SharedMemoryName);
+                DefaultMemoryIO.Destroy();
+                bResult = false;
+            }
+            else if (result < 0)
             {
                 logger->debug("Failed to find existing share name {}", DefaultMemoryIO.SharedMemoryName);
 
@@ -4571,7 +4943,10 @@ public:
                     if (! bResult)
                     {
                         logger->debug("Failed to alloc shared memory for {}", FileName);
-                        DefaultMemoryIO.Destroy();
+                        DefaultMemoryIO.DestroyIncomplete();
+
+                        // The file may still be read, which finds any error in it again
+                        ClearErrors();
                     }
                 }
             }
@@ -4668,6 +5043,12 @@ static int32_t SDS_ITEMSIZE_TABLE[22] = { 1,         // bool
                                           0, // SDS_VOID
                                           0 };
 
+// Returns the size of one item, or 0 for types which come in any size
+static int32_t GetFixedItemSize(int32_t dtype, int64_t itemsize)
+{
+    return SDS_ITEMSIZE_TABLE[FixupDType(dtype, itemsize)];
+}
+
 void UpgradeType(SDS_ARRAY_BLOCK * pMasterArrayBlock, int32_t newdtype, int64_t itemsize)
 {
     int32_t isize = 4;
@@ -5939,8 +6320,12 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
 // Returns NULL if nothing to do
 // Otherwise returns the extra buffer
 //
-void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
+// On return: isNeeded is true if the extra buffer is needed (the buffer is NULL when out of memory)
+//
+void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket, bool * isNeeded)
 {
+    *isNeeded = false;
+
     // Master block only exists when stacking
     SDS_ARRAY_BLOCK * pMasterBlock = pIOPacket->pMasterBlock;
 
@@ -5960,6 +6345,7 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
             {
                 allocSize *= pBlockInfo->Dimensions[j];
             }
+            *isNeeded = true;
             return WORKSPACE_ALLOC(allocSize);
         }
         else
@@ -5974,6 +6360,7 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
                 }
                 // Allocate a temporary buffer to load 1 or 4 byte string into
                 // This buffer will have to be copied into
+                *isNeeded = true;
                 return WORKSPACE_ALLOC(allocSize);
             }
         }
@@ -6101,7 +6488,14 @@ bool DecompressMultiArray(void * pstCompressArraysV,
         // If so, allocate another buffer
         // Often strings come in 1 byte --> Matlab wants it rotated and 2 bytes
         void * origBuffer = NULL;
-        void * rotateBuffer = CheckRotationalFixup(pIOPacket);
+        bool needsRotateBuffer = false;
+        void * rotateBuffer = CheckRotationalFixup(pIOPacket, &needsRotateBuffer);
+
+        if (needsRotateBuffer && ! rotateBuffer)
+        {
+            InterlockedAdd64(&pMultiIOPackets->failedArrays, 1);
+            return true;
+        }
 
         // rotateBuffer exists for rotational fixups like fortran 2d or matlab
         // strings
@@ -6115,7 +6509,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if ((source_size != pBlockInfo->ArrayUncompressedSize) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
+        if (! IsStoredAsIs(pBlockInfo) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
         {
             if (pMultiIOPackets->pCoreMemory[core])
             {
@@ -6124,9 +6518,8 @@ bool DecompressMultiArray(void * pstCompressArraysV,
             }
 
             // Reallocate larger memory
-            pMultiIOPackets->pCoreMemorySize[core] = source_size;
             pMultiIOPackets->pCoreMemory[core] = WORKSPACE_ALLOC(source_size);
-            ;
+            pMultiIOPackets->pCoreMemorySize[core] = pMultiIOPackets->pCoreMemory[core] ? source_size : 0;
             // Log that we were forced to reallocate
             LOG_THREAD("-");
         }
@@ -6146,7 +6539,13 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
             //  If no bytes to read..
             if (slaveItemSize == 0)
+            {
+                if (rotateBuffer)
+                {
+                    WORKSPACE_FREE(rotateBuffer);
+                }
                 return true;
+            }
 
             if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
             {
@@ -6225,6 +6624,14 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                     }
                 }
             }
+            else
+            {
+                if (rotateBuffer)
+                {
+                    WORKSPACE_FREE(rotateBuffer);
+                }
+                InterlockedAdd64(&pMultiIOPackets->failedArrays, 1);
+            }
         }
     }
 
@@ -6314,7 +6721,10 @@ public:
     {
         int64_t allocSize = sizeof(SDS_DATASET) * (validCount);
         pDatasets = (SDS_DATASET *)WORKSPACE_ALLOC(allocSize);
-        memset(pDatasets, 0, allocSize);
+        if (pDatasets)
+        {
+            memset(pDatasets, 0, allocSize);
+        }
     }
 
     //------------------------------------------------
@@ -6323,7 +6733,8 @@ public:
     // returns pArrayOffsets
     // returns pArrayLengths
     // returns ppArrayBlocks
-    void AllocateVectorList(int64_t validCount, int64_t *& pArrayOffsets, int64_t *& pOriginalArrayOffsets,
+    // returns false when out of memory
+    bool AllocateVectorList(int64_t validCount, int64_t *& pArrayOffsets, int64_t *& pOriginalArrayOffsets,
                             int64_t *& pOriginalLengths, SDS_ARRAY_BLOCK **& ppArrayBlocks)
     {
         // for only valid files
@@ -6336,11 +6747,25 @@ public:
         // memset(pOriginalArrayOffsets, 0, allocSize);
 
         pOriginalLengths = (int64_t *)WORKSPACE_ALLOC(allocSize);
-        memset(pOriginalLengths, 0, allocSize);
 
-        allocSize = sizeof(SDS_ARRAY_BLOCK *) * (validCount);
-        ppArrayBlocks = (SDS_ARRAY_BLOCK **)WORKSPACE_ALLOC(allocSize);
-        memset(ppArrayBlocks, 0, allocSize);
+        int64_t blockAllocSize = sizeof(SDS_ARRAY_BLOCK *) * (validCount);
+        ppArrayBlocks = (SDS_ARRAY_BLOCK **)WORKSPACE_ALLOC(blockAllocSize);
+
+        if (! pArrayOffsets || ! pOriginalArrayOffsets || ! pOriginalLengths || ! ppArrayBlocks)
+        {
+            for (void * pMemory : { (void *)pArrayOffsets, (void *)pOriginalArrayOffsets, (void *)pOriginalLengths,
+                                    (void *)ppArrayBlocks })
+            {
+                if (pMemory)
+                {
+                    WORKSPACE_FREE(pMemory);
+                }
+            }
+            return false;
+        }
+        memset(pOriginalLengths, 0, allocSize);
+        memset(ppArrayBlocks, 0, blockAllocSize);
+        return true;
     }
 
     //-------------------------------------------------------------------
@@ -6387,7 +6812,9 @@ public:
     // if new, a new ColumnVector will be created
     //
     // if the name is not found, the unique count goes up
-    void AddColumnList(int64_t validPos, int64_t validCount, const char * columnName,
+    //
+    // returns false when out of memory
+    bool AddColumnList(int64_t validPos, int64_t validCount, const char * columnName,
                        int32_t arrayEnum, // DATASET, OTHER
                        int32_t fileRow, int64_t column, SDS_ARRAY_BLOCK * pArrayBlock)
     {
@@ -6410,6 +6837,13 @@ public:
         // Is this a new column name?
         if (columnFind == ColumnExists.end())
         {
+            // Brand new column
+            // Allocate...pArrayOffsets, pOriginalLengths, ppArrayBlocks
+            if (! AllocateVectorList(validCount, pArrayOffsets, pOriginalArrayOffsets, pOriginalLengths, ppArrayBlocks))
+            {
+                return false;
+            }
+
             // check if the new entry is for the first row
             if (fileRow > 0)
             {
@@ -6419,10 +6853,6 @@ public:
             logger->debug("{} ** {}   enum: {}", columnName, validCount, arrayEnum);
             ColumnExists.emplace(item, TotalUniqueColumns);
 
-            // Brand new column
-            // Allocate...pArrayOffsets, pOriginalLengths, ppArrayBlocks
-            AllocateVectorList(validCount, pArrayOffsets, pOriginalArrayOffsets, pOriginalLengths, ppArrayBlocks);
-
             // Add to the end (in this column order) the new column
             ColumnVector.push_back({ columnName, TotalUniqueColumns, fileRow, arrayEnum,
                                      *pArrayBlock, // copy of the king (determines shape of column)
@@ -6483,6 +6913,7 @@ public:
 
         // track last valid row?
         LastRow = (int32_t)fileRow;
+        return true;
     }
 
     //------------------------------------------------
@@ -6568,13 +6999,18 @@ public:
 
         // Allocate MultiIO PACKETS!!
         SDS_MULTI_IO_PACKETS * pMultiIOPackets = SDS_MULTI_IO_PACKETS::Allocate(totalIOPackets, &pReadCallbacks->Filter);
+        if (! pMultiIOPackets)
+        {
+            return NULL;
+        }
         int64_t currentPos = 0;
+        bool isAllocated = true;
 
         auto orig_true_count{ pReadCallbacks->Filter.BoolMaskTrueCount };
 
         // Fill in all the IOPACKETs
         // Skip over invalid files
-        for (int64_t f = 0; f < FileCount; f++)
+        for (int64_t f = 0; f < FileCount && isAllocated; f++)
         {
             SDSDecompressFile * pSDSDecompress = pSDSDecompressFile[f];
             if (pSDSDecompress->IsFileValid)
@@ -6603,7 +7039,7 @@ public:
                 }
 
                 //--------- ALLOCATE COMPRESS ARRAYS INTO all the IO PACKETS
-                pSDSDecompress->AllocMultiArrays(pIOPacket, pArrayInfo, pReadCallbacks, tupleSize, false);
+                isAllocated = pSDSDecompress->AllocMultiArrays(pIOPacket, pArrayInfo, pReadCallbacks, tupleSize, false);
 
                 pReadFinalCallback[f].pArrayInfo = pArrayInfo;
                 currentPos += tupleSize;
@@ -6611,7 +7047,7 @@ public:
         }
         pReadCallbacks->Filter.BoolMaskTrueCount = orig_true_count;
 
-        if (totalIOPackets)
+        if (totalIOPackets && isAllocated)
         {
             //--------- ALLOCATE COMPRESS ARRAYS ---
             //---------  DECOMPRESS ARRAYS -------------
@@ -6621,7 +7057,21 @@ public:
             pReadCallbacks->EndAllowThreads(saveState);
         }
 
-        void * result = pReadCallbacks->ReadFinalCallback(pReadFinalCallback, FileCount);
+        if (pMultiIOPackets->failedArrays > 0)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read %lld of %lld arrays",
+                          pMultiIOPackets->failedArrays, totalIOPackets);
+        }
+
+        void * result = NULL;
+        if (isAllocated && pMultiIOPackets->failedArrays == 0)
+        {
+            result = pReadCallbacks->ReadFinalCallback(pReadFinalCallback, FileCount);
+        }
+        else
+        {
+            FreeArrays(pReadCallbacks, pMultiIOPackets->pDestInfo, totalIOPackets);
+        }
 
         //---------- CLEAN UP MEMORY AND HANDLES ---------
         SDS_MULTI_IO_PACKETS::Free(pMultiIOPackets);
@@ -6911,9 +7361,18 @@ public:
             int64_t sectionTotalSize = SDS_PAD_NUMBER(sectionSize);
             int64_t currentSection = 0;
             char * pSectionData = (char *)WORKSPACE_ALLOC(sectionTotalSize);
+            bool isCopied = true;
+
+            if (! pSectionData)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error: out of memory for %lld sections", sectionCount);
+                DefaultFileIO.FileClose(fileHandle);
+                return;
+            }
+            memset(pSectionData, 0, sectionTotalSize);
 
             // Pass 2 append to file
-            for (int64_t t = 0; t < FileCount; t++)
+            for (int64_t t = 0; isCopied && t < FileCount; t++)
             {
                 SDSDecompressFile * pSDSDecompress = pSDSDecompressFile[t];
                 if (pSDSDecompress->IsFileValid)
@@ -6921,21 +7380,27 @@ public:
                     int64_t nextOffset = AppendToFile(fileHandle, pSDSDecompress, fileOffset, pSDSDecompress->FileSize,
                                                       pSectionData, currentSection);
 
+                    isCopied = nextOffset >= 0;
                     int64_t padFileSize = SDS_PAD_NUMBER(nextOffset);
                     fileOffset = padFileSize;
                 }
             }
 
             // write section header
-            int64_t result = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pSectionData, sectionTotalSize, fileOffset);
-
-            if (result != sectionTotalSize)
+            if (isCopied &&
+                DefaultFileIO.FileWriteChunk(NULL, fileHandle, pSectionData, sectionTotalSize, fileOffset) != sectionTotalSize)
             {
-                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot append section %lld at %lld",
-                              pFileHeader->SectionBlockReservedSize, pFileHeader->SectionBlockOffset);
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error: cannot append the sections to file %s at %lld", strOutputFilename,
+                              fileOffset);
+                isCopied = false;
             }
 
             WORKSPACE_FREE(pSectionData);
+            if (! isCopied)
+            {
+                DefaultFileIO.FileClose(fileHandle);
+                return;
+            }
 
             // At the end of the file, write out the section names and the file offset
             // to find them Update the first file header (current file header)
@@ -6944,10 +7409,16 @@ public:
             pFileHeader->SectionBlockSize = sectionSize;
             pFileHeader->SectionBlockReservedSize = sectionTotalSize;
             pFileHeader->StackType = 1;
-            DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), 0);
+            if (DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), 0) != sizeof(SDS_FILE_HEADER))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error: cannot write the header of file %s", strOutputFilename);
+            }
         }
 
-        DefaultFileIO.FileClose(fileHandle);
+        if (! DefaultFileIO.FileClose(fileHandle))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: cannot close file %s", strOutputFilename);
+        }
     }
 
     //========================================
@@ -6966,7 +7437,10 @@ public:
         // Check if concat mode
         if (multiMode != SDS_MULTI_MODE_CONCAT_MANY)
         {
-            pSDSDecompressFileExtra = ScanForSections();
+            if (! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
+            {
+                return NULL;
+            }
         }
 
         int64_t validCount = 0;
@@ -6988,6 +7462,7 @@ public:
             SetErr_Format(SDS_VALUE_ERROR, "Not all files found : Expected %lld files.  Missing %s\n", FileCount,
                           pSDSDecompressFile[missingfile]->FileName);
             logger->error("ReadManyFiles failed!  FileCount {}. valid {}.", FileCount, validCount);
+            FreeExtraFiles(pSDSDecompressFileExtra);
             return NULL;
         }
 
@@ -7041,6 +7516,13 @@ public:
             SDS_FINAL_CALLBACK * pReadFinalCallback =
                 (SDS_FINAL_CALLBACK *)WORKSPACE_ALLOC(sizeof(SDS_FINAL_CALLBACK) * FileCount);
 
+            if (! pReadFinalCallback)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld files", FileCount);
+                FreeExtraFiles(pSDSDecompressFileExtra);
+                return NULL;
+            }
+
             // Now build a hash of all the valid filenames
             // Also.. how homogenous are the files... all datasets?  all structs?
             for (int64_t t = 0; t < FileCount; t++)
@@ -7119,6 +7601,15 @@ public:
         ClearColumnList();
 
         // Check if we expanded becaue we found extra sections
+        FreeExtraFiles(pSDSDecompressFileExtra);
+
+        return result;
+    }
+
+    //========================================
+    // Delete what ScanForSections allocated
+    void FreeExtraFiles(SDSDecompressFile ** pSDSDecompressFileExtra)
+    {
         if (pSDSDecompressFileExtra)
         {
             for (int64_t i = 0; i < FileCount; i++)
@@ -7127,8 +7618,6 @@ public:
             }
             WORKSPACE_FREE(pSDSDecompressFileExtra);
         }
-
-        return result;
     }
 
     //========================================
@@ -7141,11 +7630,12 @@ public:
     }
 
     //--------------------------------
-    // Returns NULL if no sections found
+    // On return: pSDSDecompressFileExtra is NULL if no sections found
     // Otherwise updates FileCount and pSDSDecompressFile with sections
-    SDSDecompressFile ** ScanForSections()
+    // Returns false when out of memory
+    bool ScanForSections(SDS_READ_CALLBACKS * pReadCallbacks, SDSDecompressFile **& pSDSDecompressFileExtra)
     {
-        SDSDecompressFile ** pSDSDecompressFileExtra = NULL;
+        pSDSDecompressFileExtra = NULL;
 
         int64_t FileWithSectionsCount = 0;
 
@@ -7172,6 +7662,12 @@ public:
             // Reallocate
             // Allocate an array of all the files we need to open
             pSDSDecompressFileExtra = (SDSDecompressFile **)WORKSPACE_ALLOC(sizeof(void *) * FileWithSectionsCount);
+            if (! pSDSDecompressFileExtra)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld files",
+                              FileWithSectionsCount);
+                return false;
+            }
 
             // count up again the same way
             FileWithSectionsCount = 0;
@@ -7218,10 +7714,10 @@ public:
             // Swap in the expanded decompressfile with the sections
             pSDSDecompressFile = pSDSDecompressFileExtra;
             FileCount = FileWithSectionsCount;
-            return pSDSDecompressFileExtra;
+            return true;
         }
         logger->debug("Did not find more sections. {}", FileCount);
-        return NULL;
+        return true;
     }
 
     //========================================
@@ -7234,8 +7730,29 @@ public:
         // Open what might be 100+ files
         GetFileInfo(multiMode);
 
-        SDSDecompressFile ** pSDSDecompressFileExtra = ScanForSections();
+        SDSDecompressFile ** pSDSDecompressFileExtra = NULL;
+        if (! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
+        {
+            return NULL;
+        }
+
+        void * result = StackFiles(pReadCallbacks);
+
+        // Tear it down
+        ClearColumnList();
+
+        // Check if we expanded becaue we found extra sections
+        FreeExtraFiles(pSDSDecompressFileExtra);
 
+        // Reduce list to valids
+        logger->debug("ReadAndStackFiles complete {}", result);
+        return result;
+    }
+
+    //========================================
+    // Called from ReadAndStackFiles, which opened the files and closes them
+    void * StackFiles(SDS_READ_CALLBACKS * pReadCallbacks)
+    {
         void * result = NULL;
         int64_t validPos = 0;
         int64_t validCount = 0;
@@ -7276,6 +7793,11 @@ public:
 
         // Allocate dataset row length for blank rows (gaps)
         AllocateDatasetLengths(validCount);
+        if (! pDatasets)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld files", validCount);
+            return NULL;
+        }
 
         bool has_filter{ pReadCallbacks->Filter.pBoolMask != NULL };
         bool has_fancy{ pReadCallbacks->Filter.IsFancy.has_value() };
@@ -7303,7 +7825,12 @@ public:
                 isOneFile |= (fileType == SDS_FILE_TYPE_ONEFILE);
 
                 // Try to find out how many valid columns
-                for (int64_t c = 0; c < pSDSDecompress->NameCount; c++)
+                int64_t columnCount = pSDSDecompress->NameCount;
+                if (columnCount > pSDSDecompress->pFileHeader->ArraysWritten)
+                {
+                    columnCount = pSDSDecompress->pFileHeader->ArraysWritten;
+                }
+                for (int64_t c = 0; c < columnCount; c++)
                 {
                     const char * columnName = pSDSDecompress->pArrayNames[c];
                     // Include exclude check
@@ -7323,10 +7850,14 @@ public:
 
                         // If the column is new, SDS_COLUMN_KING will be allocated
                         // Subsequent blocks will be checked for convertibility.
-                        AddColumnList(validPos, validCount, columnName, arrayEnum,
-                                      t, // file row (for all files, valid or not)
-                                      c, // column pos
-                                      pArrayBlock);
+                        if (! AddColumnList(validPos, validCount, columnName, arrayEnum,
+                                            t, // file row (for all files, valid or not)
+                                            c, // column pos
+                                            pArrayBlock))
+                        {
+                            SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for column %s", columnName);
+                            return NULL;
+                        }
 
                         // See if we need to fixup default dataset length
                         if (isDataset)
@@ -7367,7 +7898,6 @@ public:
                             {
                                 SetErr_Format(SDS_VALUE_ERROR,
                                               "SDS stacking with filter is currently only supported for datasets.");
-                                ClearColumnList();
                                 return nullptr;
                             }
                         }
@@ -7387,7 +7917,6 @@ public:
                 SetErr_Format(SDS_VALUE_ERROR,
                               "Filter length does not match stacked dataset length\nDataset Length: %lu, Mask Length: %lu",
                               total_length, mask_length);
-                ClearColumnList();
                 return nullptr;
             }
         }
@@ -7458,6 +7987,18 @@ public:
             // Also for each column we create SDSArrayInfo
             SDSArrayInfo * pManyDestInfo = (SDSArrayInfo *)WORKSPACE_ALLOC(sizeof(SDSArrayInfo) * TotalUniqueColumns);
             SDSFilterInfo * pFilterInfo = NULL;
+            // ALLOCATE all the Final Callbacks
+            SDS_STACK_CALLBACK * pMultiFinalCallback =
+                (SDS_STACK_CALLBACK *)WORKSPACE_ALLOC(sizeof(SDS_STACK_CALLBACK) * TotalUniqueColumns);
+
+            SDS_STACK_CALLBACK_FILES * pMultiCallbackFileInfo =
+                (SDS_STACK_CALLBACK_FILES *)WORKSPACE_ALLOC(sizeof(SDS_STACK_CALLBACK_FILES) * validCount);
+            bool isAllocated = pMultiIOPackets && pManyDestInfo && pMultiFinalCallback && pMultiCallbackFileInfo;
+
+            if (pManyDestInfo)
+            {
+                memset(pManyDestInfo, 0, sizeof(SDSArrayInfo) * TotalUniqueColumns);
+            }
 
             // Check if we are filtering the data with a boolean mask
             if (has_filter)
@@ -7466,6 +8007,12 @@ public:
                 logger->debug("~ALLOCATING for filtering");
                 pFilterInfo = (SDSFilterInfo *)WORKSPACE_ALLOC(sizeof(SDSFilterInfo) * FileCount);
                 pReadCallbacks->Filter.pFilterInfo = pFilterInfo;
+                isAllocated = isAllocated && pFilterInfo;
+            }
+
+            if (! isAllocated)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld arrays", totalIOPackets);
             }
 
             // position of totalIOPackets
@@ -7494,7 +8041,7 @@ public:
 
             // Fill in all the IOPACKETs
             // Skip over invalid files, loop over all valid filenames
-            for (int64_t col = 0; col < TotalUniqueColumns; col++)
+            for (int64_t col = 0; col < TotalUniqueColumns && isAllocated; col++)
             {
                 // Only one king
                 SDS_COLUMN_KING * pKing = &ColumnVector[col];
@@ -7712,7 +8259,8 @@ public:
 
                 // Caller will fill info pArrayObject and pData
                 // pData is valid for shared memory
-                if (pReadCallbacks->AllocateArrayCallback)
+                // (columns without dimensions cannot be stacked)
+                if (pReadCallbacks->AllocateArrayCallback && pMasterBlock->NDim > 0)
                 {
                     // Update master block to total length for caller allocation
                     dimensions[0] = rowLengthToAlloc;
@@ -7746,6 +8294,13 @@ public:
                     pReadCallbacks->AllocateArrayCallback(&sdsArrayCallback);
                     logger->debug("Array allocated at {} for object {}", (void *)sdsArrayCallback.pDestInfo->pData,
                                   sdsArrayCallback.pDestInfo->pArrayObject);
+
+                    if (! sdsArrayCallback.pDestInfo->pArrayObject)
+                    {
+                        SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate array %s", pKing->ColName);
+                        isAllocated = false;
+                        break;
+                    }
                 }
 
                 // Fill in destination information
@@ -7871,7 +8426,7 @@ public:
 
             //=========================================
             // Read all our IOpackets if we have any
-            if (validPos)
+            if (validPos && isAllocated)
             {
                 //--------- ALLOCATE COMPRESS ARRAYS ---
                 //---------  DECOMPRESS ARRAYS -------------
@@ -7883,16 +8438,16 @@ public:
 
             logger->debug("Multistack done reading -- returning {} cols", TotalUniqueColumns);
 
-            // ALLOCATE all the Final Callbacks
-            SDS_STACK_CALLBACK * pMultiFinalCallback =
-                (SDS_STACK_CALLBACK *)WORKSPACE_ALLOC(sizeof(SDS_STACK_CALLBACK) * TotalUniqueColumns);
-
-            SDS_STACK_CALLBACK_FILES * pMultiCallbackFileInfo =
-                (SDS_STACK_CALLBACK_FILES *)WORKSPACE_ALLOC(sizeof(SDS_STACK_CALLBACK_FILES) * validCount);
+            if (isAllocated && pMultiIOPackets->failedArrays > 0)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read %lld of %lld arrays",
+                              pMultiIOPackets->failedArrays, validPos);
+            }
+            bool isComplete = isAllocated && pMultiIOPackets->failedArrays == 0;
 
             // Now build a hash of all the valid filenames
             // Also.. how homogenous are the files... all datasets?  all structs?
-            for (int64_t col = 0; col < TotalUniqueColumns; col++)
+            for (int64_t col = 0; col < TotalUniqueColumns && isComplete; col++)
             {
                 // Only one king, get the first file that had this column
                 SDS_COLUMN_KING * pKing = &ColumnVector[col];
@@ -7924,7 +8479,7 @@ public:
             }
 
             int64_t vrow = 0;
-            for (int32_t f = 0; f < FileCount; f++)
+            for (int32_t f = 0; f < FileCount && isComplete; f++)
             {
                 SDSDecompressFile * pSDSDecompress = pSDSDecompressFile[f];
                 if (pSDSDecompress->IsFileValid)
@@ -7937,33 +8492,30 @@ public:
                 }
             }
 
-            result = pReadCallbacks->StackFinalCallback(pMultiFinalCallback, TotalUniqueColumns, pMultiCallbackFileInfo,
-                                                        &pReadCallbacks->Filter, validCount);
-
-            WORKSPACE_FREE(pMultiCallbackFileInfo);
-            WORKSPACE_FREE(pMultiFinalCallback);
-            WORKSPACE_FREE(pManyDestInfo);
-            WORKSPACE_FREE(pFilterInfo);
-
-            // Tear it down
-            ClearColumnList();
-
-            //---------- CLEAN UP MEMORY AND HANDLES ---------
-            SDS_MULTI_IO_PACKETS::Free(pMultiIOPackets);
-
-            // Check if we expanded becaue we found extra sections
-            if (pSDSDecompressFileExtra)
+            if (isComplete)
             {
-                for (int64_t i = 0; i < FileCount; i++)
-                {
-                    delete pSDSDecompressFileExtra[i];
-                }
-                WORKSPACE_FREE(pSDSDecompressFileExtra);
+                result = pReadCallbacks->StackFinalCallback(pMultiFinalCallback, TotalUniqueColumns, pMultiCallbackFileInfo,
+                                                            &pReadCallbacks->Filter, validCount);
             }
+            else if (pManyDestInfo)
+            {
+                FreeArrays(pReadCallbacks, pManyDestInfo, TotalUniqueColumns);
+            }
+
+            //---------- CLEAN UP MEMORY AND HANDLES ---------
+            if (pMultiCallbackFileInfo)
+                WORKSPACE_FREE(pMultiCallbackFileInfo);
+            if (pMultiFinalCallback)
+                WORKSPACE_FREE(pMultiFinalCallback);
+            if (pManyDestInfo)
+                WORKSPACE_FREE(pManyDestInfo);
+            if (pFilterInfo)
+                WORKSPACE_FREE(pFilterInfo);
+            pReadCallbacks->Filter.pFilterInfo = NULL;
+            if (pMultiIOPackets)
+                SDS_MULTI_IO_PACKETS::Free(pMultiIOPackets);
         }
 
-        // Reduce list to valids
-        logger->debug("ReadAndStackFiles complete {}", result);
         return result;
     }
 };
diff --git a/src/SDSFile.h b/src/SDSFile.h
index c4fc270..af6b258 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -551,6 +551,9 @@ struct SDS_READ_DECOMPRESS_ARRAYS
     // Used when going to shared memory
     class SharedMemory * pMemoryIO;
 
+    // How many arrays could not be read
+    int64_t failedArrays;
+
     int64_t totalHeaders;
     int16_t compMode;
     int16_t compType;
@@ -666,6 +669,9 @@ typedef void * (*SDS_READ_SHARED_MEMORY_CALLBACK)(SDS_SHARED_MEMORY_CALLBACK * p
 // if pData return as NULL, data is assume to be EXCLUDED
 typedef void (*SDS_ALLOCATE_ARRAY_CALLBACK)(SDS_ALLOCATE_ARRAY * pSDSAllocateArray);
 
+// Called when the read failed to give back an array object which was allocated
+typedef void (*SDS_FREE_ARRAY_CALLBACK)(void * pArrayObject);
+
 // Pass arrayobject returned from SDS_ALLOCATE_ARRAY_CALLBACK and return pointer
 // to first location of array example: return PyArray_BYTES(pArrayObject, 0);
 // typedef void*(*SDS_GET_ARRAY_POINTER_CALLBACK)(void * pArrayObject);
@@ -689,6 +695,8 @@ struct SDS_READ_CALLBACKS
     SDS_READ_SHARED_MEMORY_CALLBACK ReadMemoryCallback; // Only called for shared memory
     SDS_ALLOCATE_ARRAY_CALLBACK AllocateArrayCallback;  // NULL now allowed?  needs testing
 
+    SDS_FREE_ARRAY_CALLBACK FreeArrayCallback; // Called for allocated arrays when the read fails
+
     SDS_BEGIN_ALLOW_THREADS BeginAllowThreads; // Must be set even if does nothing
     SDS_END_ALLOW_THREADS EndAllowThreads;     // Must be set even if does nothing
 
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..40cf2d2 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -363,7 +363,7 @@ static bool CheckErrors()
 {
     if (g_lastexception)
     {
-        PyErr_Format(PyExc_ValueError, g_errorbuffer);
+        PyErr_Format(PyExc_ValueError, "%s", g_errorbuffer);
         return true;
     }
     return false;
@@ -474,7 +474,7 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
 // Output: Write to pListNames.
 //         ASCIIZ strings follow by UINT8 enum (string1, 0, enum1, string2, 0,
 //         enum2, etc.)
-// Returns: Length of data in pListNames
+// Returns: Length of data in pListNames, or -1 (an error was set)
 //
 int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
 {
@@ -485,7 +485,7 @@ int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
     {
         PyObject * pTuple = PyList_GET_ITEM(inListNames, i);
 
-        if (pTuple && PyTuple_Check(pTuple))
+        if (pTuple && PyTuple_Check(pTuple) && PyTuple_GET_SIZE(pTuple) >= 2)
         {
             PyObject * pBytes = PyTuple_GET_ITEM(pTuple, 0);
 
@@ -495,9 +495,22 @@ int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
                 int64_t value = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(pTuple, 1), &overflow);
                 int64_t strSize = Py_SIZE(pBytes);
 
+                if (value == -1 && PyErr_Occurred())
+                {
+                    return -1;
+                }
+
                 char * pName = PyBytes_AS_STRING(pBytes);
                 LOGGING("Name is %s -- size %d  value %d\n", pName, (int)strSize, (int)value);
 
+                // room for the name, its terminator and the enum
+                if (strSize > SDS_MAX_FILENAME - 2 || (int64_t)strlen(pName) != strSize)
+                {
+                    PyErr_Format(PyExc_ValueError, "CompressFile name %d has %lld bytes, at most %d without NUL allowed", i,
+                                 (long long)strSize, SDS_MAX_FILENAME - 2);
+                    return -1;
+                }
+
                 while ((*pListNames++ = *pName++))
                     ;
 
@@ -506,14 +519,14 @@ int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
             }
             else
             {
-                printf(
-                    "!!internal error processing, check that list is in bytes "
-                    "instead of unicode\n");
+                PyErr_Format(PyExc_TypeError, "CompressFile names must be bytes instead of unicode");
+                return -1;
             }
         }
         else
         {
-            printf("!!internal error2 processing, is it a list of tuples?\n");
+            PyErr_Format(PyExc_TypeError, "CompressFile names must be a list of tuples (bytes, int)");
+            return -1;
         }
     }
 
@@ -535,7 +548,7 @@ PyObject * MakeListNames(const char * pArrayNames, int64_t nameBlockCount, const
 
     int64_t curPos = 0;
     // for every name
-    while (nameBlockCount)
+    while (pyListName && nameBlockCount)
     {
         nameBlockCount--;
         const char * pStart = pArrayNames;
@@ -907,6 +920,7 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
     }
 
     PyObject * returnTuple = PyTuple_New(arrayCount);
+    const int dataFlags = NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE;
 
     LOGGING("Number of arrays %lld\n", arrayCount);
 
@@ -929,10 +943,16 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
         //       need to check the dimension values fit into npy_intp and convert
         //       them if needed. Can use CPP or C++ constexpr-if so we only pay the
         //       cost on 32-bit systems.
-        PyArrayObject * pArray =
-            AllocateNumpyArrayForData(pArrayBlock->NDim, (npy_intp *)pArrayBlock->Dimensions, dtype, pArrayBlock->ItemSize, data,
-                                      pArrayBlock->Flags, (npy_intp *)pArrayBlock->Strides);
-        CHECK_MEMORY_ERROR(pArray);
+        PyArrayObject * pArray = NULL;
+
+        // no dimensions and no item size was saved as None
+        if (pArrayBlock->NDim || pArrayBlock->ItemSize)
+        {
+            pArray = AllocateNumpyArrayForData(pArrayBlock->NDim, (npy_intp *)pArrayBlock->Dimensions, dtype,
+                                               pArrayBlock->ItemSize, data, pArrayBlock->Flags & dataFlags,
+                                               (npy_intp *)pArrayBlock->Strides);
+            CHECK_MEMORY_ERROR(pArray);
+        }
 
         if (pArray)
         {
@@ -1195,8 +1215,9 @@ void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * retu
     }
     else
     {
+        // the caller sees the error which was set
         *returnString = NULL;
-        *returnSize = strlen(*returnString);
+        *returnSize = 0;
     }
 }
 
@@ -1287,6 +1308,27 @@ SDS_STRING_LIST * GetFoldersName(PyObject * kwargs)
     return NULL;
 }
 
+//----------------------------------------------------
+// Returns false and sets an error if an array cannot be stored in a file
+static bool CheckArrayInfo(const ArrayInfo * aInfo, int64_t arrayCount)
+{
+    for (int64_t i = 0; i < arrayCount; i++)
+    {
+        if (aInfo[i].pObject && aInfo[i].NumpyDType == NPY_OBJECT)
+        {
+            PyErr_Format(PyExc_ValueError, "CompressFile cannot store array %lld of Python objects", (long long)i);
+            return false;
+        }
+        if (aInfo[i].NDim > SDS_MAX_DIMS)
+        {
+            PyErr_Format(PyExc_ValueError, "CompressFile cannot store array %lld of %d dimensions, at most %d", (long long)i,
+                         aInfo[i].NDim, SDS_MAX_DIMS);
+            return false;
+        }
+    }
+    return true;
+}
+
 //----------------------------------------------------
 // Arg1: BYTES - filename (UNICODE not allowed)
 // Arg2: BYTES - metadata
@@ -1299,6 +1341,7 @@ SDS_STRING_LIST * GetFoldersName(PyObject * kwargs)
 // Kwargs
 // folders=
 // bandsize=
+// section=
 //
 // Returns: None
 //
@@ -1347,6 +1390,11 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     if (sectionSize >= SDS_MAX_SECTIONNAME)
     {
         PyErr_Format(PyExc_ValueError, "section name too large: %lld", sectionSize);
+        WORKSPACE_FREE(pSectionName);
+        if (folderName)
+        {
+            DestroyStringList(folderName);
+        }
         return NULL;
     }
 
@@ -1361,19 +1409,39 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     // alloc worst case scenario
     char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
+
+    // Process list of names tuples
+    int64_t listNameSize = pListNames ? BuildListInfo(inListNames, pListNames) : -1;
+
     if (! pListNames)
     {
-        return NULL;
+        PyErr_NoMemory();
     }
 
-    // Process list of names tuples
-    int64_t listNameSize = BuildListInfo(inListNames, pListNames);
-
     // Handle list of numpy arrays -----------------------------------
     int64_t totalItemSize = 0;
     int64_t arrayCount = 0;
 
-    ArrayInfo * aInfo = BuildArrayInfo(inListArrays, &arrayCount, &totalItemSize, false);
+    ArrayInfo * aInfo = listNameSize >= 0 ? BuildArrayInfo(inListArrays, &arrayCount, &totalItemSize, false) : NULL;
+    SDSArrayInfo * pSDSArrayInfo = NULL;
+    bool result = false;
+
+    if (aInfo && ! CheckArrayInfo(aInfo, arrayCount))
+    {
+        FreeArrayInfo(aInfo);
+        aInfo = NULL;
+    }
+
+    if (aInfo)
+    {
+        pSDSArrayInfo = (SDSArrayInfo *)WORKSPACE_ALLOC((sizeof(SDSArrayInfo) * arrayCount) + 8);
+        if (! pSDSArrayInfo)
+        {
+            PyErr_NoMemory();
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+    }
 
     // CHECK FOR ERRORS
     if (aInfo)
@@ -1384,7 +1452,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         SDSWriteCallbacks.EndAllowThreads = EndAllowThreads;
 
         SDS_WRITE_INFO SDSWriteInfo;
-        SDSWriteInfo.aInfo = (SDSArrayInfo *)WORKSPACE_ALLOC(sizeof(SDSArrayInfo) * arrayCount);
+        SDSWriteInfo.aInfo = pSDSArrayInfo;
 
         //============================================
         // Convert from ArrayInfo* to SDSArrayInfo*
@@ -1401,16 +1469,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
             pDest->NumpyDType = pSrc->NumpyDType;
             pDest->pData = pSrc->pData;
 
-            int32_t ndim = pSrc->NDim;
-            if (ndim > SDS_MAX_DIMS)
-            {
-                printf("!!!SDS: array dimensions too high: %d\n", ndim);
-                ndim = SDS_MAX_DIMS;
-            }
-            // if (ndim < 1) {
-            //   printf("!!!SDS: array dimensions too low: %d\n", ndim);
-            //   ndim = 1;
-            //}
+            const int32_t ndim = pSrc->NDim;
             pDest->NDim = ndim;
 
             for (int dim_idx = 0; dim_idx < SDS_MAX_DIMS; dim_idx++)
@@ -1488,16 +1547,19 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
             SDSWriteInfo.sectionNameSize = sectionSize;
         }
 
-        bool result = SDSWriteFile(fileName,
-                                   shareName, // can be NULL
-                                   folderName, &SDSWriteInfo, &SDSWriteCallbacks);
+        result = SDSWriteFile(fileName,
+                              shareName, // can be NULL
+                              folderName, &SDSWriteInfo, &SDSWriteCallbacks) != 0;
 
         // FREE workspace allocations
         WORKSPACE_FREE(SDSWriteInfo.aInfo);
         FreeArrayInfo(aInfo);
     }
 
-    WORKSPACE_FREE(pListNames);
+    if (pListNames)
+    {
+        WORKSPACE_FREE(pListNames);
+    }
 
     if (pSectionName)
     {
@@ -1508,12 +1570,24 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         DestroyStringList(folderName);
     }
 
+    // The error was set above
+    if (! aInfo)
+    {
+        return NULL;
+    }
+
     // If there are errors, return NULL
     if (CheckErrors())
     {
         return NULL;
     }
 
+    if (! result)
+    {
+        PyErr_Format(PyExc_ValueError, "Failed to write file: %s", fileName);
+        return NULL;
+    }
+
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -1538,8 +1612,8 @@ void AllocateArrayCallback(SDS_ALLOCATE_ARRAY * pAllocateArray)
     // if (IsIncluded((PyObject*)pAllocateArray->pInclusionList, pArrayName)) {
     if (true)
     {
-        // If we have no dimensions, do not allocate
-        if (ndim)
+        // If we have no dimensions and no item size, the entry was saved as None: do not allocate
+        if (ndim || pAllocateArray->itemsize)
         {
             int64_t * dims = pAllocateArray->dims;
             int64_t * strides = pAllocateArray->strides;
@@ -1589,15 +1663,24 @@ void AllocateArrayCallback(SDS_ALLOCATE_ARRAY * pAllocateArray)
                 }
 
                 // Fill in pDestInfo
-                pDestInfo->pData = (char *)PyArray_GETPTR1((PyArrayObject *)(pDestInfo->pArrayObject), 0);
+                pDestInfo->pData = (char *)PyArray_BYTES((PyArrayObject *)(pDestInfo->pArrayObject));
             }
         }
     }
 }
 
+//==================================
+// Called back for an array which is not returned because the read failed
+void FreeArrayCallback(void * pArrayObject)
+{
+    Py_DECREF((PyObject *)pArrayObject);
+}
+
 //----------------------------------------------------
 // Return the maskLength and pBooleanMask
-void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
+// ppMaskCopy is set when the mask had to be copied, the caller releases it after the read
+// Returns false if an error was set
+bool GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB, PyObject ** ppMaskCopy)
 {
     pRCB->Filter.BoolMaskLength = 0;
     pRCB->Filter.pBoolMask = NULL;
@@ -1632,6 +1715,16 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             {
                 if (fancyItem)
                     pRCB->Filter.IsFancy = PyObject_IsTrue(fancyItem);
+                if (! PyArray_IS_C_CONTIGUOUS((PyArrayObject *)maskItem))
+                {
+                    // the mask is read as a plain buffer
+                    maskItem = PyArray_NewCopy((PyArrayObject *)maskItem, NPY_CORDER);
+                    if (! maskItem)
+                    {
+                        return false;
+                    }
+                    *ppMaskCopy = maskItem;
+                }
                 pRCB->Filter.BoolMaskLength = ArrayLength((PyArrayObject *)maskItem);
                 pRCB->Filter.pBoolMask = (bool *)PyArray_GETPTR1((PyArrayObject *)maskItem, 0);
                 // Needed
@@ -1649,6 +1742,7 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             }
         }
     }
+    return true;
 }
 
 //----------------------------------------------------
@@ -1707,12 +1801,15 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     //==============================================
     // Build callback table
-    SDS_READ_CALLBACKS sdsRCB;
+    SDS_READ_CALLBACKS sdsRCB{};
+    PyObject * pMaskCopy = NULL;
+    void * result = NULL;
 
     sdsRCB.ReadFinalCallback = ReadFinal;
     sdsRCB.StackFinalCallback = ReadFinalStack;
     sdsRCB.ReadMemoryCallback = ReadFromSharedMemory;
     sdsRCB.AllocateArrayCallback = AllocateArrayCallback;
+    sdsRCB.FreeArrayCallback = FreeArrayCallback;
     sdsRCB.BeginAllowThreads = BeginAllowThreads;
     sdsRCB.EndAllowThreads = EndAllowThreads;
     sdsRCB.pInclusionList = NULL; // NO LONGER SUPPORTED includeDict;
@@ -1720,17 +1817,20 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     sdsRCB.pFolderInclusionList = NULL;
 
     // new for filtering
-    GetFilters(kwargs, &sdsRCB);
-
     // new for boolean mask
     // GetFilters(kwargs, &sdsRCB.pBooleanMask, &sdsRCB.MaskLength);
 
-    SDS_READ_INFO sdsRI;
+    SDS_READ_INFO sdsRI{};
 
     sdsRI.mode = mode;
 
     //==============================================
-    void * result = SDSReadFile(fileName, shareName, folderName, sectionsName, &sdsRI, &sdsRCB);
+    ClearErrors();
+    if (GetFilters(kwargs, &sdsRCB, &pMaskCopy))
+    {
+        result = SDSReadFile(fileName, shareName, folderName, sectionsName, &sdsRI, &sdsRCB);
+    }
+    Py_XDECREF(pMaskCopy);
 
     if (folderName)
     {
@@ -1743,8 +1843,10 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (! result && CheckErrors())
+    if (PyErr_Occurred() || CheckErrors())
     {
+        ClearErrors();
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
@@ -1802,7 +1904,9 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
         GetStringFromDict("output", kwargs, &pOutputName, &outputSize);
         if (! pOutputName)
         {
-            PyErr_Format(PyExc_ValueError, "The output= must be a filename when concatenating files");
+            if (! PyErr_Occurred())
+                PyErr_Format(PyExc_ValueError, "The output= must be a filename when concatenating files");
+            return NULL;
         }
     }
 
@@ -1836,7 +1940,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     }
 
     SDS_STRING_LIST * pFilenames = StringListToVector(listFilenames);
-    int64_t fileCount = pFilenames->size();
+    int64_t fileCount = PyErr_Occurred() ? 0 : pFilenames->size();
 
     LOGGING("InternalDecompress filecount: %lld  mode: %d", fileCount, multiMode);
     if (fileCount)
@@ -1858,7 +1962,8 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
 
             //==============================================
             // Build callback table
-            SDS_READ_CALLBACKS sdsRCB;
+            SDS_READ_CALLBACKS sdsRCB{};
+            PyObject * pMaskCopy = NULL;
 
             sdsRCB.ReadFinalCallback = ReadFinal;
 
@@ -1868,6 +1973,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
             // called only when reading from shared memory
             sdsRCB.ReadMemoryCallback = ReadFromSharedMemory;
             sdsRCB.AllocateArrayCallback = AllocateArrayCallback;
+            sdsRCB.FreeArrayCallback = FreeArrayCallback;
             sdsRCB.BeginAllowThreads = BeginAllowThreads;
             sdsRCB.EndAllowThreads = EndAllowThreads;
             sdsRCB.pInclusionList = pInclusionList;
@@ -1876,15 +1982,21 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
             sdsRCB.ReserveSpace = reserveSpace;
             sdsRCB.strOutputFilename = pOutputName;
 
-            // new for filtering
-            GetFilters(kwargs, &sdsRCB);
-
             //==============================================
             // may return NULL if not all files existed
-            result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            ClearErrors();
+            if (GetFilters(kwargs, &sdsRCB, &pMaskCopy))
+            {
+                result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            }
+            Py_XDECREF(pMaskCopy);
 
             WORKSPACE_FREE(pMultiRead);
         }
+        else
+        {
+            PyErr_NoMemory();
+        }
     }
 
     // Free what might have been allocated
@@ -1903,26 +2015,23 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     {
         DestroyStringList(pFolderList);
     }
+    if (pSectionsList)
+    {
+        DestroyStringList(pSectionsList);
+    }
 
     LOGGING("Multistack after destroy string list\n");
 
-    bool isThereAnError = CheckErrors();
-
     // If there are errors, return NULL
-    if (! result && isThereAnError)
-    {
-        return NULL;
-    }
-
-    if (isThereAnError && fileCount == 1)
+    if (PyErr_Occurred() || (fileCount && CheckErrors()))
     {
-        // result is good, but there is an error.  decrement the result so we can
+        ClearErrors();
+        // result may be good, but there is an error.  decrement the result so we can
         // get rid of it
-        Py_DecRef((PyObject *)result);
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
-    // We might have a partial error if we get here
     if (! result)
     {
         Py_INCREF(Py_None);
-- 
2.43.0


From b6b4ef5e8a1bf4d5ef4a230542f74fa42c7f597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 44/55] fix: concatenating SDS files reports read, write and
 allocation errors

Also the copied headers kept the section fields of their source file.
---
 src/SDSFile.cpp | 125 +++++++++++++++++++++++++++++-------------------
 1 file changed, 76 insertions(+), 49 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index dc9a6a4..51b173d 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -7087,12 +7087,61 @@ public:
         pEntry[1] = 0;
         *(int64_t *)(pEntry + 2) = currentOffset;
     }
+    //=====================================================
+    // Copies the array blocks at origArrayBlockOffset of the input file to the output file, in which everything is
+    // fileOffset further
+    // returns false when that failed (an error was set)
+    static bool CopyArrayBlocks(SDS_FILE_HANDLE outFileHandle, SDSDecompressFile * pSDSDecompress,
+                                const SDS_FILE_HEADER * pFileHeader, int64_t origArrayBlockOffset, int64_t fileOffset)
+    {
+        const int64_t blockSize = pFileHeader->ArrayBlockSize;
+        if (pFileHeader->ArraysWritten == 0)
+        {
+            return true;
+        }
+        if (pFileHeader->ArraysWritten < 0 || blockSize < 0 ||
+            pFileHeader->ArraysWritten > blockSize / (int64_t)sizeof(SDS_ARRAY_BLOCK) || blockSize > pSDSDecompress->FileSize)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: file %s has an invalid header", pSDSDecompress->FileName);
+            return false;
+        }
+
+        SDS_ARRAY_BLOCK * pDestArrayBlock = (SDS_ARRAY_BLOCK *)WORKSPACE_ALLOC(blockSize);
+        if (! pDestArrayBlock)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: out of memory when copying file %s", pSDSDecompress->FileName);
+            return false;
+        }
+
+        bool isCopied = false;
+        if (DefaultFileIO.FileReadChunk(NULL, pSDSDecompress->SDSFile, pDestArrayBlock, blockSize, origArrayBlockOffset) ==
+            blockSize)
+        {
+            // fixup arrayblocks
+            for (int64_t i = 0; i < pFileHeader->ArraysWritten; i++)
+            {
+                pDestArrayBlock[i].ArrayDataOffset += fileOffset;
+            }
+            // Write the array block with offsets fixed up
+            isCopied = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock, blockSize,
+                                                    fileOffset + origArrayBlockOffset) == blockSize;
+        }
+        WORKSPACE_FREE(pDestArrayBlock);
+
+        if (! isCopied)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: failed to copy the array blocks of file %s", pSDSDecompress->FileName);
+        }
+        return isCopied;
+    }
+
     //=====================================================
     // fileHandle is the output file
     // pSDSDecompress is the input file
     // fileOffset is the offset in the output file to start writing at
     // fileSize is the size of the input file
     // set localOffset to non-zero to indicate a section copy
+    // returns -1 when the file was not copied (an error was set)
     static int64_t AppendToFile(SDS_FILE_HANDLE outFileHandle, SDSDecompressFile * pSDSDecompress, int64_t fileOffset,
                                 int64_t fileSize, char * pSectionData, int64_t & currentSection)
     {
@@ -7134,13 +7183,18 @@ public:
             pFileHeader->BandBlockOffset += fileOffset;
 
         pFileHeader->SectionBlockOffset = 0;
+        pFileHeader->SectionBlockCount = 0;
+        pFileHeader->SectionBlockSize = 0;
+        pFileHeader->SectionBlockReservedSize = 0;
         pFileHeader->FileOffset += fileOffset;
 
         // append the file header to the output file at fileOffset
         int64_t bytesXfer = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
         if (bytesXfer != sizeof(SDS_FILE_HEADER))
         {
-            logger->debug("!!warning file {} failed to write header at offset {}", pSDSDecompress->FileName, fileOffset);
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: failed to write the header of file %s at offset %lld",
+                          pSDSDecompress->FileName, fileOffset);
+            return -1;
         }
 
         UpdateSectionData(pSectionData, currentSection++, currentOffset);
@@ -7154,7 +7208,10 @@ public:
         const int64_t BUFFER_SIZE = 1024 * 1024;
         char * pBuffer = (char *)WORKSPACE_ALLOC(BUFFER_SIZE);
         if (! pBuffer)
-            return 0;
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error: out of memory when copying file %s", pSDSDecompress->FileName);
+            return -1;
+        }
 
         // Read from source at localoffset and copy to output at currentOffset
         // (which starts at fileOffset)
@@ -7170,7 +7227,10 @@ public:
             int64_t sizeWritten = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pBuffer, copySize, currentOffset);
             if (sizeRead != sizeWritten || sizeRead != copySize)
             {
-                logger->warn("!!Failed to copy file {} at offset {} and {}", pSDSDecompress->FileName, currentOffset, localOffset);
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error: failed to copy file %s at offset %lld and %lld",
+                              pSDSDecompress->FileName, currentOffset, localOffset);
+                WORKSPACE_FREE(pBuffer);
+                return -1;
             }
             currentOffset += copySize;
             localOffset += copySize;
@@ -7180,27 +7240,10 @@ public:
 
         //-----------------------------------------
         // Read array block and fix that up
-        SDS_ARRAY_BLOCK * pDestArrayBlock = (SDS_ARRAY_BLOCK *)WORKSPACE_ALLOC(pFileHeader->ArrayBlockSize);
-
-        bytesXfer = DefaultFileIO.FileReadChunk(NULL, inFile, pDestArrayBlock, pFileHeader->ArrayBlockSize, origArrayBlockOffset);
-        if (bytesXfer != pFileHeader->ArrayBlockSize)
-        {
-            logger->warn("!!warning file {} failed to read array block at offset {}", pSDSDecompress->FileName,
-                         origArrayBlockOffset);
-        }
-
-        // fixup arrayblocks
-        for (int32_t i = 0; i < pFileHeader->ArraysWritten; i++)
+        if (! CopyArrayBlocks(outFileHandle, pSDSDecompress, pFileHeader, origArrayBlockOffset, fileOffset))
         {
-            // printf("start offset %d %lld\n", i,
-            // pDestArrayBlock[i].ArrayDataOffset);
-            pDestArrayBlock[i].ArrayDataOffset += fileOffset;
+            return -1;
         }
-        // Write the array block with offsets fixed up
-        DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock, pFileHeader->ArrayBlockSize,
-                                     fileOffset + origArrayBlockOffset);
-
-        WORKSPACE_FREE(pDestArrayBlock);
 
         //------------
         // Check if sections.. if so read back in each section and fix it up
@@ -7221,11 +7264,9 @@ public:
 
                 if (bytesRead != sizeof(SDS_FILE_HEADER))
                 {
-                    logger->warn(
-                        "!!warning file {} failed to read section header at offset "
-                        "{}",
-                        pSDSDecompress->FileName, sectionOffset);
-                    return 0;
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error: failed to read the section header of file %s at offset %lld",
+                                  pSDSDecompress->FileName, sectionOffset);
+                    return -1;
                 }
 
                 origArrayBlockOffset = tempFileHeader.ArrayBlockOffset;
@@ -7246,6 +7287,9 @@ public:
                     tempFileHeader.BandBlockOffset += fileOffset;
 
                 tempFileHeader.SectionBlockOffset = 0;
+                tempFileHeader.SectionBlockCount = 0;
+                tempFileHeader.SectionBlockSize = 0;
+                tempFileHeader.SectionBlockReservedSize = 0;
                 tempFileHeader.FileOffset += fileOffset;
 
                 int64_t newOffset = fileOffset + sectionOffset;
@@ -7258,38 +7302,21 @@ public:
                 logger->debug("Wrote subsect fileheader {} bytes at offset {}", sizeof(SDS_FILE_HEADER), newOffset);
                 if (sizeof(SDS_FILE_HEADER) != sizeWritten)
                 {
-                    logger->warn("!!Failed to copy file {} at offset {} and {}", pSDSDecompress->FileName, newOffset,
-                                 sectionOffset);
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error: failed to copy file %s at offset %lld and %lld",
+                                  pSDSDecompress->FileName, newOffset, sectionOffset);
+                    return -1;
                 }
 
                 // NEW CODE
                 // fixup arrayblocks
                 //-----------------------------------------
                 // Read array block and fix that up
-                SDS_ARRAY_BLOCK * pDestArrayBlock2 = (SDS_ARRAY_BLOCK *)WORKSPACE_ALLOC(tempFileHeader.ArrayBlockSize);
-
-                bytesXfer = DefaultFileIO.FileReadChunk(NULL, inFile, pDestArrayBlock2, tempFileHeader.ArrayBlockSize,
-                                                        origArrayBlockOffset);
-                if (bytesXfer != tempFileHeader.ArrayBlockSize)
+                if (! CopyArrayBlocks(outFileHandle, pSDSDecompress, &tempFileHeader, origArrayBlockOffset, fileOffset))
                 {
-                    logger->warn("!!warning file {} failed to read array block at offset {}", pSDSDecompress->FileName,
-                                 origArrayBlockOffset);
+                    return -1;
                 }
-
-                // fixup arrayblocks
-                for (int32_t i = 0; i < tempFileHeader.ArraysWritten; i++)
-                {
-                    // printf("start offset %d %lld\n", i,
-                    // pDestArrayBlock2[i].ArrayDataOffset);
-                    pDestArrayBlock2[i].ArrayDataOffset += fileOffset;
-                }
-                // Write the array block with offsets fixed up
-                DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock2, tempFileHeader.ArrayBlockSize,
-                                             fileOffset + origArrayBlockOffset);
                 logger->debug("Wrote arrayblock {} bytes at offset {} from orig: {}", tempFileHeader.ArrayBlockSize,
                               fileOffset + origArrayBlockOffset, origArrayBlockOffset);
-
-                WORKSPACE_FREE(pDestArrayBlock2);
             }
         }
 
-- 
2.43.0


From 27821090413ed021757f243baca9d4c03d1d5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 45/55] fix: SDS names which are not UTF-8 no longer leave NULL
 entries behind

---
 src/SDSFilePython.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 40cf2d2..457b08b 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -665,6 +665,10 @@ int SetStringLong(PyObject * pDict, const char * strkey, long long value)
 //
 PyObject * GetFileHeaderDict(const SDS_FILE_HEADER * const pFileHeader, SDS_FINAL_CALLBACK * const pSDSFinalCallback)
 {
+    // names come from the file and might not be valid UTF-8
+    auto const to_string{ [](const char * pString)
+                          { return PyUnicode_DecodeUTF8(pString, strlen(pString), "surrogateescape"); } };
+
     PyObject * pDict = PyDict_New();
     if (pFileHeader && pDict)
     {
@@ -703,7 +707,12 @@ PyObject * GetFileHeaderDict(const SDS_FILE_HEADER * const pFileHeader, SDS_FINA
         SetStringLong(pDict, "TimeStampUTCNanos", (long long)(pFileHeader->TimeStampUTCNanos));
         if (pSDSFinalCallback && pSDSFinalCallback->strFileName)
         {
-            PyDict_SetItemString(pDict, "Filename", PyUnicode_FromString(pSDSFinalCallback->strFileName));
+            PyObject * pFileName = to_string(pSDSFinalCallback->strFileName);
+            if (pFileName)
+            {
+                PyDict_SetItemString(pDict, "Filename", pFileName);
+                Py_DECREF(pFileName);
+            }
             SDSSectionName * pSection = pSDSFinalCallback->pSectionName;
 
             // The sectionoffset is used to reorder
@@ -718,10 +727,12 @@ PyObject * GetFileHeaderDict(const SDS_FILE_HEADER * const pFileHeader, SDS_FINA
                 PyObject * pSectionListOffset = PyList_New(pSection->SectionCount);
                 PyDict_SetItemString(pDict, "Sections", pSectionList);
                 PyDict_SetItemString(pDict, "SectionOffsets", pSectionListOffset);
+                Py_DECREF(pSectionList);
+                Py_DECREF(pSectionListOffset);
 
                 for (int64_t n = 0; n < pSection->SectionCount; n++)
                 {
-                    PyList_SetItem(pSectionList, n, PyUnicode_FromString(pSection->pSectionNames[n]));
+                    PyList_SetItem(pSectionList, n, to_string(pSection->pSectionNames[n]));
                     PyList_SetItem(pSectionListOffset, n, (PyObject *)PyLong_FromLongLong(pSection->pSectionOffsets[n]));
                 }
             }
-- 
2.43.0


From 7c0db15c06ea528a5f0cf5b91034febe781d5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 46/55] fix: compression reports that it ran out of memory

---
 src/ZstdCompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZstdCompress.cpp b/src/ZstdCompress.cpp
index cc4843c..0047821 100644
--- a/src/ZstdCompress.cpp
+++ b/src/ZstdCompress.cpp
@@ -33,7 +33,7 @@ size_t ZstdCompressData(void * dst, size_t dstCapacity, const void * src, size_t
         if (! cctx)
         {
             LOGGING("Error creating ZSTD_CCtx\n");
-            return ZSTD_error_memory_allocation;
+            return (size_t)-ZSTD_error_memory_allocation;
         }
         else
         {
-- 
2.43.0


From c96371e75e15f83eb3b40fffc73ff001ba26c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 47/55] fix: stacking and filtering SDS files keeps rows of
 every layout, width and length apart

---
 src/SDSFile.cpp | 361 +++++++++++++++++++++++++++++-------------------
 src/SDSFile.h   |   1 +
 2 files changed, 217 insertions(+), 145 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 51b173d..92fa450 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1295,6 +1295,13 @@ private:
     }
 };
 
+//-------------------------------------------------------
+// Returns true if the columns are contiguous (and not the rows)
+static bool IsFortranOnly(const SDS_ARRAY_BLOCK * pBlockInfo)
+{
+    return (pBlockInfo->Flags & (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS)) == SDS_ARRAY_F_CONTIGUOUS;
+}
+
 //-------------------------------------------------------
 // Returns bytesPerRow
 int64_t GetBytesPerRow(SDS_ARRAY_BLOCK * pBlockInfo)
@@ -2186,8 +2193,7 @@ static bool CheckArrayBlocks(SDS_ARRAY_BLOCK * pArrayBlocks, int64_t arrayCount)
         // the data is always contiguous
         if (! isEmpty)
         {
-            bool isFortran =
-                (pBlock->Flags & (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS)) == SDS_ARRAY_F_CONTIGUOUS;
+            bool isFortran = IsFortranOnly(pBlock);
             int64_t stride = pBlock->ItemSize;
             for (int32_t j = 0; j < pBlock->NDim; j++)
             {
@@ -2747,6 +2753,13 @@ bool EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
     return result;
 }
 
+struct SDS_IO_PACKET;
+
+static int64_t ReadFortranArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, SDS_IO_PACKET * pIOPacket, SDS_EVENT_HANDLE eventHandle,
+                                     SDS_FILE_HANDLE sdsFile, void * tempBuffer, char * pDest, int64_t destRows,
+                                     int64_t arrayOffset, SDS_FILTER * pFilter, int64_t maskOffset, int64_t arrayIndex,
+                                     int32_t core);
+
 //----------------------------------------------------------
 // Decompress -- called from multiple threads -- READING data
 //
@@ -2811,7 +2824,14 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
 
         int64_t result = -1;
 
-        if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
+        if (pBlockInfo->Flags & SDS_ARRAY_FILTERED && IsFortranOnly(pBlockInfo))
+        {
+            // No stacking but filtering (columns are contiguous)
+            result = ReadFortranArrayBlock(pBlockInfo, NULL, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
+                                           (char *)destBuffer, pBlockInfo->Dimensions[0], 0, pstCompressArrays->pFilter, 0, t,
+                                           core);
+        }
+        else if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
             result =
@@ -3997,6 +4017,17 @@ public:
                         dim0Length = pReadCallbacks->Filter.BoolMaskLength;
                     }
                     pBlock->Dimensions[0] = SumBooleanMask((const int8_t *)pReadCallbacks->Filter.pBoolMask, dim0Length);
+
+                    if (IsFortranOnly(pBlock))
+                    {
+                        // fewer rows means the columns are closer together
+                        int64_t stride = pBlock->ItemSize;
+                        for (int32_t j = 0; j < pBlock->NDim; j++)
+                        {
+                            pBlock->Strides[j] = stride;
+                            stride *= pBlock->Dimensions[j];
+                        }
+                    }
                 }
 
                 pReadCallbacks->AllocateArrayCallback(&sdsArrayCallback);
@@ -5346,7 +5377,7 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
         {
             int8_t * pDestBuffer = (int8_t *)destBuffer;
             int8_t invalid = *(int8_t *)pDefaultType;
-            for (int32_t j = 0; j < bytesToFill; j++)
+            for (int64_t j = 0; j < bytesToFill; j++)
             {
                 pDestBuffer[j] = invalid;
             }
@@ -5357,7 +5388,7 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
             int16_t * pDestBuffer = (int16_t *)destBuffer;
             int16_t invalid = *(int16_t *)pDefaultType;
             bytesToFill /= 2;
-            for (int32_t j = 0; j < bytesToFill; j++)
+            for (int64_t j = 0; j < bytesToFill; j++)
             {
                 pDestBuffer[j] = invalid;
             }
@@ -5368,7 +5399,7 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
             int32_t * pDestBuffer = (int32_t *)destBuffer;
             int32_t invalid = *(int32_t *)pDefaultType;
             bytesToFill /= 4;
-            for (int32_t j = 0; j < bytesToFill; j++)
+            for (int64_t j = 0; j < bytesToFill; j++)
             {
                 pDestBuffer[j] = invalid;
             }
@@ -5379,7 +5410,7 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
             int64_t * pDestBuffer = (int64_t *)destBuffer;
             int64_t invalid = *(int64_t *)pDefaultType;
             bytesToFill /= 8;
-            for (int32_t j = 0; j < bytesToFill; j++)
+            for (int64_t j = 0; j < bytesToFill; j++)
             {
                 pDestBuffer[j] = invalid;
             }
@@ -5789,6 +5820,12 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
         pDestInfo, pMasterBlock->NDim, pMasterBlock->Flags, destBuffer, pIOPacket->ArrayOffset, pMasterBlock->ItemSize,
         pMasterBlock->Dimensions[0]);
 
+    // Nothing is allocated for an array without dimensions
+    if (! destBuffer)
+    {
+        return;
+    }
+
     // TODO: matlab string fill is different
     // Fortran >= 2d arrays gap fill is different
     if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
@@ -5808,13 +5845,15 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
         // startrow:%lld   dtype: %d\n", (int)pMasterBlock->NDim, rowLength, colSize,
         // pIOPacket->ArrayOffset, (int)pMasterBlock->DType);
 
-        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
+        // fill the rows of this file one column at a time
+        SDSArrayInfo column = *pDestInfo;
+        column.NDim = 1;
+        column.ArrayLength = rowLength;
 
-        pGapFill(destBuffer, // upper left corner of src
-                 totalRowLength,
-                 pIOPacket->ArrayOffset, // array offset (start row)
-                 rowLength,              // rows for this file only
-                 colSize);
+        for (int64_t col = 0; col < colSize && rowLength > 0; col++)
+        {
+            GapFill((char *)destBuffer + ((col * totalRowLength + pIOPacket->ArrayOffset) * pMasterBlock->ItemSize), &column);
+        }
     }
     else
     {
@@ -5975,83 +6014,58 @@ void MatlabStringFixup(uint16_t * pDest,     // 2 byte unicode (upper left corne
 // The master is always the widest
 // The slave string is widened inplace
 // The slave buffer must be smaller than required
-// Each line is stretched inplace starting at the back so we do not overwrite
-void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BLOCK * pSlaveBlock, int64_t slaveRowLength,
-                 int64_t slaveItemSize)
+// Each string is stretched inplace starting at the back so we do not overwrite
+//
+// slaveCount: number of strings (all the dimensions)
+// slaveItemSize: bytes of one string (in the dtype of the master)
+void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, int64_t slaveCount, int64_t slaveItemSize)
 {
-    // Only the itemsize for master is correct
-    // The other dimensions are correct in the pSlaveBlock
-    int64_t oneRowSize = pMasterBlock->ItemSize;
-    for (int32_t j = 1; j < pSlaveBlock->NDim; j++)
-    {
-        oneRowSize *= pSlaveBlock->Dimensions[j];
-    }
+    int64_t masterItemSize = pMasterBlock->ItemSize;
 
-    int64_t gap = oneRowSize - slaveItemSize;
+    if (masterItemSize > slaveItemSize)
+    {
+        logger->debug("string widening: {}  from: {}  to: {}", slaveCount, slaveItemSize, masterItemSize);
 
-    // Code below to be deleted when ugs in filtering gone
-    // int64_t rows = pSlaveBlock->Dimensions[0];
+        for (int64_t i = slaveCount - 1; i >= 0; i--)
+        {
+            char * pString = destBuffer + (i * masterItemSize);
+            memmove(pString, destBuffer + (i * slaveItemSize), slaveItemSize);
+            memset(pString + slaveItemSize, 0, masterItemSize - slaveItemSize);
+        }
+    }
+}
 
-    // new code for filtering..
-    int64_t rows = slaveRowLength;
+//----------------------------------------------------------
+// Called from multiple threads when stacking
+// Makes the items read from one file the same as the items of the master (done inplace)
+static void MatchMaster(char * destBuffer, SDS_IO_PACKET * pIOPacket, int64_t slaveRows)
+{
+    SDS_ARRAY_BLOCK * pMasterBlock = pIOPacket->pMasterBlock;
+    SDS_ARRAY_BLOCK * pBlockInfo = pIOPacket->pBlockInfo;
 
-    if (gap > 0 && rows > 0)
+    int64_t slaveItemSize = pBlockInfo->ItemSize;
+    int64_t slaveCount = slaveRows;
+    for (int32_t j = 1; j < pBlockInfo->NDim; j++)
     {
-        if (pMasterBlock->DType == SDS_STRING)
-        {
-            logger->debug("string gap: {}  rows: {}  smallerSize:{}  oneRowSize:{}", gap, rows, slaveItemSize, oneRowSize);
+        slaveCount *= pBlockInfo->Dimensions[j];
+    }
 
-            char * pEndString1 = destBuffer + (slaveItemSize * rows);
-            char * pEndString2 = destBuffer + (oneRowSize * rows);
-            pEndString1--;
-            pEndString2--;
+    // Python string fixup path
+    if (pIOPacket->Compatible.NeedsStringFixup == 1)
+    {
+        // This is when column have strings, but they are different widths
+        // Find the wide string and expand everyone else
+        StringFixup(destBuffer, pMasterBlock, slaveCount, slaveItemSize);
+    }
+    if (pIOPacket->Compatible.NeedsConversion)
+    {
+        // done inplace (no need for extra buffer)
+        ConvertDType(destBuffer, pMasterBlock, pBlockInfo, slaveCount, slaveItemSize);
 
-            for (int32_t i = 0; i < rows; i++)
-            {
-                char * pFront = pEndString2 - gap;
-                while (pEndString2 > pFront)
-                {
-                    // zero pad backwards
-                    // printf("z%c", *pEndString2);
-                    *pEndString2-- = 0;
-                }
-                // then copy the string
-                pFront = pEndString2 - slaveItemSize;
-                while (pEndString2 > pFront)
-                {
-                    // copy string backwards
-                    *pEndString2-- = *pEndString1--;
-                }
-            }
-        }
-        else
+        if (pMasterBlock->DType == SDS_UNICODE)
         {
-            logger->debug("unicode gap: {}  rows: {}  smallerSize:{}  oneRowSize:{}", gap, rows, slaveItemSize, oneRowSize);
-            // Unicode loop
-            oneRowSize /= 4;
-            slaveItemSize /= 4;
-            gap /= 4;
-
-            uint32_t * pEndString1 = (uint32_t *)destBuffer + (slaveItemSize * rows);
-            uint32_t * pEndString2 = (uint32_t *)destBuffer + (oneRowSize * rows);
-            pEndString1--;
-            pEndString2--;
-
-            for (int32_t i = 0; i < rows; i++)
-            {
-                // first copy the gap
-                for (int32_t j = 0; j < gap; j++)
-                {
-                    // zero pad backwards
-                    *pEndString2-- = 0;
-                }
-                // then copy the string
-                for (int32_t j = 0; j < slaveItemSize; j++)
-                {
-                    // zero pad backwards
-                    *pEndString2-- = *pEndString1--;
-                }
-            }
+            // one byte strings became four byte strings which might not be as wide
+            StringFixup(destBuffer, pMasterBlock, slaveCount, slaveItemSize * 4);
         }
     }
 }
@@ -6080,7 +6094,8 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
         SDS_WHICH_DTYPE wodtype = WhichDType(odtype);
 
         // If they are in the same class.. we can convert
-        if (wmdtype.whole == wodtype.whole)
+        // (there are no conversions between complex, void and other types)
+        if (wmdtype.whole == wodtype.whole && ! wmdtype.w.isUnknown)
         {
             // String to UNICODE happens here
             c.NeedsConversion = true;
@@ -6334,36 +6349,19 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket, bool * isNeeded)
     {
         SDS_ARRAY_BLOCK * pBlockInfo = pIOPacket->pBlockInfo;
 
-        if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
+        if (pIOPacket->Compatible.NeedsStringFixup & 2)
         {
-            if (pMasterBlock->NDim > 2)
-            {
-                logger->error("!!! error cannot rotate above two dimensions");
-            }
-            int64_t allocSize = pBlockInfo->ItemSize;
-            for (int32_t j = 0; j < pBlockInfo->NDim; j++)
+            int64_t allocSize = pBlockInfo->ItemSize * pBlockInfo->Dimensions[0];
+            // pick up more string dimensions
+            if (pBlockInfo->NDim > 1)
             {
-                allocSize *= pBlockInfo->Dimensions[j];
+                logger->error("!!! error cannot handle multid strings");
             }
+            // Allocate a temporary buffer to load 1 or 4 byte string into
+            // This buffer will have to be copied into
             *isNeeded = true;
             return WORKSPACE_ALLOC(allocSize);
         }
-        else
-        {
-            if (pIOPacket->Compatible.NeedsStringFixup & 2)
-            {
-                int64_t allocSize = pBlockInfo->ItemSize * pBlockInfo->Dimensions[0];
-                // pick up more string dimensions
-                if (pBlockInfo->NDim > 1)
-                {
-                    logger->error("!!! error cannot handle multid strings");
-                }
-                // Allocate a temporary buffer to load 1 or 4 byte string into
-                // This buffer will have to be copied into
-                *isNeeded = true;
-                return WORKSPACE_ALLOC(allocSize);
-            }
-        }
     }
 
     // no extra buffer required, nothing to rotate
@@ -6383,20 +6381,7 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     SDS_ARRAY_BLOCK * pMasterBlock = pIOPacket->pMasterBlock;
     SDS_ARRAY_BLOCK * pBlockInfo = pIOPacket->pBlockInfo;
 
-    if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
-    {
-        int64_t totalRowLength = pMasterBlock->Dimensions[0];
-        int64_t rowLength = pBlockInfo->Dimensions[0];
-        int64_t colLength = pMasterBlock->Dimensions[1];
-
-        RotationalFixup((char *)origBuffer, // original buffer (upper left of final destination)
-                        (char *)tempBuffer, // upper left corner of src
-                        totalRowLength,
-                        pIOPacket->ArrayOffset, // array offset (start row)
-                        rowLength,              // rows for this file only
-                        colLength, pMasterBlock->ItemSize);
-    }
-    else if (pIOPacket->Compatible.NeedsStringFixup & 2)
+    if (pIOPacket->Compatible.NeedsStringFixup & 2)
     {
         int64_t totalRowLength = pMasterBlock->Dimensions[0];
         int64_t rowLength = pBlockInfo->Dimensions[0];
@@ -6425,6 +6410,74 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     return true;
 }
 
+//----------------------------------------------------------
+// Called from multiple threads
+// Reads a Fortran array of two or more dimensions when it cannot be read straight into its destination:
+// some rows are filtered out, or the rows of other files are in the same destination.
+//
+// pDest is the upper left corner of the destination which has destRows rows
+// arrayOffset is the row in the destination for the first row of this file
+// pFilter is NULL when all rows are wanted, maskOffset is the first row in the mask for this file
+//
+// return < 0 on failure
+static int64_t ReadFortranArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, SDS_IO_PACKET * pIOPacket, SDS_EVENT_HANDLE eventHandle,
+                                     SDS_FILE_HANDLE sdsFile, void * tempBuffer, char * pDest, int64_t destRows,
+                                     int64_t arrayOffset, SDS_FILTER * pFilter, int64_t maskOffset, int64_t arrayIndex,
+                                     int32_t core)
+{
+    int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
+    if (bytesPerRow <= 0)
+    {
+        return 0;
+    }
+
+    // the dimension might be what is left after filtering
+    int64_t rows = pBlockInfo->ArrayUncompressedSize / bytesPerRow;
+    int64_t cols = bytesPerRow / pBlockInfo->ItemSize;
+    int64_t itemSize = pIOPacket ? pIOPacket->pMasterBlock->ItemSize : pBlockInfo->ItemSize;
+    int64_t maxItemSize = itemSize > pBlockInfo->ItemSize ? itemSize : pBlockInfo->ItemSize;
+
+    char * buffer = (char *)WORKSPACE_ALLOC(rows * cols * maxItemSize);
+    if (! buffer)
+    {
+        return -1;
+    }
+
+    int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, eventHandle, sdsFile, tempBuffer, buffer, arrayIndex, core,
+                                                 COMPRESSION_TYPE_ZSTD);
+    if (result >= 0)
+    {
+        if (pIOPacket)
+        {
+            MatchMaster(buffer, pIOPacket, rows);
+        }
+
+        for (int64_t col = 0; col < cols; col++)
+        {
+            char * pIn = buffer + (col * rows * itemSize);
+            char * pOut = pDest + ((col * destRows + arrayOffset) * itemSize);
+
+            if (pFilter)
+            {
+                for (int64_t row = 0; row < rows && (maskOffset + row) < pFilter->BoolMaskLength; row++)
+                {
+                    if (pFilter->pBoolMask[maskOffset + row])
+                    {
+                        memcpy(pOut, pIn + (row * itemSize), itemSize);
+                        pOut += itemSize;
+                    }
+                }
+            }
+            else
+            {
+                memcpy(pOut, pIn, rows * itemSize);
+            }
+        }
+    }
+    WORKSPACE_FREE(buffer);
+    return result;
+}
+
 //----------------------------------------------------------
 // Decompress -- called from multiple threads -- READING data
 //
@@ -6547,7 +6600,30 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 return true;
             }
 
-            if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
+            bool isFiltered =
+                (pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED);
+
+            // Fortran order: the rows of one file are not together in the destination
+            bool isFortran = false;
+            if (pMasterBlock)
+            {
+                isFortran = pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS;
+            }
+            else if (isFiltered)
+            {
+                isFortran = IsFortranOnly(pBlockInfo);
+            }
+
+            if (isFortran)
+            {
+                result = ReadFortranArrayBlock(pBlockInfo, pMasterBlock ? pIOPacket : NULL, pMultiIOPackets->eventHandles[core],
+                                               sdsFile, tempFileBuffer, (char *)destBuffer,
+                                               pMasterBlock ? pMasterBlock->Dimensions[0] : pBlockInfo->Dimensions[0],
+                                               pMasterBlock ? pIOPacket->ArrayOffset : 0,
+                                               isFiltered ? pMultiIOPackets->pFilter : NULL,
+                                               pMasterBlock ? pIOPacket->OriginalArrayOffset : 0, pIOPacket->StackPosition, core);
+            }
+            else if (isFiltered)
             {
                 // printf("filtering on for %lld\n", t);
                 // if (pMultiIOPackets->pFilter->pFancyMask) {
@@ -6601,27 +6677,9 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                     FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
                     destBuffer = origBuffer;
                 }
-                else
+                else if (pMasterBlock && ! isFortran)
                 {
-                    // Python string fixup path
-                    if (pIOPacket->Compatible.NeedsStringFixup == 1)
-                    {
-                        // This is when column have strings, but they are different widths
-                        // Find the wide string and expand everyone else
-                        StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
-                    }
-                    if (pIOPacket->Compatible.NeedsConversion)
-                    {
-                        // done inplace (no need for extra buffer)
-                        logger->debug(
-                            "Needs conversion  mb dtype:{}  mb itemsize: {}    dim0: "
-                            "{}   slaveRowLength:{}  needs stringfixup: {}  "
-                            "filterflags: {}",
-                            pIOPacket->pMasterBlock->DType, pIOPacket->pMasterBlock->ItemSize,
-                            pIOPacket->pMasterBlock->Dimensions[0], slaveRowLength, pIOPacket->Compatible.NeedsStringFixup,
-                            pMasterBlock->Flags);
-                        ConvertDType((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
-                    }
+                    MatchMaster((char *)destBuffer, pIOPacket, slaveRowLength);
                 }
             }
             else
@@ -8162,8 +8220,8 @@ public:
 
                                 if (hasFilter)
                                 {
-                                    // this code trusts that original container in a Dataset is
-                                    // truthful
+                                    // all columns of the original container in a Dataset have the same
+                                    // length (checked below)
                                     filterTrueCount = pFilterInfo[row].TrueCount;
                                 }
                                 else
@@ -8173,6 +8231,14 @@ public:
                                         (int8_t *)pReadCallbacks->Filter.pBoolMask + currentUnfilteredOffset, bLength);
                                 }
                             }
+                            if (hasFilter && pFilterInfo[row].RowLength != calcLength)
+                            {
+                                SetErr_Format(SDS_VALUE_ERROR, "Cannot filter column %s: it has %lld rows instead of %lld",
+                                              pKing->ColName, calcLength, pFilterInfo[row].RowLength);
+                                isAllocated = false;
+                                break;
+                            }
+                            pFilterInfo[row].RowLength = calcLength;
                             pFilterInfo[row].TrueCount = filterTrueCount;
                             // similar to a cumsum
                             pFilterInfo[row].RowOffset =
@@ -8218,6 +8284,11 @@ public:
                     }
                 }
 
+                if (! isAllocated)
+                {
+                    break;
+                }
+
                 if (isFilterable && hasFilter == 0)
                 {
                     // Readjust TrueCount based on what we calculated
@@ -8229,7 +8300,7 @@ public:
 
                 // Calculate how many rows to allocate based on all the stacking
                 rowLengthToAlloc = currentOffset;
-                if (reserveSpace > 0.0)
+                if (reserveSpace > 0.0 && ! isFilterable)
                 {
                     rowLengthToAlloc += (int64_t)(currentOffset * reserveSpace);
                 }
@@ -8419,7 +8490,7 @@ public:
                         pDestInfo->pArrayObject = sdsArrayCallback.pDestInfo->pArrayObject;
 
                         if ((pIOPacket->pMasterBlock->NDim >= 2 && pIOPacket->pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) ||
-                            (pIOPacket->Compatible.NeedsStringFixup & 2))
+                            (pIOPacket->Compatible.NeedsStringFixup & 2) || ! sdsArrayCallback.pDestInfo->pData)
                         {
                             // TODO: filter two dimensions
                             // pReadCallbacks->WarningCallback("**matlab!  arrayOffset:%lld
diff --git a/src/SDSFile.h b/src/SDSFile.h
index af6b258..ba10344 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -479,6 +479,7 @@ struct SDSFilterInfo
 {
     int64_t TrueCount; // If zero, dont bother reading in data
     int64_t RowOffset; // sum of all previous True Count
+    int64_t RowLength; // number of rows before filtering
 };
 
 struct SDS_FILTER
-- 
2.43.0


From 080f97a2e949314675099c7f280fb256f55cf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 48/55] fix: stacking SDS files fills rows of empty and long
 double columns, keeps memory order and allows missing files

Rows of a column which is empty in a file were uninitialised, long double gaps were 0, a bool False became invalid,
C and F order files were mixed when the first file had one row, and reading many files failed when one was missing.
---
 src/SDSFile.cpp | 73 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 92fa450..6f823be 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -3910,6 +3910,9 @@ public:
     bool IsFileValid = false;
     bool IsFileValidAndNotFilteredOut = false;
 
+    // Set to true when there is no file with this name
+    bool IsFileMissing = false;
+
     //------------------------------------------------
     // constructor
     // pInclude = NULL is allowed
@@ -4335,6 +4338,7 @@ public:
         {
             SetErr_Format(SDS_VALUE_ERROR, "Decompression error cannot create/open file: %s.  Error: %s", fileName,
                           GetLastErrorMessage());
+            IsFileMissing = DefaultFileIO.FileSize(fileName) < 0;
             return BAD_SDS_HANDLE;
         }
 
@@ -5154,7 +5158,8 @@ static void ConvertInplace(void * pDataIn, void * pDataOut, int64_t dataInSize,
     for (int64_t i = 0; i < len; i++)
     {
         // printf("[%lld]converted %lf -> %lf\n", i, (double)*pIn, (double)*pOut);
-        if (*pIn != pBadValueIn)
+        // (a bool is always valid)
+        if (std::is_same_v<T, bool> || *pIn != pBadValueIn)
         {
             U temp = (U)*pIn;
             *pOut = temp;
@@ -5417,6 +5422,17 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
         }
         break;
     default:
+        if (pDestInfo->NumpyDType == SDS_LONGDOUBLE)
+        {
+            long double * pDestBuffer = (long double *)destBuffer;
+            long double invalid = *(long double *)pDefaultType;
+            bytesToFill /= sizeof(long double);
+            for (int64_t j = 0; j < bytesToFill; j++)
+            {
+                pDestBuffer[j] = invalid;
+            }
+            break;
+        }
         // probably a string
         // does matlab want ' ' spaces instead?
         memset(destBuffer, 0, bytesToFill);
@@ -6307,22 +6323,15 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
         // If the other array is both C and F contiguous, it never needs no rotation.
         if (oflags != (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
         {
-            if (mflag != oflag)
+            // If the master block is C and F contiguous, and fixing up, adopt the other's order.
+            if (doFixup && mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
+            {
+                pMasterArrayBlock->Flags = pArrayBlock->Flags;
+            }
+            else if (mflag != oflag)
             {
                 // possibly incompatible
-                bool needsRotation = true;
-
-                // If the master block is C and F contiguous, and fixing up, adopt the other's order.
-                if (doFixup)
-                {
-                    if (mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
-                    {
-                        pMasterArrayBlock->Flags = pArrayBlock->Flags;
-                        needsRotation = false;
-                    }
-                }
-
-                c.NeedsRotation = needsRotation;
+                c.NeedsRotation = true;
             }
         }
     }
@@ -7018,6 +7027,27 @@ public:
         pReadCallbacks->EndAllowThreads(saveState);
     }
 
+    //===========================================
+    // One of many files may be missing (unless MustExist is set), every other error stays set
+    // Returns false if a file could not be read
+    bool AllowMissingFiles()
+    {
+        bool isReadable = true;
+
+        for (int64_t i = 0; i < FileCount; i++)
+        {
+            if (! pSDSDecompressFile[i]->IsFileValid && ! pSDSDecompressFile[i]->IsFileMissing)
+            {
+                isReadable = false;
+            }
+        }
+        if (isReadable && FileCount > 1)
+        {
+            ClearErrors();
+        }
+        return isReadable;
+    }
+
     //===========================================
     // singlethreaded allocation, followed by multithreaded reads
     //
@@ -7522,10 +7552,16 @@ public:
         // Check if concat mode
         if (multiMode != SDS_MULTI_MODE_CONCAT_MANY)
         {
-            if (! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
+            if (! AllowMissingFiles() || ! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
             {
                 return NULL;
             }
+            // the sections were opened
+            if (! AllowMissingFiles())
+            {
+                FreeExtraFiles(pSDSDecompressFileExtra);
+                return NULL;
+            }
         }
 
         int64_t validCount = 0;
@@ -7816,12 +7852,12 @@ public:
         GetFileInfo(multiMode);
 
         SDSDecompressFile ** pSDSDecompressFileExtra = NULL;
-        if (! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
+        if (! AllowMissingFiles() || ! ScanForSections(pReadCallbacks, pSDSDecompressFileExtra))
         {
             return NULL;
         }
 
-        void * result = StackFiles(pReadCallbacks);
+        void * result = AllowMissingFiles() ? StackFiles(pReadCallbacks) : NULL;
 
         // Tear it down
         ClearColumnList();
@@ -8473,6 +8509,7 @@ public:
                             SDS_ARRAY_BLOCK * pMasterBlock = &pKing->KingBlock;
 
                             // NO IO PACKET (GAP)
+                            pIOPacket->pBlockInfo = NULL;
                             logger->debug(
                                 ">>> gap fill {}  for row: {}   col: {}   "
                                 "orig:{}  ds:{}  mdtype:{}",
-- 
2.43.0


From b87567d176f01d0c4b0a51126866b38a3c9430a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 49/55] fix: arrays of length one with another stride are
 loaded from shared memory

---
 src/SDSFile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 6f823be..b6f15a6 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -3115,11 +3115,18 @@ bool SharedMemory::CheckExisting()
     for (int64_t i = 0; i < pHeader->ArraysWritten; i++)
     {
         SDS_ARRAY_BLOCK block = *GetArrayBlock(i);
-        if (! CheckArrayBlocks(&block, 1) || ! isInside(block.ArrayDataOffset, block.ArrayUncompressedSize) ||
-            memcmp(block.Strides, GetArrayBlock(i)->Strides, block.NDim * sizeof(block.Strides[0])) != 0)
+        if (! CheckArrayBlocks(&block, 1) || ! isInside(block.ArrayDataOffset, block.ArrayUncompressedSize))
         {
             return false;
         }
+        for (int32_t j = 0; j < block.NDim; j++)
+        {
+            // the stride of a dimension of one is never used
+            if (block.Dimensions[j] != 1 && block.Strides[j] != GetArrayBlock(i)->Strides[j])
+            {
+                return false;
+            }
+        }
     }
     return true;
 }
-- 
2.43.0


From 27b247c8f4cd4ba30b3b4006c91c5bedddb978ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 50/55] fix: in-memory compression checks its input and reports
 errors on the calling thread

---
 src/Compress.cpp | 372 ++++++++++++++++++++++++-----------------------
 src/Compress.h   |   4 +
 2 files changed, 194 insertions(+), 182 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..a064dca 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -22,6 +22,7 @@ void FillInNumpyHeader(NUMPY_HEADERSIZE * pstNumpyHeader, int32_t dtype, int32_t
 {
     if (pstNumpyHeader)
     {
+        memset(pstNumpyHeader, 0, sizeof(NUMPY_HEADERSIZE));
         pstNumpyHeader->magic = COMPRESSION_MAGIC;
         pstNumpyHeader->compressiontype = COMPRESSION_TYPE_ZSTD;
 
@@ -62,48 +63,80 @@ NUMPY_HEADERSIZE * AllocCompressedMemory(int64_t arraylength, int32_t dtype, int
 }
 
 //-------------------------------------------------------
-// Decompress
-bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
+// Checks that a compressed array is complete and describes the data which follows
+// Raises an error and returns false otherwise
+static bool CheckCompressedArray(const ArrayInfo & info)
 {
-    COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays = (COMPRESS_NUMPY_TO_NUMPY *)pstCompressArraysV;
-    ArrayInfo * aInfo = pstCompressArrays->aInfo;
+    const NUMPY_HEADERSIZE * pNumpyHeader = (const NUMPY_HEADERSIZE *)info.pData;
 
-    if (pstCompressArrays->pNumpyHeaders[t])
+    if (! pNumpyHeader || info.NDim != 1 || info.ItemSize != 1 || info.NumBytes < (int64_t)sizeof(NUMPY_HEADERSIZE) ||
+        pNumpyHeader->magic != COMPRESSION_MAGIC || pNumpyHeader->compressiontype != COMPRESSION_TYPE_ZSTD ||
+        pNumpyHeader->compressedSize > info.NumBytes - sizeof(NUMPY_HEADERSIZE))
     {
-        NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)pstCompressArrays->aInfo[t].pData;
+        PyErr_Format(PyExc_ValueError, "input data is not a compressed array");
+        return false;
+    }
 
-        void * source = &pNumpyHeader[1];
-        uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(source, pNumpyHeader->compressedSize);
+    const int32_t dtype = pNumpyHeader->dtype;
+    int64_t arraySize = pNumpyHeader->itemsize;
 
-        switch (dest_size)
+    if (dtype < 0 || dtype > NPY_VOID || dtype == NPY_OBJECT || arraySize < 0 ||
+        (! PyTypeNum_ISFLEXIBLE(dtype) && arraySize != NpyToSize(dtype)) || (dtype == NPY_UNICODE && arraySize % 4) ||
+        pNumpyHeader->ndim < 1 || pNumpyHeader->ndim > 3)
+    {
+        PyErr_Format(PyExc_ValueError, "compressed array has invalid header");
+        return false;
+    }
+    for (int i = 0; i < pNumpyHeader->ndim; i++)
+    {
+        const int64_t dimension = pNumpyHeader->dimensions[i];
+
+        if (dimension < 0 || (dimension > 0 && arraySize > NPY_MAX_INTP / dimension))
         {
-        case ZSTD_CONTENTSIZE_UNKNOWN:
-        case ZSTD_CONTENTSIZE_ERROR:
-        case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+            PyErr_Format(PyExc_ValueError, "compressed array has invalid dimensions");
             return false;
-
-        default:
-            break;
         }
+        arraySize *= dimension;
+    }
+
+    const unsigned long long contentSize = ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
+
+    if (contentSize == ZSTD_CONTENTSIZE_UNKNOWN || contentSize == ZSTD_CONTENTSIZE_ERROR)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+        return false;
+    }
+    if (contentSize != (unsigned long long)arraySize)
+    {
+        PyErr_Format(PyExc_ValueError, "compressed array length mismatch -> decomp %llu != %lld [header]", contentSize,
+                     (long long)arraySize);
+        return false;
+    }
+    return true;
+}
 
+//-------------------------------------------------------
+// Decompress -- called from multiple threads, which must not raise errors
+bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
+{
+    COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays = (COMPRESS_NUMPY_TO_NUMPY *)pstCompressArraysV;
+
+    if (pstCompressArrays->pNumpyArray[t])
+    {
+        NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)pstCompressArrays->aInfo[t].pData;
         PyArrayObject * pArrayObject = pstCompressArrays->pNumpyArray[t];
-        void * dest = PyArray_BYTES(pArrayObject);
+        size_t dest_size = ArrayLength(pArrayObject) * PyArray_ITEMSIZE(pArrayObject);
 
-        size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
+        size_t cSize =
+            ZSTD_decompress(PyArray_BYTES(pArrayObject), dest_size, &pNumpyHeader[1], pNumpyHeader->compressedSize);
 
-        if (ZSTD_isError(cSize))
+        if (! ZSTD_isError(cSize) && cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
+            cSize = (size_t)-ZSTD_error_srcSize_wrong;
         }
-        else if (cSize != dest_size)
+        if (ZSTD_isError(cSize))
         {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
-            return false;
+            pstCompressArrays->firstError = cSize;
         }
     }
 
@@ -135,7 +168,6 @@ bool CompressMemoryArray(void * pstCompressArraysV, int core, int64_t t)
 
         if (ZSTD_isError(cSize))
         {
-            printf("ZSTD_isError\n");
             WORKSPACE_FREE(pstCompressArrays->pNumpyHeaders[t]);
             pstCompressArrays->pNumpyHeaders[t] = NULL;
         }
@@ -178,137 +210,97 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (mode != COMPRESSION_MODE_COMPRESS && mode != COMPRESSION_MODE_DECOMPRESS)
+    {
+        PyErr_Format(PyExc_ValueError, "invalid compression mode: %d", mode);
+        return NULL;
+    }
+
     int64_t totalItemSize = 0;
     int64_t tupleSize = 0;
     ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, mode == COMPRESSION_MODE_COMPRESS);
 
-    if (aInfo)
+    if (! aInfo)
+    {
+        return NULL;
+    }
+
+    COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
+        (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
+
+    if (! pstCompressArrays)
     {
-        COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
-            (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
-        pstCompressArrays->totalHeaders = tupleSize;
+        FreeArrayInfo(aInfo);
+        return PyErr_NoMemory();
+    }
 
-        //---------------------
-        if (level <= 0)
-            level = ZSTD_CLEVEL_DEFAULT;
-        if (level > ZSTD_MAX_CLEVEL)
-            level = ZSTD_MAX_CLEVEL;
+    //---------------------
+    if (level <= 0)
+        level = ZSTD_CLEVEL_DEFAULT;
+    if (level > ZSTD_MAX_CLEVEL)
+        level = ZSTD_MAX_CLEVEL;
 
-        pstCompressArrays->compLevel = level;
-        pstCompressArrays->compType = COMPRESSION_TYPE_ZSTD;
-        pstCompressArrays->compMode = (int16_t)mode;
-        // pstCompressArrays->pBlockInfo = NULL;
-        pstCompressArrays->aInfo = aInfo;
+    pstCompressArrays->totalHeaders = tupleSize;
+    pstCompressArrays->compLevel = level;
+    pstCompressArrays->compType = COMPRESSION_TYPE_ZSTD;
+    pstCompressArrays->compMode = (int16_t)mode;
+    pstCompressArrays->aInfo = aInfo;
+    pstCompressArrays->firstError = 0;
 
-        int32_t numCores = g_cMathWorker->WorkerThreadCount + 1;
+    for (int64_t t = 0; t < tupleSize; t++)
+    {
+        pstCompressArrays->pNumpyHeaders[t] = NULL;
+    }
+
+    // Return all the compressed arrays as UINT8
+    // For decompressed, return original array
+    PyObject * returnTuple = PyTuple_New(tupleSize);
 
-        switch (mode)
+    if (returnTuple && mode == COMPRESSION_MODE_COMPRESS)
+    {
+        // Change this per CORE
+        // Allocate worst care
+        for (int64_t t = 0; t < tupleSize; t++)
         {
-        case COMPRESSION_MODE_COMPRESS:
+            if (aInfo[t].NumpyDType == NPY_OBJECT && aInfo[t].pObject)
             {
-                // Change this per CORE
-                // Allocate worst care
-                for (int t = 0; t < tupleSize; t++)
-                {
-                    pstCompressArrays->pNumpyHeaders[t] =
-                        AllocCompressedMemory(aInfo[t].ArrayLength, aInfo[t].NumpyDType, aInfo[t].NDim,
-                                              (int64_t *)(((PyArrayObject_fields *)aInfo[t].pObject)->dimensions),
-                                              PyArray_FLAGS(aInfo[t].pObject), aInfo[t].ItemSize);
-                }
-
-                // This will kick off the workerthread and call CompressMemoryArray
-                // passing pstCompressArrays as argument with counter and core
-                g_cMathWorker->DoMultiThreadedWork((int)tupleSize, CompressMemoryArray, pstCompressArrays);
+                PyErr_Format(PyExc_ValueError, "cannot compress arrays of objects");
+                Py_CLEAR(returnTuple);
+                break;
             }
-            break;
-
-        case COMPRESSION_MODE_DECOMPRESS:
+            if (aInfo[t].pObject)
             {
-                for (int t = 0; t < tupleSize; t++)
-                {
-                    NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
-                    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
-                    switch (dest_size)
-                    {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
-                    }
-
-                    // Allocate all the arrays before multithreading
-                    // NOTE: do we care about flags -- what if Fortran mode when saved?
-                    pstCompressArrays->pNumpyArray[t] = AllocateNumpyArray(
-                        pNumpyHeader->ndim, (npy_intp *)pNumpyHeader->dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
-                    CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
-                }
-
-                g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+                pstCompressArrays->pNumpyHeaders[t] =
+                    AllocCompressedMemory(aInfo[t].ArrayLength, aInfo[t].NumpyDType, aInfo[t].NDim,
+                                          (int64_t *)(((PyArrayObject_fields *)aInfo[t].pObject)->dimensions),
+                                          PyArray_FLAGS(aInfo[t].pObject), aInfo[t].ItemSize);
             }
-            break;
         }
 
-        //--------------------
-        // Return all the compressed arrays as UINT8
-        // For decompressed, return original array
-        // New reference
-        PyObject * returnTuple = Py_None;
-
-        if (mode == COMPRESSION_MODE_COMPRESS_FILE)
+        if (returnTuple)
         {
-            for (int j = 0; j < numCores; j++)
-            {
-                if (pstCompressArrays->pCoreMemory[j])
-                {
-                    WORKSPACE_FREE(pstCompressArrays->pCoreMemory[j]);
-                }
-            }
+            // This will kick off the workerthread and call CompressMemoryArray
+            // passing pstCompressArrays as argument with counter and core
+            g_cMathWorker->DoMultiThreadedWork((int)tupleSize, CompressMemoryArray, pstCompressArrays);
         }
 
-        if (mode == COMPRESSION_MODE_COMPRESS)
+        //--------------------
+        // Fill in results
+        // Now we know actual length since compression is completed
+        // Copy into a real array
+        for (int64_t t = 0; t < tupleSize; t++)
         {
-            returnTuple = PyTuple_New(tupleSize);
-            int64_t uncompressedSize = 0;
-            int64_t compressedSize = 0;
-
-            //--------------------
-            // Fill in results
-            // Now we know actual length since compression is completed
-            // Copy into a real array
-            for (int t = 0; t < tupleSize; t++)
-            {
-                PyObject * item = NULL;
+            NUMPY_HEADERSIZE * pstNumpyHeader = pstCompressArrays->pNumpyHeaders[t];
+            PyObject * item = NULL;
 
-                if (pstCompressArrays->pNumpyHeaders[t])
+            if (pstNumpyHeader)
+            {
+                if (returnTuple)
                 {
                     // make numpy arrays
-                    NUMPY_HEADERSIZE * pstNumpyHeader = pstCompressArrays->pNumpyHeaders[t];
-
-                    char * pCompressedData = (char *)(&pstNumpyHeader[1]);
-
                     int64_t totalCompressedBytes = pstNumpyHeader->compressedSize + sizeof(NUMPY_HEADERSIZE);
-                    auto const uncomp = ZSTD_getFrameContentSize(pCompressedData, (size_t)totalCompressedBytes);
-                    switch (uncomp)
-                    {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
-                    }
-
-                    uncompressedSize += uncomp;
-                    compressedSize += totalCompressedBytes;
 
                     item = (PyObject *)AllocateNumpyArray(1, (npy_intp *)&totalCompressedBytes, NPY_UINT8);
-                    CHECK_MEMORY_ERROR(item);
 
                     // make sure we got memory
                     if (item)
@@ -319,59 +311,83 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                         void * pDest = PyArray_BYTES((PyArrayObject *)item);
                         memcpy(pDest, pstNumpyHeader, totalCompressedBytes);
                     }
-
-                    // Free memory we allocated for worst case
-                    WORKSPACE_FREE(pstNumpyHeader);
+                    else
+                    {
+                        PyErr_Clear();
+                    }
                 }
 
+                // Free memory we allocated for worst case
+                WORKSPACE_FREE(pstNumpyHeader);
+            }
+
+            if (returnTuple)
+            {
                 // Return NONE for any arrays with memory issues
                 if (item == NULL)
                 {
                     item = Py_None;
                     Py_INCREF(Py_None);
                 }
-
-                // printf("ref %d  %llu\n", i, item->ob_refcnt);
                 PyTuple_SET_ITEM(returnTuple, t, item);
             }
-            LOGGING(
-                "%d%% comp ratio    compressed size: %lld    uncompressed size: "
-                "%lld\n",
-                (int)((compressedSize * 100) / uncompressedSize), compressedSize, uncompressedSize);
         }
-        if (mode == COMPRESSION_MODE_DECOMPRESS)
+    }
+    else if (returnTuple)
+    {
+        // Allocate all the arrays before multithreading
+        for (int64_t t = 0; t < tupleSize; t++)
         {
-            returnTuple = PyTuple_New(tupleSize);
+            PyObject * item = Py_None;
 
-            // Decompression
-            for (int t = 0; t < tupleSize; t++)
+            if (aInfo[t].pObject)
             {
-                PyObject * item = NULL;
+                NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
 
-                if (pstCompressArrays->pNumpyHeaders[t])
+                if (! CheckCompressedArray(aInfo[t]))
                 {
-                    item = (PyObject *)pstCompressArrays->pNumpyArray[t];
+                    Py_CLEAR(returnTuple);
+                    break;
                 }
 
-                // Return NONE for any arrays with memory issues
-                if (item == NULL)
+                npy_intp dimensions[3] = { (npy_intp)pNumpyHeader->dimensions[0], (npy_intp)pNumpyHeader->dimensions[1],
+                                           (npy_intp)pNumpyHeader->dimensions[2] };
+
+                item = (PyObject *)AllocateNumpyArray(pNumpyHeader->ndim, dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
+                if (! item)
                 {
-                    item = Py_None;
-                    Py_INCREF(Py_None);
+                    if (! PyErr_Occurred())
+                    {
+                        PyErr_NoMemory();
+                    }
+                    Py_CLEAR(returnTuple);
+                    break;
                 }
-
-                // printf("ref %d  %llu\n", i, item->ob_refcnt);
-                PyTuple_SET_ITEM(returnTuple, t, item);
+                pstCompressArrays->pNumpyArray[t] = (PyArrayObject *)item;
             }
+            else
+            {
+                Py_INCREF(Py_None);
+            }
+            PyTuple_SET_ITEM(returnTuple, t, item);
         }
 
-        WORKSPACE_FREE(pstCompressArrays);
-        FreeArrayInfo(aInfo);
+        if (returnTuple)
+        {
+            g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
 
-        return returnTuple;
+            if (pstCompressArrays->firstError)
+            {
+                PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(pstCompressArrays->firstError));
+                Py_CLEAR(returnTuple);
+            }
+        }
     }
 
-    return NULL;
+    WORKSPACE_FREE(pstCompressArrays);
+    FreeArrayInfo(aInfo);
+
+    return returnTuple;
 }
 
 //----------------------------------------------------
@@ -405,30 +421,18 @@ PyObject * CompressString(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (source_size > 0)
-    {
-        dest = PyBytes_AS_STRING(result);
-
-        printf("trying to compress %s  size:%zu  dest_size:%zu %d\n", source, source_size, dest_size, level);
-
-        cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
+    dest = PyBytes_AS_STRING(result);
 
-        printf("compressed to %zu\n", cSize);
-
-        if (ZSTD_isError(cSize))
-        {
-            PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
-            Py_CLEAR(result);
-            return NULL;
-        }
+    cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
 
-// Py3.9 intoduced Py_SET_SIZE(), and it's preferred over using Py_SIZE() as an l-value.
-#if defined(Py_SET_SIZE)
-        Py_SET_SIZE(result, cSize);
-#else
-        Py_SIZE(result) = cSize;
-#endif // defined(Py_SET_SIZE)
+    if (ZSTD_isError(cSize))
+    {
+        PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
+        Py_CLEAR(result);
+        return NULL;
     }
+
+    _PyBytes_Resize(&result, cSize);
     return result;
 }
 
@@ -457,13 +461,17 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     {
     case ZSTD_CONTENTSIZE_UNKNOWN:
     case ZSTD_CONTENTSIZE_ERROR:
-    case 0:
         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
         return NULL;
 
     default:
         break;
     }
+    if (dest_size > PY_SSIZE_T_MAX - 4096)
+    {
+        PyErr_Format(PyExc_ValueError, "input data has invalid content size in frame header");
+        return NULL;
+    }
     result = PyBytes_FromStringAndSize(NULL, dest_size);
 
     if (result != NULL)
diff --git a/src/Compress.h b/src/Compress.h
index d09fdb9..1f08c0a 100644
--- a/src/Compress.h
+++ b/src/Compress.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "RipTide.h"
+#include <atomic>
 
 /*-=====  Pre-defined compression levels  =====-*/
 #ifndef ZSTD_CLEVEL_DEFAULT
@@ -75,6 +76,9 @@ struct COMPRESS_NUMPY_TO_NUMPY
     int16_t compType;
     int32_t compLevel;
 
+    // zstd error of any array
+    std::atomic<size_t> firstError;
+
     // Per core allocations
     void * pCoreMemory[64];
 
-- 
2.43.0


From 739c27e9f89fff0fd8ba4af52b8a0187e62023f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 51/55] fix: the recycler only reuses arrays that equal a newly
 allocated one

---
 src/Recycler.cpp | 76 +++++++++++++++++++++++++++++++++---------------
 src/Sort.cpp     | 11 ++-----
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..d4f1f04 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -433,7 +433,7 @@ int64_t GarbageCollect(int64_t timespan, bool force)
     gLastGarbageCollectTSC = currentTSC;
 
     // multiply by a billion (1GHZ) because timespan is a user value
-    timespan = timespan * NANO_BILLION;
+    timespan = timespan > INT64_MAX / NANO_BILLION ? INT64_MAX : timespan < 0 ? -1 : timespan * NANO_BILLION;
 
     gGarbageCollecting++;
     gRecursion++;
@@ -523,12 +523,29 @@ PyObject * RecycleDump(PyObject * self, PyObject * args)
     return PyLong_FromLongLong(totalSize);
 }
 
+//-----------------------------------
+// Only plain one dimensional arrays can stand in for a newly allocated one:
+// owned, writeable, contiguous and of a builtin type (no other byte order, fields or metadata)
+static bool IsRecyclable(PyArrayObject * inArr)
+{
+    const int flags = NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS;
+    const int32_t type = PyArray_TYPE(inArr);
+
+    if ((PyArray_FLAGS(inArr) & flags) != flags || PyArray_NDIM(inArr) != 1 || type < 0 || type >= RECYCLE_MAXIMUM_TYPE)
+        return false;
+
+    PyArray_Descr * builtin = PyArray_DescrFromType(type);
+    const bool same = PyArray_DESCR(inArr) == builtin;
+    Py_XDECREF(builtin);
+    return same;
+}
+
 //-----------------------------------
 // Called when we look for recycled array
 // Scans the tables to see if a recycled array is available
 PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
 {
-    if (totalSize >= RECYCLE_MIN_SIZE && type < RECYCLE_MAXIMUM_TYPE && ndim == 1)
+    if (totalSize >= RECYCLE_MIN_SIZE && type >= 0 && type < RECYCLE_MAXIMUM_TYPE && ndim == 1)
     {
         // cache the name
         static PyObject * g_namestring = PyUnicode_FromString("_name");
@@ -548,7 +565,8 @@ PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
                 int64_t refCount = inArr->ob_base.ob_refcnt;
 
                 // If the refcnt is one, it must be just us holding on to it
-                if (refCount == 1)
+                // (someone may have held it for a while and changed it in place)
+                if (refCount == 1 && IsRecyclable(inArr) && PyArray_TYPE(inArr) == type && ArrayLength(inArr) == totalSize)
                 {
                     // We will reuse this item so we do not decrement it here
                     RemoveFromList(pItems, i);
@@ -556,8 +574,8 @@ PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
 
                     LOGRECYCLE("Found recycled item %llu  %d %p %p\n", totalSize, type, inArr, PyArray_BYTES(inArr));
                     // have to clear the name
-                    Py_INCREF(Py_None);
-                    PyObject_SetAttr((PyObject *)inArr, g_namestring, Py_None);
+                    if (PyObject_SetAttr((PyObject *)inArr, g_namestring, Py_None) < 0)
+                        PyErr_Clear();
                     return inArr;
                 }
                 else
@@ -614,17 +632,15 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         return false;
     }
 
-    int flags = PyArray_FLAGS(inArr);
-    LOGRECYCLE("del numpy array flags %d, refCount %lld\n", flags, refCount);
+    LOGRECYCLE("del numpy array flags %d, refCount %lld\n", PyArray_FLAGS(inArr), refCount);
 
     // Check writeable flag on BASE array
     // Cannot recycle readonly (not writeable) or (not owned)
-    if ((flags & (NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS)) !=
-        (NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS))
+    if (! IsRecyclable(inArr))
     {
         LOGRECYCLE(
             "Rejected recycling because object is not writeable or owned or "
-            "contiguous.\n");
+            "contiguous, or not one dimensional of a builtin type.\n");
         return false;
     }
 
@@ -893,6 +909,9 @@ PyObject * TryRecycleNumpy(PyObject * self, PyObject * args)
             PyObject * item = PyList_GetItem(tuple, i);
             // Py_DecRef(item);
 
+            if (! PyArray_Check(item))
+                continue;
+
             PyArrayObject * inArr = (PyArrayObject *)item;
 
             int ndim = PyArray_NDIM(inArr);
@@ -934,6 +953,16 @@ PyObject * RecycleSetGarbageCollectTimeout(PyObject * self, PyObject * args)
     return PyLong_FromLongLong(previousTimespan);
 }
 
+static void SetDictCount(PyObject * pDict, const char * name, int64_t count)
+{
+    PyObject * value = PyLong_FromLongLong(count);
+    if (value)
+    {
+        PyDict_SetItemString(pDict, name, value);
+        Py_DECREF(value);
+    }
+}
+
 //-----------------------------------------------------------------------------------------
 // Arg1: input cycle count to delete -- goes by GHZ or cycles
 //       input the number 2 or 3 is roughly equivalent to 1 second
@@ -949,27 +978,28 @@ PyObject * RecycleGarbageCollectNow(PyObject * self, PyObject * args)
         return NULL;
 
     PyObject * pDict = PyDict_New();
+    if (! pDict)
+        return NULL;
 
-    PyDict_SetItemString(pDict, "Hits", (PyObject *)PyLong_FromLongLong((long long)(g_FoundRecycled)));
-    PyDict_SetItemString(pDict, "Misses", (PyObject *)PyLong_FromLongLong((long long)(g_DidNotFindRecycled)));
-    PyDict_SetItemString(pDict, "Heads", (PyObject *)PyLong_FromLongLong((long long)(g_TotalHeads)));
-    PyDict_SetItemString(pDict, "Tails", (PyObject *)PyLong_FromLongLong((long long)(g_TotalTails)));
-    PyDict_SetItemString(pDict, "BitSz", (PyObject *)PyLong_FromLongLong((g_CurrentAllocBitSize)));
-    PyDict_SetItemString(pDict, "HashSz", (PyObject *)PyLong_FromLongLong((g_CurrentAllocHashTable)));
+    SetDictCount(pDict, "Hits", g_FoundRecycled);
+    SetDictCount(pDict, "Misses", g_DidNotFindRecycled);
+    SetDictCount(pDict, "Heads", g_TotalHeads);
+    SetDictCount(pDict, "Tails", g_TotalTails);
+    SetDictCount(pDict, "BitSz", g_CurrentAllocBitSize);
+    SetDictCount(pDict, "HashSz", g_CurrentAllocHashTable);
 
-    PyDict_SetItemString(pDict, "Alloc", (PyObject *)PyLong_FromLongLong((long long)(g_TotalAllocs)));
-    PyDict_SetItemString(pDict, "Free", (PyObject *)PyLong_FromLongLong((long long)(g_TotalFree)));
-    PyDict_SetItemString(pDict, "AllocSz", (PyObject *)PyLong_FromLongLong((long long)(g_TotalMemoryAllocated)));
-    PyDict_SetItemString(pDict, "FreeSz", (PyObject *)PyLong_FromLongLong((long long)(g_TotalMemoryFreed)));
-    PyDict_SetItemString(pDict, "Delta",
-                         (PyObject *)PyLong_FromLongLong((long long)g_TotalMemoryAllocated - (long long)g_TotalMemoryFreed));
+    SetDictCount(pDict, "Alloc", g_TotalAllocs);
+    SetDictCount(pDict, "Free", g_TotalFree);
+    SetDictCount(pDict, "AllocSz", g_TotalMemoryAllocated);
+    SetDictCount(pDict, "FreeSz", g_TotalMemoryFreed);
+    SetDictCount(pDict, "Delta", g_TotalMemoryAllocated - g_TotalMemoryFreed);
 
     FreeWorkSpaceAllocLarge(g_pHashTableAny);
     FreeWorkSpaceAllocSmall(g_pBitFields);
 
     int64_t totalDeleted = GarbageCollect(timespan, true);
 
-    PyDict_SetItemString(pDict, "TotalDeleted", (PyObject *)PyLong_FromLongLong(totalDeleted));
+    SetDictCount(pDict, "TotalDeleted", totalDeleted);
     // return PyLong_FromLongLong(totalDeleted);
     return pDict;
 }
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 60f6685..37cb164 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3964,14 +3964,9 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     {
         // Release/recycle any of the arrays which _were_ successfully allocated so
         // they're not leaked.
-        if (keys)
-        {
-            RecycleNumpyInternal(keys);
-        }
-        if (first)
-        {
-            RecycleNumpyInternal(first);
-        }
+        Py_XDECREF(keys);
+        Py_XDECREF(first);
+        Py_XDECREF(count);
 
         return PyErr_Format(PyExc_MemoryError, "GroupFromLexSort out of memory length %lld", indexLength);
     }
-- 
2.43.0


From 5456e1d2afb458f33716b2deeac521c221bfb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 52/55] fix: logging loses no message and always starts and
 stops

cancel and shutdown flags were set outside the locks that waiters check them
under, so disabling could wait for the flush interval or lose the last message;
enabling during disabling ended the process, and logging that was left on could
crash it at exit. An error in a log sink stayed pending for the next message,
and time stamps were cut to 32 bits.
---
 src/Logger.cpp                | 125 +++++++++++++++++++++++++++-------
 src/logging/logging_service.h |  38 ++++++++---
 src/logging/timer.h           |  37 ++++++----
 src/logging/waiting_deque.h   |   7 +-
 4 files changed, 160 insertions(+), 47 deletions(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 237a6d1..8f9bdd2 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -5,8 +5,13 @@
 #include <thread>
 #include <vector>
 #include <chrono>
+#include <mutex>
 #include <queue>
 
+#if defined(__GLIBCXX__)
+    #include <cxxabi.h>
+#endif
+
 namespace
 {
     PyObject * logging_lib = NULL;
@@ -15,6 +20,10 @@ namespace
     using log_record = riptide::logging::log_record;
     using loglevel = riptide::logging::loglevel;
 
+    // Held while logging is being enabled or disabled. Wait for it only without the GIL: the handler thread, which
+    // disabling waits for, needs the GIL.
+    std::mutex lifecycle;
+
     std::unordered_map<std::string, PyObject *> sinks;
     std::optional<PyObject *> exception_callback;
     std::optional<std::string> exception_message;
@@ -23,12 +32,12 @@ namespace
     {
         for (const auto & [name, sink] : sinks)
         {
-            auto level_attr = PyObject_GetAttrString(sink, "level");
-            if (! PyLong_Check(level_attr))
+            auto level_attr = sink ? PyObject_GetAttrString(sink, "level") : nullptr;
+            if (! level_attr or ! PyLong_Check(level_attr))
             {
+                PyErr_Clear();
                 Py_XDECREF(level_attr);
                 continue;
-                ;
             }
 
             int32_t level = PyLong_AsLong(level_attr);
@@ -57,6 +66,8 @@ namespace
             if (exception_callback)
             {
                 auto res{ PyObject_CallFunction(exception_callback.value(), "s", msg) };
+                if (! res)
+                    PyErr_WriteUnraisable(exception_callback.value());
                 Py_XDECREF(res);
             }
             PyGILState_Release(state);
@@ -77,7 +88,8 @@ namespace
                 };
 
                 auto batch_size{ service->batch_size() };
-                while (batch.size() < batch_size and diff(last_sent) < service->interval())
+                // receive at least once, or nothing is ever delivered when sending takes longer than the interval
+                do
                 {
                     // if there is no log, then this thread will sleep here.
                     auto curr_log{ service->receive() };
@@ -87,6 +99,7 @@ namespace
 
                     batch.push_back(std::move(curr_log.value()));
                 }
+                while (batch.size() < batch_size and diff(last_sent) < service->interval());
                 last_sent = std::chrono::steady_clock::now();
 
                 // if py is finalizing, we can't call the log function.
@@ -102,9 +115,12 @@ namespace
                 {
                     auto sink{ sinks[msg.name] };
 
-                    auto log_method{ PyObject_GetAttrString(sink, "log") };
+                    auto log_method{ sink ? PyObject_GetAttrString(sink, "log") : nullptr };
                     if (not log_method)
+                    {
+                        PyErr_Clear();
                         continue;
+                    }
 
                     auto source_loc{ msg.loc };
 
@@ -114,17 +130,22 @@ namespace
 
                     auto timestamp_ns{ msg.time.time_since_epoch().count() };
 
-                    auto extra{ Py_BuildValue("{s:O, s:I}", "source_info", source_info, "timestamp", timestamp_ns) };
+                    auto extra{ Py_BuildValue("{s:N, s:L}", "source_info", source_info, "timestamp",
+                                              static_cast<long long>(timestamp_ns)) };
 
                     auto args{ Py_BuildValue("(iN)", static_cast<int>(msg.level),
                                              PyUnicode_Decode(msg.message.c_str(), msg.message.size(), NULL, "replace")) };
-                    auto kwargs{ Py_BuildValue("{s:O}", "extra", extra) };
+                    auto kwargs{ Py_BuildValue("{s:N}", "extra", extra) };
 
-                    if (args and kwargs)
-                    {
-                        auto res{ PyObject_Call(log_method, args, kwargs) };
-                        Py_XDECREF(res);
-                    }
+                    auto res{ args and kwargs ? PyObject_Call(log_method, args, kwargs) : nullptr };
+
+                    // an error in one message must not be pending while the next one is sent
+                    if (not res)
+                        PyErr_WriteUnraisable(log_method);
+
+                    Py_XDECREF(res);
+                    Py_XDECREF(kwargs);
+                    Py_XDECREF(args);
                     Py_DECREF(log_method);
                 }
 
@@ -132,6 +153,13 @@ namespace
                 PyGILState_Release(state);
             }
         }
+#if defined(__GLIBCXX__)
+        catch (const abi::__forced_unwind &)
+        {
+            // the interpreter ends threads that ask for the GIL after it shut down
+            throw;
+        }
+#endif
         catch (const std::exception & ex)
         {
             handle_exception_message(ex.what());
@@ -143,8 +171,40 @@ namespace
     }
 }
 
+// Python is asked to call this before it finalizes: the handler thread must not want the GIL afterwards.
+static PyObject * StopLogging(PyObject * self, PyObject * args)
+{
+    Py_BEGIN_ALLOW_THREADS;
+    std::lock_guard<std::mutex> guard{ lifecycle };
+    service->disable();
+    Py_END_ALLOW_THREADS;
+    Py_RETURN_NONE;
+}
+
+static void RegisterStopLogging()
+{
+    static PyMethodDef method{ "_stop_logging", StopLogging, METH_NOARGS, nullptr };
+    static bool registered = false;
+    if (registered)
+        return;
+
+    auto atexit_lib{ PyImport_ImportModule("atexit") };
+    auto stop{ atexit_lib ? PyCFunction_New(&method, nullptr) : nullptr };
+    auto res{ stop ? PyObject_CallMethod(atexit_lib, "register", "O", stop) : nullptr };
+    if (res)
+        registered = true;
+    else
+        PyErr_Clear();
+
+    Py_XDECREF(res);
+    Py_XDECREF(stop);
+    Py_XDECREF(atexit_lib);
+}
+
 void SetupLogging()
 {
+    RegisterStopLogging();
+
     // these ref should stay alive during the entire lifetime of the module.
     logging_lib = PyImport_ImportModule("logging");
 
@@ -165,7 +225,12 @@ void CleanupLogging()
 
 PyObject * EnableLogging(PyObject * self, PyObject * args)
 {
-    if (service->active())
+    std::unique_lock<std::mutex> guard{ lifecycle, std::defer_lock };
+    Py_BEGIN_ALLOW_THREADS;
+    guard.lock();
+    Py_END_ALLOW_THREADS;
+
+    if (service->enabled())
     {
         Py_INCREF(Py_None);
         return Py_None;
@@ -184,14 +249,27 @@ PyObject * EnableLogging(PyObject * self, PyObject * args)
 
     // reset previous exception or callbacks
     exception_message = std::nullopt;
+    if (exception_callback)
+        Py_DECREF(exception_callback.value());
     exception_callback = std::nullopt;
 
     if (PyFunction_Check(callback))
+    {
+        Py_INCREF(callback);
         exception_callback = callback;
+    }
 
-    service->enable({ .batch_size = bsize, .flush_interval = std::chrono::milliseconds(interval), .max_size = msize });
-    UpdateLogLevel();
-    service->set_handler(LoggingHandler);
+    try
+    {
+        service->enable({ .batch_size = bsize, .flush_interval = std::chrono::milliseconds(interval), .max_size = msize });
+        UpdateLogLevel();
+        service->set_handler(LoggingHandler);
+    }
+    catch (const std::exception & ex)
+    {
+        service->disable();
+        return PyErr_Format(PyExc_RuntimeError, "Could not start logging: %s", ex.what());
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -210,22 +288,21 @@ PyObject * GetRiptideLoggers(PyObject * self, PyObject * args)
 
 PyObject * DisableLogging(PyObject * self, PyObject * args)
 {
-    if (! service->active())
-    {
-        Py_INCREF(Py_None);
-        return Py_None;
-    }
-
+    const bool active = service->active();
     int64_t timeout = 0;
-    if (! PyArg_ParseTuple(args, "l", &timeout))
+    if (active && ! PyArg_ParseTuple(args, "l", &timeout))
     {
         PyErr_Format(PyExc_ValueError, "Invalid arguments passed");
         return NULL;
     }
 
+    // When another thread is disabling already, wait until it is done.
     Py_BEGIN_ALLOW_THREADS;
+    std::lock_guard<std::mutex> guard{ lifecycle };
 
-    if (timeout != -1)
+    if (! active)
+        ;
+    else if (timeout != -1)
         service->disable(std::chrono::milliseconds(timeout));
     else
         service->disable();
diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index 8128974..b866dd9 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -89,7 +89,8 @@ namespace riptide::logging
 
         bool active() noexcept
         {
-            return ! logs_.empty() or ! shutdown_;
+            // In this order: a message logged before shutdown() must be seen by a thread that sees the shutdown.
+            return ! shutdown_ or ! logs_.empty();
         }
 
         bool enabled() noexcept
@@ -112,19 +113,27 @@ namespace riptide::logging
             if (not shutdown_)
                 return;
 
-            shutdown_ = false;
             interval_ = config.flush_interval;
             batch_size_ = config.batch_size;
             max_size_ = config.max_size;
 
             logs_.set_max_size(max_size_);
+            shutdown_ = false;
 
-            flusher_.set_interval(
-                [this]
-                {
-                    wakeup();
-                },
-                interval_);
+            try
+            {
+                flusher_.set_interval(
+                    [this]
+                    {
+                        wakeup();
+                    },
+                    interval_);
+            }
+            catch (...)
+            {
+                shutdown();
+                throw;
+            }
         }
 
         void disable(const std::optional<std::chrono::milliseconds> timeout = std::nullopt)
@@ -143,8 +152,17 @@ namespace riptide::logging
                 }
                 else
                 {
-                    auto future = std::async(std::launch::async, &std::thread::join, &handler_);
-                    if (future.wait_for(timeout.value()) == std::future_status::timeout)
+                    std::future<void> future;
+                    try
+                    {
+                        future = std::async(std::launch::async, &std::thread::join, &handler_);
+                    }
+                    catch (const std::system_error &)
+                    {
+                        // no thread to wait with, so wait here without a timeout
+                        handler_.join();
+                    }
+                    if (future.valid() and future.wait_for(timeout.value()) == std::future_status::timeout)
                     {
                         // if couldn't join within timeout, force thread to drop all current logs and force join
                         logs_.clear();
diff --git a/src/logging/timer.h b/src/logging/timer.h
index 6e29ab6..de27b02 100644
--- a/src/logging/timer.h
+++ b/src/logging/timer.h
@@ -20,10 +20,13 @@ namespace riptide::logging::details
         template <typename Function>
         void set_interval(Function function, const interval delay)
         {
-            if (active_)
-                return;
+            {
+                std::lock_guard guard{ lock_ };
+                if (active_)
+                    return;
+                active_ = true;
+            }
 
-            active_ = true;
             static_assert(! std::is_move_constructible_v<timer>, "Can't be movable because enclosing thread captures by ref");
             static_assert(! std::is_move_assignable_v<timer>, "Can't be movable because enclosing thread captures by ref");
             static_assert(! std::is_copy_constructible_v<timer>, "Can't be copyable because enclosing thread captures by ref");
@@ -31,30 +34,40 @@ namespace riptide::logging::details
 
             auto run = [=, this]()
             {
-                while (active_)
+                while (true)
                 {
                     {
                         std::unique_lock lk{ lock_ };
-                        wake_.wait_for(lk, delay);
+                        if (wake_.wait_for(lk, delay,
+                                           [this]
+                                           {
+                                               return ! active_;
+                                           }))
+                            return;
                     }
 
-                    if (! active_)
-                        return;
-
                     function();
                 }
             };
 
-            runner_ = std::move(std::thread{ run });
+            try
+            {
+                runner_ = std::thread{ run };
+            }
+            catch (...)
+            {
+                std::lock_guard guard{ lock_ };
+                active_ = false;
+                throw;
+            }
         }
 
         void cancel()
         {
-            if (! active_)
-                return;
-
             {
                 std::lock_guard guard{ lock_ };
+                if (! active_)
+                    return;
                 active_ = false;
             }
             wake_.notify_all();
diff --git a/src/logging/waiting_deque.h b/src/logging/waiting_deque.h
index 128f2cc..93b5bd8 100644
--- a/src/logging/waiting_deque.h
+++ b/src/logging/waiting_deque.h
@@ -57,12 +57,17 @@ namespace riptide::logging::details
 
         void cancel_wait() noexcept
         {
-            wait_ = false;
+            {
+                // Under the lock, so a waiter cannot miss this between its check and its wait.
+                std::lock_guard guard{ lock_ };
+                wait_ = false;
+            }
             notify_.notify_one();
         }
 
         void set_max_size(const uint32_t size) noexcept
         {
+            std::lock_guard guard{ lock_ };
             max_size_ = size;
         }
 
-- 
2.43.0


From 9600da8ae3e4297321e34a08bd39ecc4853ae3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 53/55] fix: raise MemoryError when memory runs out, in place
 of crashes and wrong results

Methods that could not allocate went on with a null pointer, returned None, or returned
arrays that were never filled. Allocations that fail are counted, and the call that made
them raises; the hash tables and the workspaces of the calling thread throw std::bad_alloc,
which every method turns into a MemoryError, and worker threads return early.
---
 src/BasicMath.cpp     |  22 ++--
 src/Bins.cpp          |  12 +-
 src/CommonInc.h       |  31 ++++-
 src/Convert.cpp       |  10 +-
 src/DateTime.cpp      |  14 +-
 src/Ema.cpp           |  64 ++++++++-
 src/GroupBy.cpp       |  34 ++++-
 src/HashFunctions.cpp |  25 +++-
 src/HashLinear.cpp    | 119 ++++++++++++++---
 src/MathWorker.h      |   2 +-
 src/Merge.cpp         |   4 +-
 src/MultiKey.cpp      |  60 +++++----
 src/Recycler.cpp      |   3 +
 src/Reduce.cpp        |  12 +-
 src/RipTide.cpp       | 298 ++++++++++++++++++++++++++----------------
 src/SDSFile.cpp       |   5 +
 src/SDSFilePython.cpp |  24 ++--
 src/Sort.cpp          |  39 ++++--
 src/TileRepeat.cpp    |   2 +-
 src/TimeWindow.cpp    |   3 +-
 src/one_input.cpp     |  12 +-
 21 files changed, 556 insertions(+), 239 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 254bf6e..15af816 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3491,8 +3491,7 @@ PyObject * TwoInputsInternal(CTwoInputs & twoInputs, int64_t funcNumber)
 
     LOGGING("BasicMath punting inner loop\n");
     // punt to numpy
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //----------------------------------------------------------------------------------
@@ -3539,8 +3538,7 @@ PyObject * BasicMathTwoInputs(PyObject * self, PyObject * args)
     }
 
     // punt to numpy
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //-----------------------------------------------------------------------------------
@@ -3560,8 +3558,7 @@ PyObject * BasicMathTwoInputsFromNumber(PyObject * input1, PyObject * input2, Py
     }
 
     // punt to numpy
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 // MT callback
@@ -3903,8 +3900,11 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
                 {
-                    // These are small allocs that should never fail
                     extraAlloc1 = (char *)malloc(numpyItemSize);
+                    if (! extraAlloc1)
+                    {
+                        throw std::bad_alloc();
+                    }
                     memset(extraAlloc1, 0, numpyItemSize);
                     memcpy(extraAlloc1, pInput1, itemSize1);
 
@@ -3914,6 +3914,11 @@ PyObject * Where(PyObject * self, PyObject * args)
                 if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
                 {
                     extraAlloc2 = (char *)malloc(numpyItemSize);
+                    if (! extraAlloc2)
+                    {
+                        free(extraAlloc1);
+                        throw std::bad_alloc();
+                    }
                     memset(extraAlloc2, 0, numpyItemSize);
                     memcpy(extraAlloc2, pInput2, itemSize2);
                     pInput2 = extraAlloc2;
@@ -3979,6 +3984,5 @@ PyObject * Where(PyObject * self, PyObject * args)
     }
 
     // punt to numpy
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
diff --git a/src/Bins.cpp b/src/Bins.cpp
index a5453f5..87e7671 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -217,8 +217,7 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
                      "ReIndex: Must pass in at least two params, "
                      "first param is the indexer");
     }
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //=================================================================================================================
@@ -328,8 +327,7 @@ PyObject * ReMapIndex(PyObject * self, PyObject * args)
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //=================================================================================================================
@@ -510,8 +508,7 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
                      "param is the value array");
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //=================================================================================================
@@ -820,8 +817,7 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //=================================================================================================
diff --git a/src/CommonInc.h b/src/CommonInc.h
index 22223af..45173d3 100644
--- a/src/CommonInc.h
+++ b/src/CommonInc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include <atomic>
 #include <cstdlib>
 #include <cstdint>
 #include <cstring>
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <new>
 
 #include "Defs.h"
 
@@ -127,8 +129,24 @@ RT_FORCEINLINE void * aligned_alloc(size_t alignment, size_t size)
         LogError("!!!Out of MEMORY: File: %s  Line: %d  Function: %s\n", __FILE__, (int)__LINE__, __FUNCTION__);
 
 void * FmAlloc(size_t _Size);
+
 void FmFree(void * _Block);
 
+// Counts the allocations that failed; the method being called then raises a MemoryError.
+extern std::atomic<uint64_t> g_FailedAllocs;
+
+// Same as FmAlloc, for the thread that called the method: throws when there is no memory.
+// Worker threads check for NULL and return, the allocation that failed was counted.
+inline void * FmAllocOrThrow(size_t size)
+{
+    void * const block = FmAlloc(size);
+    if (! block)
+    {
+        throw std::bad_alloc();
+    }
+    return block;
+}
+
 namespace internal
 {
     struct fm_mem_deleter
@@ -147,6 +165,7 @@ using fm_mem_ptr = std::unique_ptr<void, internal::fm_mem_deleter>;
 #define ARRAY_FREE free
 
 #define WORKSPACE_ALLOC FmAlloc
+#define WORKSPACE_ALLOC_OR_THROW FmAllocOrThrow
 #define WORKSPACE_FREE FmFree
 using workspace_mem_ptr = fm_mem_ptr;
 
@@ -430,10 +449,16 @@ struct FUNCTION_LIST
 #define FUTEX_WAKE_DEFAULT 11
 #define FUTEX_WAKE_MAX 31
 
-// Macro stub for returning None
+// Macro stub for returning None, or NULL when an error is set (an allocation failed, for instance)
 #define RETURN_NONE \
-    Py_INCREF(Py_None); \
-    return Py_None;
+    do \
+    { \
+        if (PyErr_Occurred()) \
+            return NULL; \
+        Py_INCREF(Py_None); \
+        return Py_None; \
+    } \
+    while (0)
 #define STRIDE_NEXT(_TYPE_, _MEM_, _STRIDE_) (_TYPE_ *)((char *)_MEM_ + _STRIDE_)
 
 #define LOGGING(...)
diff --git a/src/Convert.cpp b/src/Convert.cpp
index 2e6f490..5a2369d 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1946,7 +1946,7 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
 
                 if (bWantCount)
                 {
-                    pWorkSpace = WORKSPACE_ALLOC(sizeToAlloc);
+                    pWorkSpace = WORKSPACE_ALLOC_OR_THROW(sizeToAlloc);
                     memset(pWorkSpace, 0, sizeToAlloc);
                 }
 
@@ -2080,6 +2080,10 @@ int64_t Combine1Filter(void * pInputIndex,
     int64_t allocSize = hashLength * sizeof(int32_t);
 
     int32_t * pHash = (int32_t *)WorkSpaceAllocLarge(allocSize);
+    if (! pHash)
+    {
+        throw std::bad_alloc();
+    }
     memset(pHash, 0, allocSize);
 
     int32_t uniquecount = 0;
@@ -2878,7 +2882,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
                 CONVERT_SAFE_STRING ConvertSafeString;
             };
 
-            stHSTACK_STRING * pHStack = (stHSTACK_STRING *)WORKSPACE_ALLOC(sizeof(stHSTACK_STRING) * tupleSize);
+            stHSTACK_STRING * pHStack = (stHSTACK_STRING *)WORKSPACE_ALLOC_OR_THROW(sizeof(stHSTACK_STRING) * tupleSize);
             // calculate total size and get conversion function for each row
             for (int t = 0; t < tupleSize; t++)
             {
@@ -2963,7 +2967,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
                 CONVERT_SAFE ConvertSafe;
             };
 
-            stHSTACK * pHStack = (stHSTACK *)WORKSPACE_ALLOC(sizeof(stHSTACK) * tupleSize);
+            stHSTACK * pHStack = (stHSTACK *)WORKSPACE_ALLOC_OR_THROW(sizeof(stHSTACK) * tupleSize);
 
             // calculate total size and get conversion function for each row
             for (int t = 0; t < tupleSize; t++)
diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..718cc92 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -530,8 +530,7 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //--------------------------------------------------------------
@@ -593,8 +592,7 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //--------------------------------------------------------------
@@ -656,8 +654,7 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //---------------------------------------
@@ -669,7 +666,7 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
 {
     tm timeBack;
 
-    char * pTempString = (char *)WORKSPACE_ALLOC(itemSize + 8);
+    char * pTempString = (char *)WORKSPACE_ALLOC_OR_THROW(itemSize + 8);
     const char * pEnd = pTempString + itemSize;
 
     for (int64_t i = 0; i < arrayLength; i++)
@@ -785,6 +782,5 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 };
diff --git a/src/Ema.cpp b/src/Ema.cpp
index caed601..e36f70a 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -309,6 +309,12 @@ public:
             // Only need O(window) extra space
             QElement * all_elements = (QElement *)WORKSPACE_ALLOC(windowSize * sizeof(QElement));
             QElement ** all_element_pointers = (QElement **)WORKSPACE_ALLOC(windowSize * sizeof(QElement *));
+            if (! all_elements || ! all_element_pointers)
+            {
+                WORKSPACE_FREE(all_elements);
+                WORKSPACE_FREE(all_element_pointers);
+                return;
+            }
 
             // max_heap_size is (floor((windowSize - 1) * quantile) + 1), but need to handle some precision issues
             size_t max_heap_size = RollingQuantile::IntegralIndex(windowSize, quantile) + 1;
@@ -806,6 +812,10 @@ static void CumSum(void * pKeyT, void * pAccumBin, void * pColumn, int64_t numUn
     // Alloc a workspace
     int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
     U * pWorkSpace = (U *)WORKSPACE_ALLOC(size);
+    if (! pWorkSpace)
+    {
+        return;
+    }
 
     // Default every bin to 0, including floats
     memset(pWorkSpace, 0, size);
@@ -927,6 +937,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
     int64_t const numBins = (numUnique + GB_BASE_INDEX);
     int64_t const size = numBins * sizeof(T);
     T * const pWorkSpace = (T *)WORKSPACE_ALLOC(size);
+    if (! pWorkSpace)
+    {
+        return;
+    }
 
     // Default every bin to Invalid, including floats
     for (ptrdiff_t j = 0; j < numBins; j++)
@@ -1095,6 +1109,12 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
 
     int64_t const flag_size = numBins * sizeof(bool);
     bool * const pWorkSpaceDataSeen = (bool *)WORKSPACE_ALLOC(flag_size);
+    if (! pWorkSpace || ! pWorkSpaceDataSeen)
+    {
+        WORKSPACE_FREE(pWorkSpace);
+        WORKSPACE_FREE(pWorkSpaceDataSeen);
+        return;
+    }
 
     // Default every bin to Invalid, including floats
     for (ptrdiff_t j = 0; j < numBins; j++)
@@ -1268,6 +1288,10 @@ static void CumProd(void * pKeyT, void * pAccumBin, void * pColumn, int64_t numU
     // Alloc a workspace
     int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
     U * pWorkSpace = (U *)WORKSPACE_ALLOC(size);
+    if (! pWorkSpace)
+    {
+        return;
+    }
 
     // Default every bin to 1, including floats
     for (ptrdiff_t i = 0; i < (numUnique + GB_BASE_INDEX); i++)
@@ -1390,6 +1414,10 @@ static void FindNth(void * pKeyT, void * pAccumBin, void * pColumn, int64_t numU
     // Alloc a workspace
     int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
     U * pWorkSpace = (U *)WORKSPACE_ALLOC(size);
+    if (! pWorkSpace)
+    {
+        return;
+    }
 
     memset(pWorkSpace, 0, size);
 
@@ -1471,18 +1499,33 @@ public:
 
         int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
         U * pLastEma = (U *)WORKSPACE_ALLOC(size);
+        if (! pLastEma)
+        {
+            return;
+        }
 
         // Default every bin to 0, including floats
         memset(pLastEma, 0, size);
 
         size = (numUnique + GB_BASE_INDEX) * sizeof(V);
         V * pLastTime = (V *)WORKSPACE_ALLOC(size);
+        if (! pLastTime)
+        {
+            WORKSPACE_FREE(pLastEma);
+            return;
+        }
 
         // Default every LastTime bin to 0, including floats
         memset(pLastTime, 0, size);
 
         size = (numUnique + GB_BASE_INDEX) * sizeof(T);
         T * pLastValue = (T *)WORKSPACE_ALLOC(size);
+        if (! pLastValue)
+        {
+            WORKSPACE_FREE(pLastEma);
+            WORKSPACE_FREE(pLastTime);
+            return;
+        }
 
         // Default every LastValue bin to 0, including floats
         memset(pLastValue, 0, size);
@@ -1664,6 +1707,10 @@ public:
 
         int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
         U * pLastEma = (U *)WORKSPACE_ALLOC(size);
+        if (! pLastEma)
+        {
+            return;
+        }
 
         // Default every bin to 0, including floats
         // memset(pLastEma, 0, size);
@@ -1679,9 +1726,20 @@ public:
         //-----------------------------
         size = (numUnique + GB_BASE_INDEX) * sizeof(V);
         V * pLastTime = (V *)WORKSPACE_ALLOC(size);
+        if (! pLastTime)
+        {
+            WORKSPACE_FREE(pLastEma);
+            return;
+        }
 
         size = (numUnique + GB_BASE_INDEX) * sizeof(T);
         T * pLastValue = (T *)WORKSPACE_ALLOC(size);
+        if (! pLastValue)
+        {
+            WORKSPACE_FREE(pLastEma);
+            WORKSPACE_FREE(pLastTime);
+            return;
+        }
 
         // Default every LastValue bin to 0, including floats
         memset(pLastValue, 0, size);
@@ -1859,6 +1917,10 @@ public:
 
         int64_t size = (numUnique + GB_BASE_INDEX) * sizeof(U);
         U * pLastEma = (U *)WORKSPACE_ALLOC(size);
+        if (! pLastEma)
+        {
+            return;
+        }
 
         // Default every bin to 0, including floats
         // memset(pLastEma, 0, size);
@@ -2519,7 +2581,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
     // being produced
-    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC((sizeof(stEma32) + 8 + sizeof(stEmaReturn)) * tupleSize);
+    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC_OR_THROW((sizeof(stEma32) + 8 + sizeof(stEmaReturn)) * tupleSize);
 
     pstEma32->aInfo = aInfo;
     pstEma32->funcNum = (int32_t)funcNum;
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 48c3feb..944403d 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -1020,6 +1020,10 @@ public:
 
         workspace_mem_ptr sumsquares_owner{ WORKSPACE_ALLOC(sizeof(TempType) * binHigh) };
         TempType * const sumsquares{ reinterpret_cast<TempType *>(sumsquares_owner.get()) };
+        if (! sumsquares)
+        {
+            return;
+        }
         memset(sumsquares, 0, sizeof(TempType) * binHigh);
 
         auto loop_body3 = [=](auto i)
@@ -1114,6 +1118,10 @@ public:
 
         workspace_mem_ptr sumsquares_owner{ WORKSPACE_ALLOC(sizeof(TempType) * binHigh) };
         TempType * const sumsquares{ reinterpret_cast<TempType *>(sumsquares_owner.get()) };
+        if (! sumsquares)
+        {
+            return;
+        }
         memset(sumsquares, 0, sizeof(TempType) * binHigh);
 
         auto loop_body3 = [=](auto i)
@@ -1714,6 +1722,10 @@ public:
 
             QElement * all_elements = (QElement *)all_elements_owner.get();
             QElement ** all_element_pointers = (QElement **)all_element_pointers_owner.get();
+            if (! all_elements || ! all_element_pointers)
+            {
+                return;
+            }
 
             // max_heap_size is (floor((windowSize - 1) * quantile) + 1), but need to handle some precision issues
             size_t max_heap_size = RollingQuantile::IntegralIndex(windowSize, quantile) + 1;
@@ -2042,6 +2054,10 @@ public:
         // Alloc worst case
         workspace_mem_ptr pSortOwner(WORKSPACE_ALLOC(totalInputRows * sizeof(T)));
         T * pSort = (T *)pSortOwner.get();
+        if (! pSort)
+        {
+            return;
+        }
 
         U const invalid{ riptide::invalid_for_type<U>::value };
 
@@ -2121,6 +2137,10 @@ public:
         // Alloc worst case
         workspace_mem_ptr pSortOwner(WORKSPACE_ALLOC(totalInputRows * sizeof(T)));
         T * pSort = (T *)pSortOwner.get();
+        if (! pSort)
+        {
+            return;
+        }
 
         U const invalid{ riptide::invalid_for_type<U>::value };
 
@@ -2225,6 +2245,10 @@ public:
         // Alloc
         workspace_mem_ptr pSortOwner(WORKSPACE_ALLOC(totalInputRows * sizeof(T)));
         T * pSort = (T *)pSortOwner.get();
+        if (! pSort)
+        {
+            return;
+        }
 
         logger->debug("Quantile {} {} {}  sizeof: {} {} {}", totalInputRows, binLow, binHigh, sizeof(T), sizeof(U), sizeof(V));
 
@@ -2334,6 +2358,10 @@ public:
         // Alloc
         workspace_mem_ptr pSortOwner(WORKSPACE_ALLOC(totalInputRows * sizeof(T)));
         T * pSort = (T *)pSortOwner.get();
+        if (! pSort)
+        {
+            return;
+        }
 
         logger->debug("AccumMedian {} {} {}  sizeof: {} {} {}", totalInputRows, binLow, binHigh, sizeof(T), sizeof(U), sizeof(V));
 
@@ -2590,7 +2618,7 @@ static void GatherMean(stGroupBy32 * pstGroupBy32, cache_aligned_buffer_array co
     U const invalid{ riptide::invalid_for_type<U>::value };
 
     int64_t allocSize = sizeof(W) * numUnique;
-    W * const pTotalCountOut = (W *)WORKSPACE_ALLOC(allocSize);
+    W * const pTotalCountOut = (W *)WORKSPACE_ALLOC_OR_THROW(allocSize);
     memset(pTotalCountOut, 0, allocSize);
 
     memset(pDataOut, 0, sizeof(U) * numUnique);
@@ -2652,7 +2680,7 @@ static void GatherNanMean(stGroupBy32 * pstGroupBy32, cache_aligned_buffer_array
     U * const pDataOut{ (U *)pDataOutT };
 
     int64_t allocSize = sizeof(W) * numUnique;
-    W * const pCountOut = (W *)WORKSPACE_ALLOC(allocSize);
+    W * const pCountOut = (W *)WORKSPACE_ALLOC_OR_THROW(allocSize);
     memset(pCountOut, 0, allocSize);
 
     memset(pDataOut, 0, sizeof(U) * numUnique);
@@ -5030,7 +5058,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         int64_t allocSize = (sizeof(stGroupBy32) + 8 + sizeof(stGroupByReturn)) * tupleSize;
         logger->debug("GroupByAllPack32 allocating {}", allocSize);
 
-        workspace_mem_ptr pstGroupBy32Owner((stGroupBy32 *)WORKSPACE_ALLOC(allocSize));
+        workspace_mem_ptr pstGroupBy32Owner((stGroupBy32 *)WORKSPACE_ALLOC_OR_THROW(allocSize));
         stGroupBy32 * pstGroupBy32 = (stGroupBy32 *)pstGroupBy32Owner.get();
 
         pstGroupBy32->aInfo = aInfo;
diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 34f889b..33c1f45 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -168,6 +168,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             if (arraySize1 < 2100000000)
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1 + 100,
                                                  HASH_MODE(hashMode), hintSize);
@@ -175,6 +179,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             else
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical64(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1 + 100,
                                                    HASH_MODE(hashMode), hintSize);
@@ -186,6 +194,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             if (arraySize1 < 2100000000)
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1,
                                                  HASH_MODE(hashMode), hintSize);
@@ -193,6 +205,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             else
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical64(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1,
                                                    HASH_MODE(hashMode), hintSize);
@@ -205,6 +221,11 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! indexArray)
+    {
+        return NULL;
+    }
+
     PyObject * retObject = Py_BuildValue("(LO)", missed, indexArray);
     Py_DECREF((PyObject *)indexArray);
     return (PyObject *)retObject;
@@ -429,8 +450,8 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
         unique2Length, baseoffset1, baseoffset2);
 
     // need to reindex this array...
-    int32_t * reIndexArray = (int32_t *)WORKSPACE_ALLOC(arraySizeUnique * sizeof(int32_t));
-    int32_t * reverseMapArray = (int32_t *)WORKSPACE_ALLOC(unique2Length * sizeof(int32_t));
+    int32_t * reIndexArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(arraySizeUnique * sizeof(int32_t));
+    int32_t * reverseMapArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(unique2Length * sizeof(int32_t));
 
     PyArrayObject * indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
     PyArrayObject * boolArray = AllocateLikeNumpyArray(inArr1, NPY_BOOL);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index a5ed86a..b353650 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -439,11 +439,14 @@ void CHashLinear<T, U>::AllocAndZeroBitFields(uint64_t hashSize)
 
     pBitFields = (uint64_t *)WorkSpaceAllocSmall(BitAllocSize);
 
-    if (pBitFields)
+    if (! pBitFields)
     {
-        // Fill with zeros to indicate no hash position is used yet
-        std::memset(pBitFields, 0, BitAllocSize);
+        CHECK_MEMORY_ERROR(NULL);
+        throw std::bad_alloc();
     }
+
+    // Fill with zeros to indicate no hash position is used yet
+    std::memset(pBitFields, 0, BitAllocSize);
 }
 
 //-----------------------------------------------
@@ -454,6 +457,14 @@ char * CHashLinear<T, U>::AllocHashTable(size_t allocSize)
     HashTableAllocSize = allocSize;
     pHashTableAny = WorkSpaceAllocLarge(HashTableAllocSize);
 
+    if (! pHashTableAny)
+    {
+        // memory fail
+        FreeMemory(true);
+        CHECK_MEMORY_ERROR(NULL);
+        throw std::bad_alloc();
+    }
+
     //// Do not zero it
     return (char *)pHashTableAny;
 }
@@ -792,7 +803,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
                               U * pLocationOutput, int64_t totalUniqueSize)
 {
     const U BAD_INDEX = (U)(1LL << (sizeof(U) * 8 - 1));
-    U * pLocation = (U *)WORKSPACE_ALLOC(totalUniqueSize * sizeof(U));
+    U * pLocation = (U *)WORKSPACE_ALLOC_OR_THROW(totalUniqueSize * sizeof(U));
 
     for (U k = 0; k < totalUniqueSize; k++)
     {
@@ -5379,6 +5390,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     if (size < 100)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT8);
+        if (! *indexArray)
+        {
+            return;
+        }
         int8_t * pDataOut2 = (int8_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int8_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                      pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5386,6 +5401,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else if (size < 30000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT16);
+        if (! *indexArray)
+        {
+            return;
+        }
         int16_t * pDataOut2 = (int16_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int16_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5393,6 +5412,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else if (size < 2000000000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+        if (! *indexArray)
+        {
+            return;
+        }
         int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int32_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5400,6 +5423,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+        if (! *indexArray)
+        {
+            return;
+        }
         int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int64_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5418,6 +5445,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     if (size2 < 100)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT8);
+        if (! *indexArray)
+        {
+            return 0;
+        }
         int8_t * pDataOut2 = (int8_t *)PyArray_BYTES(*indexArray);
         missed = IsMemberHashStringCategorical<int8_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
                                                        (const char *)pInput2, pDataOut2, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5425,6 +5456,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else if (size2 < 30000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT16);
+        if (! *indexArray)
+        {
+            return 0;
+        }
         int16_t * pDataOut2 = (int16_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int16_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5433,6 +5468,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else if (size2 < 2000000000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+        if (! *indexArray)
+        {
+            return 0;
+        }
         int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int32_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5441,6 +5480,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+        if (! *indexArray)
+        {
+            return 0;
+        }
         int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int64_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5868,6 +5911,11 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
                     IsMemberHashString32Pre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1, arraySize2,
                                             sizeType2, (const char *)pDataIn2, pDataOut1, HASH_MODE(hashMode), hintSize,
                                             arrayType1 == NPY_UNICODE);
+                    if (! indexArray)
+                    {
+                        Py_DECREF(boolArray);
+                        return NULL;
+                    }
                 }
                 else
                 {
@@ -5995,6 +6043,7 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             HASH_MODE HashMode;
             int64_t HintSize;
             bool * pBoolFilter;
+            std::atomic<bool> OutOfMemory{ false };
         };
 
         // This is the routine that will be called back from multiple threads
@@ -6033,18 +6082,28 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             pInput1 += (partOffset * cb->TotalItemSize);
 
             // NOW HASH the data
-            pPartition->NumUnique = (int64_t)GroupByInternal<_Index>(
-                // These three are returned, they have to be deallocated
-                reinterpret_cast<void **>(&pPartition->pFirstArray), &pPartition->pHashTableAny, &pPartition->HashTableSize,
+            try
+            {
+                pPartition->NumUnique = (int64_t)GroupByInternal<_Index>(
+                    // These three are returned, they have to be deallocated
+                    reinterpret_cast<void **>(&pPartition->pFirstArray), &pPartition->pHashTableAny, &pPartition->HashTableSize,
 
-                partLength, cb->TotalItemSize, pInput1,
-                cb->CoreType, // set to -1 for unknown
-                pIndexArray, cb->HashMode, cb->HintSize, pBoolFilter);
+                    partLength, cb->TotalItemSize, pInput1,
+                    cb->CoreType, // set to -1 for unknown
+                    pIndexArray, cb->HashMode, cb->HintSize, pBoolFilter);
+            }
+            catch (const std::bad_alloc &)
+            {
+                // the calling thread throws again below
+                pPartition->pHashTableAny = nullptr;
+                pPartition->NumUnique = 0;
+                cb->OutOfMemory = true;
+            }
 
             return true;
         };
 
-        PARTITION_GB * pPartitions = (PARTITION_GB *)WORKSPACE_ALLOC(partitionLength * sizeof(PARTITION_GB));
+        PARTITION_GB * pPartitions = (PARTITION_GB *)WORKSPACE_ALLOC_OR_THROW(partitionLength * sizeof(PARTITION_GB));
 
         // TODO: Initialize the struct using different syntax so fields which aren't
         // meant to be modified can be marked 'const'.
@@ -6067,13 +6126,36 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
 
         g_cMathWorker->DoMultiThreadedWork(static_cast<int>(partitionLength), lambdaMKGBCallback, &stMKGBCallback);
 
+        // Returns the memory of the partitions
+        auto cleanUp = [&]
+        {
+            for (int i = 0; i < partitionLength; i++)
+            {
+                WorkSpaceFreeAllocLarge(pPartitions[i].pHashTableAny, pPartitions[i].HashTableSize);
+            }
+
+            // turn caching back on -----------------------------------------
+            g_cMathWorker->NoCaching = false;
+
+            WORKSPACE_FREE(pPartitions);
+        };
+
+        if (stMKGBCallback.OutOfMemory)
+        {
+            cleanUp();
+            throw std::bad_alloc();
+        }
+
         // firstArray = *stMKGBCallback.pFirstArray;
         // NOW COLLECT ALL THE RESULTS
 
         PyArrayObject * cutoffsArray = AllocateNumpyArray(1, (npy_intp *)&partitionLength, NPY_INT64);
         CHECK_MEMORY_ERROR(cutoffsArray);
         if (! cutoffsArray)
+        {
+            cleanUp();
             return 0;
+        }
 
         int64_t * pCutOffs = (int64_t *)PyArray_BYTES(cutoffsArray);
 
@@ -6087,7 +6169,11 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
         PyArrayObject * firstArray = AllocateNumpyArray(1, (npy_intp *)&totalUniques, numpy_type_code<_Index>::value);
         CHECK_MEMORY_ERROR(firstArray);
         if (! firstArray)
+        {
+            Py_DECREF(cutoffsArray);
+            cleanUp();
             return 0;
+        }
 
         _Index * pFirstArray = (_Index *)PyArray_BYTES(firstArray);
 
@@ -6100,16 +6186,7 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             startpos += pPartitions[i].NumUnique;
         }
 
-        // Clean up------------------------------
-        for (int i = 0; i < partitionLength; i++)
-        {
-            WorkSpaceFreeAllocLarge(pPartitions[i].pHashTableAny, pPartitions[i].HashTableSize);
-        }
-
-        // turn caching back on -----------------------------------------
-        g_cMathWorker->NoCaching = false;
-
-        WORKSPACE_FREE(pPartitions);
+        cleanUp();
 
         PyObject * pyFirstList = PyList_New(2);
         PyList_SET_ITEM(pyFirstList, 0, (PyObject *)firstArray);
diff --git a/src/MathWorker.h b/src/MathWorker.h
index 9bfd90b..a497c4f 100644
--- a/src/MathWorker.h
+++ b/src/MathWorker.h
@@ -324,7 +324,7 @@ public:
             cores = bins;
 
         // Allocate the struct to be freed later
-        stBinCount * pstBinCount = (stBinCount *)WORKSPACE_ALLOC(cores * sizeof(stBinCount));
+        stBinCount * pstBinCount = (stBinCount *)WORKSPACE_ALLOC_OR_THROW(cores * sizeof(stBinCount));
 
         if (cores > 0)
         {
diff --git a/src/Merge.cpp b/src/Merge.cpp
index e1aad17..68fc78a 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -193,7 +193,7 @@ int64_t BooleanCount(PyArrayObject * aIndex, int64_t ** ppChunkCount, int64_t st
     chunks = (chunks + (chunkSize - 1)) / chunkSize;
 
     // TOOD: try to allocate on stack when possible
-    int64_t * const pChunkCount = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
+    int64_t * const pChunkCount = (int64_t *)WORKSPACE_ALLOC_OR_THROW(chunks * sizeof(int64_t));
 
     if (pChunkCount)
     {
@@ -1554,7 +1554,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
     {
         // Also need false count
         const int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
-        pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
+        pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC_OR_THROW(chunks * sizeof(int64_t));
         if (! pChunkCountFalse)
         {
             WORKSPACE_FREE(pChunkCount);
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index a0378e8..9362838 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -33,7 +33,7 @@ char * RotateArrays(int64_t tupleSize, ArrayInfo * aInfo)
     LOGGING("Rotate start at %lld\n", _PyTime_GetSystemClock());
 
     // Allocate what we need
-    char * pSuperArray = (char *)WORKSPACE_ALLOC(totalItemSize * totalRows);
+    char * pSuperArray = (char *)WORKSPACE_ALLOC_OR_THROW(totalItemSize * totalRows);
 
     if (pSuperArray)
     {
@@ -119,7 +119,7 @@ void FreeArrayInfo(ArrayInfo * pAlloc)
 // Allocate array info object we can free laater
 ArrayInfo * AllocArrayInfo(int64_t tupleSize)
 {
-    int64_t * pRawAlloc = (int64_t *)WORKSPACE_ALLOC((sizeof(ArrayInfo) * tupleSize) + sizeof(int64_t));
+    int64_t * pRawAlloc = (int64_t *)WORKSPACE_ALLOC_OR_THROW((sizeof(ArrayInfo) * tupleSize) + sizeof(int64_t));
     if (pRawAlloc)
     {
         // store in first 8 bytes the count
@@ -507,7 +507,7 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
     KEYTYPE invalid = *(KEYTYPE *)GetInvalid<KEYTYPE>();
 
     int64_t size = sizeof(KEYTYPE) * numUnique;
-    KEYTYPE * pGroupArray = (KEYTYPE *)WORKSPACE_ALLOC(size);
+    KEYTYPE * pGroupArray = (KEYTYPE *)WORKSPACE_ALLOC_OR_THROW(size);
 
     if (pGroupArray)
     {
@@ -631,7 +631,7 @@ int32_t * GroupByPackFixup32(int64_t numUnique, int64_t totalRows, void * pIndex
     numUnique += GB_BASE_INDEX;
 
     int64_t size = sizeof(int32_t) * totalRows;
-    int32_t * pNextArray = (int32_t *)WORKSPACE_ALLOC(size);
+    int32_t * pNextArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(size);
 
     // mark all invalid
     for (int32_t i = 0; i < numUnique; i++)
@@ -876,7 +876,7 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
             bMustFree = true;
 
             int64_t allocsize = sizeof(int32_t) * (numUnique + GB_BASE_INDEX);
-            pGroupArray = (int32_t *)WORKSPACE_ALLOC(allocsize);
+            pGroupArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(allocsize);
 
             switch (numpyIndexType)
             {
@@ -1175,7 +1175,7 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
             PyArrayObject * indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
             PyArrayObject * nextArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
 
-            if (nextArray == NULL)
+            if (indexArray == NULL || nextArray == NULL)
             {
                 PyErr_Format(PyExc_ValueError, "MultiKeyHash out of memory    %llu", mkp.totalRows);
             }
@@ -1187,8 +1187,8 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                 int32_t * pNextArray = (int32_t *)PyArray_BYTES(nextArray);
 
                 // now one based, so zero reserved
-                int32_t * pUniqueArray = (int32_t *)WORKSPACE_ALLOC((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
-                int32_t * pUniqueCountArray = (int32_t *)WORKSPACE_ALLOC((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
+                int32_t * pUniqueArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
+                int32_t * pUniqueCountArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
 
                 int64_t numUnique = 0;
 
@@ -1244,8 +1244,8 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                 PyObject * retObject = Py_BuildValue("(OOOO)", indexArray, nextArray, uniqueArray, uniqueCountArray);
                 Py_DECREF((PyObject *)indexArray);
                 Py_DECREF((PyObject *)nextArray);
-                Py_DECREF((PyObject *)uniqueArray);
-                Py_DECREF((PyObject *)uniqueCountArray);
+                Py_XDECREF((PyObject *)uniqueArray);
+                Py_XDECREF((PyObject *)uniqueCountArray);
 
                 return (PyObject *)retObject;
             }
@@ -1293,10 +1293,10 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
             if (mkp.totalRows < 2100000000)
             {
                 // worst case alloc
-                int32_t * pIndexArray = (int32_t *)WORKSPACE_ALLOC(mkp.totalRows * sizeof(int32_t));
+                int32_t * pIndexArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t));
 
                 // worst case alloc
-                int32_t * pCountArray = (int32_t *)WORKSPACE_ALLOC(mkp.totalRows * sizeof(int32_t));
+                int32_t * pCountArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t));
 
                 if (pIndexArray == NULL || pCountArray == NULL)
                 {
@@ -1346,10 +1346,10 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
             else
             {
                 // worst case alloc
-                int64_t * pIndexArray = (int64_t *)WORKSPACE_ALLOC(mkp.totalRows * sizeof(int64_t));
+                int64_t * pIndexArray = (int64_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t));
 
                 // worst case alloc
-                int64_t * pCountArray = (int64_t *)WORKSPACE_ALLOC(mkp.totalRows * sizeof(int64_t));
+                int64_t * pCountArray = (int64_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t));
 
                 if (pIndexArray == NULL || pCountArray == NULL)
                 {
@@ -1402,8 +1402,7 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
     {
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1490,6 +1489,12 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
 
         PyArrayObject * indexArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
         PyArrayObject * runningCountArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
+        if (! indexArray || ! runningCountArray)
+        {
+            Py_XDECREF((PyObject *)indexArray);
+            Py_XDECREF((PyObject *)runningCountArray);
+            return NULL;
+        }
 
         int64_t * pIndexArray = (int64_t *)PyArray_BYTES(indexArray);
         int64_t * pRunningCountArray = (int64_t *)PyArray_BYTES(runningCountArray);
@@ -1560,9 +1565,17 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
         PyArrayObject * bktSizeArray = AllocateLikeNumpyArray(firstObject, NPY_INT32);
         PyArrayObject * lastArray = AllocateLikeNumpyArray(firstObject, NPY_INT32);
 
-        if (lastArray == NULL)
+        if (! indexArray || ! runningCountArray || ! prevArray || ! nextArray ||
+            ! firstArray || ! bktSizeArray || ! lastArray)
         {
-            PyErr_Format(PyExc_ValueError, "MultiKeyHash out of memory    %llu", mkp.totalRows);
+            Py_XDECREF((PyObject *)indexArray);
+            Py_XDECREF((PyObject *)runningCountArray);
+            Py_XDECREF((PyObject *)prevArray);
+            Py_XDECREF((PyObject *)nextArray);
+            Py_XDECREF((PyObject *)firstArray);
+            Py_XDECREF((PyObject *)bktSizeArray);
+            Py_XDECREF((PyObject *)lastArray);
+            return PyErr_NoMemory();
         }
         else
         {
@@ -1623,8 +1636,7 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
 
         return (PyObject *)retObject;
     }
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1720,8 +1732,7 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
     {
     }
     // error path
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //-----------------------------------------------------------------------------------
@@ -1884,8 +1895,7 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     }
 
     // error path
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //==================================================================
@@ -2361,7 +2371,7 @@ int64_t InternalBinCount(BIN_COUNT pBinFunc,
 
     // ALLOCATE one large array for all the cores to count bins
     // This array is COL major (2d matrix of [cores, unique_rows])
-    *ppMemoryForBins = (char *)WORKSPACE_ALLOC(cores * unique_rows * itemSize);
+    *ppMemoryForBins = (char *)WORKSPACE_ALLOC_OR_THROW(cores * unique_rows * itemSize);
 
     if (*ppMemoryForBins == NULL)
         return 0;
diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index d4f1f04..84023cc 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -50,6 +50,8 @@ static int gGarbageCollecting = 0;
 
 #define MAGIC_PAGE_GUARD 0xDEADBEEFDEADBEEF
 //-----------------------------------------------
+std::atomic<uint64_t> g_FailedAllocs{ 0 };
+
 void * FmAlloc(size_t _Size)
 {
     // make thread safe
@@ -64,6 +66,7 @@ void * FmAlloc(size_t _Size)
         // Skip past guard
         return &pageGuard[2];
     }
+    ++g_FailedAllocs;
     return NULL;
 }
 
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 8252997..2d71341 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -440,7 +440,7 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
 
     int32_t numCores = WorkerThreadCount + 1;
     int64_t sizeToAlloc = numCores * sizeof(stScatterGatherFunc);
-    void * pWorkSpace = WORKSPACE_ALLOC(sizeToAlloc);
+    void * pWorkSpace = WORKSPACE_ALLOC_OR_THROW(sizeToAlloc);
 
     if (pWorkSpace)
     {
@@ -3156,8 +3156,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     {
         LOGGING("Reduce: Dont know how to convert these types %d  for func %llu", numpyInType, func);
         // punt to numpy
-        Py_INCREF(Py_None);
-        return Py_None;
+        RETURN_NONE;
     }
 
     LOGGING("Reduce: numpy types %d --> %d   %d %d\n", numpyInType, numpyOutType, gNumpyTypeToSize[numpyInType],
@@ -3171,8 +3170,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     if (len == 0)
     {
         // punt to numpy, often raises a ValueError
-        Py_INCREF(Py_None);
-        return Py_None;
+        RETURN_NONE;
     }
 
     //------------------------------------------------
@@ -3203,7 +3201,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     {
         LOGGING("Reduce: Dont know how to convert these types %d  for func %llu", numpyInType, func);
         // punt to numpy
-        Py_RETURN_NONE;
+        RETURN_NONE;
     }
 
     stScatterGatherFunc sgFunc = { (int32_t)numpyInType, 0, 0, 0, 0, 0 };
@@ -3451,7 +3449,7 @@ PyObject * Reduce(PyObject * self, PyObject * args)
     }
 
     // punt to numpy
-    Py_RETURN_NONE;
+    RETURN_NONE;
 }
 
 namespace riptide::benchmark
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 0ded62c..508e8bd 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -404,8 +404,7 @@ PyObject * SetFastArrayType(PyObject * self, PyObject * args)
         Py_IncRef((PyObject *)g_FastArrayType);
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //----------------------------------------------------------------
@@ -649,6 +648,7 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
     }
 
     PyTypeObject * const allocType = g_FastArrayType ? g_FastArrayType : &PyArray_Type;
+    const bool hadError = PyErr_Occurred() != nullptr;
 
     if (commonArray)
     {
@@ -658,6 +658,9 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
         if (! returnObject)
         {
             // GCNOW (attempt to free memory) and try again
+            // the error of the attempt that is repeated, not one of an earlier allocation
+            if (! hadError)
+                PyErr_Clear();
             GarbageCollect(0, false);
             returnObject = (PyArrayObject *)PyArray_New(allocType, ndim, dims, numpyType, NULL, nullptr, 0, array_flags, nullptr);
         }
@@ -682,6 +685,9 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
         if (! returnObject)
         {
             // GCNOW and try again
+            // the error of the attempt that is repeated, not one of an earlier allocation
+            if (! hadError)
+                PyErr_Clear();
             GarbageCollect(0, false);
             returnObject = (PyArrayObject *)PyArray_New(allocType, ndim, dims, numpyType,
                                                         strides, // Strides
@@ -894,8 +900,7 @@ PyObject * Empty(PyObject * self, PyObject * args)
     int64_t dims = PyList_GET_SIZE(inDimensions);
     if (dims != 1)
     {
-        Py_IncRef(Py_None);
-        return Py_None;
+        RETURN_NONE;
     }
 
 #if NPY_SIZEOF_PY_INTPTR_T == NPY_SIZEOF_LONG
@@ -1437,8 +1442,7 @@ static PyObject * TestNumpy(PyObject * self, PyObject * args)
     // for all other types, the actual data is copied into the address pointed to
     // by ctypeptr.
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 PyObject * CalculateCRC(PyObject * self, PyObject * args);
@@ -1652,155 +1656,225 @@ const char * docstring_asfastarray =
 // func */ 	const char  *ml_doc;    /* The __doc__ attribute, or NULL */
 //};
 
+//---------------------------------------------------------
+// Methods are called through here: memory that could not be allocated, an error that was set
+// and an exception all make the call raise, whatever the method returned.
+template <typename Call>
+static PyObject * CheckedCall(Call && call)
+{
+    const uint64_t failedAllocs = g_FailedAllocs;
+    PyObject * result = nullptr;
+    try
+    {
+        result = call();
+    }
+    catch (const std::bad_alloc &)
+    {
+        if (! PyErr_Occurred())
+            PyErr_NoMemory();
+    }
+    catch (const std::exception & e)
+    {
+        if (! PyErr_Occurred())
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+    }
+
+    if (failedAllocs != g_FailedAllocs && ! PyErr_Occurred())
+    {
+        PyErr_NoMemory();
+    }
+
+    if (result && PyErr_Occurred())
+    {
+        PyObject *type, *value, *traceback;
+        PyErr_Fetch(&type, &value, &traceback);
+        Py_DECREF(result);
+        PyErr_Restore(type, value, traceback);
+        result = nullptr;
+    }
+    return result;
+}
+
+template <auto Method>
+struct checked_method;
+
+template <PyObject * (*Method)(PyObject *, PyObject *)>
+struct checked_method<Method>
+{
+    static PyObject * Call(PyObject * self, PyObject * args)
+    {
+        return CheckedCall(
+            [=]
+            {
+                return Method(self, args);
+            });
+    }
+};
+
+template <PyObject * (*Method)(PyObject *, PyObject *, PyObject *)>
+struct checked_method<Method>
+{
+    static PyObject * Call(PyObject * self, PyObject * args, PyObject * kwargs)
+    {
+        return CheckedCall(
+            [=]
+            {
+                return Method(self, args, kwargs);
+            });
+    }
+};
+
+#define CHECKED(_METHOD_) (PyCFunction)checked_method<_METHOD_>::Call
+
 static PyMethodDef CSigMathUtilMethods[] = {
-    { "AllocateNumpy", AllocateNumpy, METH_VARARGS, "AllocateNumpy wrapper" },
-    { "RecycleNumpy", RecycleNumpy, METH_VARARGS, "RecycleNumpy wrapper" },
-    { "RecycleGarbageCollectNow", RecycleGarbageCollectNow, METH_VARARGS,
+    { "AllocateNumpy", CHECKED(AllocateNumpy), METH_VARARGS, "AllocateNumpy wrapper" },
+    { "RecycleNumpy", CHECKED(RecycleNumpy), METH_VARARGS, "RecycleNumpy wrapper" },
+    { "RecycleGarbageCollectNow", CHECKED(RecycleGarbageCollectNow), METH_VARARGS,
       "RecycleGarbageCollect wrapper.  arg1 is long integer timespan" },
-    { "RecycleSetGarbageCollectTimeout", RecycleSetGarbageCollectTimeout, METH_VARARGS,
+    { "RecycleSetGarbageCollectTimeout", CHECKED(RecycleSetGarbageCollectTimeout), METH_VARARGS,
       "RecycleSetGarbageCollectTimeout wrapper.  arg1 is long integer timespan" },
-    { "RecycleDump", RecycleDump, METH_VARARGS, "Dump all objects in reclaimed memory" },
-    { "SetRecycleMode", SetRecycleMode, METH_VARARGS, "Change recycling mode 0=on  1=off" },
-    { "Empty", Empty, METH_VARARGS, "similar to np.empty, but tries to allocate from recycler" },
+    { "RecycleDump", CHECKED(RecycleDump), METH_VARARGS, "Dump all objects in reclaimed memory" },
+    { "SetRecycleMode", CHECKED(SetRecycleMode), METH_VARARGS, "Change recycling mode 0=on  1=off" },
+    { "Empty", CHECKED(Empty), METH_VARARGS, "similar to np.empty, but tries to allocate from recycler" },
 
-    { "TryRecycleNumpy", TryRecycleNumpy, METH_VARARGS, "Try to allocate from recycled array" },
-    { "TestNumpy", TestNumpy, METH_VARARGS, "TestNumpy wrapper" },
-    { "CompareNumpyMemAddress", CompareNumpyMemAddress, METH_VARARGS,
+    { "TryRecycleNumpy", CHECKED(TryRecycleNumpy), METH_VARARGS, "Try to allocate from recycled array" },
+    { "TestNumpy", CHECKED(TestNumpy), METH_VARARGS, "TestNumpy wrapper" },
+    { "CompareNumpyMemAddress", CHECKED(CompareNumpyMemAddress), METH_VARARGS,
       "Compare two numpy arrays to see if same underlying memory address" },
 
-    { "SetZstdChecksumming", SetZstdChecksumming, METH_VARARGS, "Set (enable or disable) Zstandard checksumming" },
-    { "CompressString", CompressString, METH_VARARGS, "Compress a string" },
-    { "DecompressString", DecompressString, METH_VARARGS, "Decompress a string" },
-    { "CompressDecompressArrays", CompressDecompressArrays, METH_VARARGS, "CompressDecompressArrays one or more arrays" },
-    { "CompressFile", (PyCFunction)CompressFile, METH_VARARGS | METH_KEYWORDS, "CompressFile one or more arrays" },
-    { "DecompressFile", (PyCFunction)DecompressFile, METH_VARARGS | METH_KEYWORDS, "DecompressFile one or more arrays" },
-    { "MultiStackFiles", (PyCFunction)MultiStackFiles, METH_VARARGS | METH_KEYWORDS,
+    { "SetZstdChecksumming", CHECKED(SetZstdChecksumming), METH_VARARGS, "Set (enable or disable) Zstandard checksumming" },
+    { "CompressString", CHECKED(CompressString), METH_VARARGS, "Compress a string" },
+    { "DecompressString", CHECKED(DecompressString), METH_VARARGS, "Decompress a string" },
+    { "CompressDecompressArrays", CHECKED(CompressDecompressArrays), METH_VARARGS, "CompressDecompressArrays one or more arrays" },
+    { "CompressFile", CHECKED(CompressFile), METH_VARARGS | METH_KEYWORDS, "CompressFile one or more arrays" },
+    { "DecompressFile", CHECKED(DecompressFile), METH_VARARGS | METH_KEYWORDS, "DecompressFile one or more arrays" },
+    { "MultiStackFiles", CHECKED(MultiStackFiles), METH_VARARGS | METH_KEYWORDS,
       "MultiStackFiles one or more files with auto hstack .. arrays" },
-    { "MultiDecompressFiles", (PyCFunction)MultiDecompressFiles, METH_VARARGS | METH_KEYWORDS,
+    { "MultiDecompressFiles", CHECKED(MultiDecompressFiles), METH_VARARGS | METH_KEYWORDS,
       "MultiDecompressFile one or more files (returns tuple)" },
-    { "MultiPossiblyStackFiles", (PyCFunction)MultiPossiblyStackFiles, METH_VARARGS | METH_KEYWORDS,
+    { "MultiPossiblyStackFiles", CHECKED(MultiPossiblyStackFiles), METH_VARARGS | METH_KEYWORDS,
       "MultiPossiblyStackFiles one or more files (returns tuple)" },
-    { "MultiConcatFiles", (PyCFunction)MultiConcatFiles, METH_VARARGS | METH_KEYWORDS,
+    { "MultiConcatFiles", CHECKED(MultiConcatFiles), METH_VARARGS | METH_KEYWORDS,
       "MultiConcatFiles one or more files with output=filename" },
-    { "SetLustreGateway", SetLustreGateway, METH_VARARGS, "SetLustreGateway - give alternate samba servers" },
+    { "SetLustreGateway", CHECKED(SetLustreGateway), METH_VARARGS, "SetLustreGateway - give alternate samba servers" },
 
-    { "BitCount", BitCount, METH_VARARGS, "BitCount calculation" },
-    { "IsMember32", IsMember32, METH_VARARGS, "IsMember32 calculation" },
+    { "BitCount", CHECKED(BitCount), METH_VARARGS, "BitCount calculation" },
+    { "IsMember32", CHECKED(IsMember32), METH_VARARGS, "IsMember32 calculation" },
     // IsMember64 doesn't exist as a separate function anymore; IsMember32 detects the size of the index
     // to use and dispatches to a type-specialized implementation, so a separate IsMember64 function isn't needed.
-    { "IsMember64", IsMember32, METH_VARARGS, "IsMember64 calculation" },
-    { "IsMemberCategorical", IsMemberCategorical, METH_VARARGS, "IsMemberCategorical calculation" },
-    { "IsMemberCategoricalFixup", IsMemberCategoricalFixup, METH_VARARGS,
+    { "IsMember64", CHECKED(IsMember32), METH_VARARGS, "IsMember64 calculation" },
+    { "IsMemberCategorical", CHECKED(IsMemberCategorical), METH_VARARGS, "IsMemberCategorical calculation" },
+    { "IsMemberCategoricalFixup", CHECKED(IsMemberCategoricalFixup), METH_VARARGS,
       "IsMemberCategoricalFixup used for ismember unique on cat" },
 
-    { "MultiKeyHash", MultiKeyHash, METH_VARARGS, "MultiKeyHash calculation" },
-    { "MultiKeyGroupBy32", (PyCFunction)MultiKeyGroupBy32, METH_VARARGS | METH_KEYWORDS, "MultiKeyGroupBy32 calculation" },
-    { "MultiKeyGroupBy32Super", MultiKeyGroupBy32Super, METH_VARARGS, "MultiKeyGroupBy32Super calculation" },
-    { "MultiKeyUnique32", MultiKeyUnique32, METH_VARARGS, "MultiKeyUnique32 calculation" },
-    { "MultiKeyIsMember32", MultiKeyIsMember32, METH_VARARGS, "MultiKeyIsMember32 calculation" },
-    { "MultiKeyAlign32", MultiKeyAlign32, METH_VARARGS, "MultiKeyAlign32 calculation" },
-    { "MultiKeyRolling", MultiKeyRolling, METH_VARARGS, "MultiKeyRolling calculation" },
-    { "BinCount", (PyCFunction)BinCount, METH_VARARGS | METH_KEYWORDS,
+    { "MultiKeyHash", CHECKED(MultiKeyHash), METH_VARARGS, "MultiKeyHash calculation" },
+    { "MultiKeyGroupBy32", CHECKED(MultiKeyGroupBy32), METH_VARARGS | METH_KEYWORDS, "MultiKeyGroupBy32 calculation" },
+    { "MultiKeyGroupBy32Super", CHECKED(MultiKeyGroupBy32Super), METH_VARARGS, "MultiKeyGroupBy32Super calculation" },
+    { "MultiKeyUnique32", CHECKED(MultiKeyUnique32), METH_VARARGS, "MultiKeyUnique32 calculation" },
+    { "MultiKeyIsMember32", CHECKED(MultiKeyIsMember32), METH_VARARGS, "MultiKeyIsMember32 calculation" },
+    { "MultiKeyAlign32", CHECKED(MultiKeyAlign32), METH_VARARGS, "MultiKeyAlign32 calculation" },
+    { "MultiKeyRolling", CHECKED(MultiKeyRolling), METH_VARARGS, "MultiKeyRolling calculation" },
+    { "BinCount", CHECKED(BinCount), METH_VARARGS | METH_KEYWORDS,
       "BinCount calculation, may also return igroup and ifirstgroup" },
-    { "MakeiNext", MakeiNext, METH_VARARGS,
+    { "MakeiNext", CHECKED(MakeiNext), METH_VARARGS,
       "MakeiNext calculation: arg1: index, arg2: uniquecount, arg3: mode 0 or "
       "1" },
-    { "GroupFromBinCount", GroupFromBinCount, METH_VARARGS,
+    { "GroupFromBinCount", CHECKED(GroupFromBinCount), METH_VARARGS,
       "GroupFromBinCount calculation: arg1: index, arg2: result from BinCount" },
 
-    { "MergeBinnedAndSorted", MergeBinnedAndSorted, METH_VARARGS, "MergeBinnedAndSorted calculation" },
+    { "MergeBinnedAndSorted", CHECKED(MergeBinnedAndSorted), METH_VARARGS, "MergeBinnedAndSorted calculation" },
 
-    { "GroupByPack32", GroupByPack32, METH_VARARGS, "GroupByPack32 data from int to float, etc" },
-    //{ "GroupByOp32", GroupByOp32, METH_VARARGS, "GroupByOp32 data from int to
+    { "GroupByPack32", CHECKED(GroupByPack32), METH_VARARGS, "GroupByPack32 data from int to float, etc" },
+    //{ "GroupByOp32", CHECKED(GroupByOp32), METH_VARARGS, "GroupByOp32 data from int to
     // float, etc" },
-    { "GroupByAll32", GroupByAll32, METH_VARARGS, "GroupByAll32 data from int to float, etc" },
-    { "GroupByAll64", GroupByAll64, METH_VARARGS, "GroupByAll64 data from int to float, etc" },
-    { "GroupByAllPack32", GroupByAllPack32, METH_VARARGS, "GroupByAllPack32 data from int to float, etc" },
-
-    { "EmaAll32", EmaAll32, METH_VARARGS, "EmaAll32 summation" },
-    { "Rolling", Rolling, METH_VARARGS, "Rolling window summation" },
-    { "TimeWindow", TimeWindow, METH_VARARGS, "Time window summation/prod" },
-    { "InterpExtrap2d", InterpExtrap2d, METH_VARARGS, "Interpolation routine see: np.interp" },
-
-    { "ThreadingMode", ThreadingMode, METH_VARARGS, "Change Threading Mode" },
-
-    { "ConvertSafe", ConvertSafe, METH_VARARGS, "Convert data from int to float, etc, preserving invalids" },
-    { "ConvertUnsafe", ConvertUnsafe, METH_VARARGS, "Convert data from int to float, NOT preserving invalids" },
-    { "CombineFilter", CombineFilter, METH_VARARGS, "Combine an index and a bool filter" },
-    { "CombineAccum2Filter", CombineAccum2Filter, METH_VARARGS, "Combine an index and a bool filter" },
-    { "CombineAccum1Filter", CombineAccum1Filter, METH_VARARGS, "Combine an index and a bool filter" },
-    { "MakeiFirst", MakeiFirst, METH_VARARGS, "Combine an index and a bool filter, returns iFirst" },
-
-    { "HStack", HStack, METH_VARARGS, "HStack - concats arrays" },
-    { "SetItem", SetItem, METH_VARARGS, "takes over numpy array __setitem__" },
-    { "PutMask", PutMask, METH_VARARGS, "takes over numpy putmask" },
-    { "GetUpcastNum", GetUpcastNum, METH_VARARGS, "GetUpcastNum - pass in list of numpy arrays, get dtype num" },
-    { "HomogenizeArrays", HomogenizeArrays, METH_VARARGS, "HomogenizeArrays - pass in list of numpy arrays, get dtype num" },
-    { "ShiftArrays", ShiftArrays, METH_VARARGS, "ShiftArrays - pass in list of numpy arrays, shift amoount" },
-    { "ApplyRows", (PyCFunction)LedgerFunction, METH_VARARGS | METH_KEYWORDS,
+    { "GroupByAll32", CHECKED(GroupByAll32), METH_VARARGS, "GroupByAll32 data from int to float, etc" },
+    { "GroupByAll64", CHECKED(GroupByAll64), METH_VARARGS, "GroupByAll64 data from int to float, etc" },
+    { "GroupByAllPack32", CHECKED(GroupByAllPack32), METH_VARARGS, "GroupByAllPack32 data from int to float, etc" },
+
+    { "EmaAll32", CHECKED(EmaAll32), METH_VARARGS, "EmaAll32 summation" },
+    { "Rolling", CHECKED(Rolling), METH_VARARGS, "Rolling window summation" },
+    { "TimeWindow", CHECKED(TimeWindow), METH_VARARGS, "Time window summation/prod" },
+    { "InterpExtrap2d", CHECKED(InterpExtrap2d), METH_VARARGS, "Interpolation routine see: np.interp" },
+
+    { "ThreadingMode", CHECKED(ThreadingMode), METH_VARARGS, "Change Threading Mode" },
+
+    { "ConvertSafe", CHECKED(ConvertSafe), METH_VARARGS, "Convert data from int to float, etc, preserving invalids" },
+    { "ConvertUnsafe", CHECKED(ConvertUnsafe), METH_VARARGS, "Convert data from int to float, NOT preserving invalids" },
+    { "CombineFilter", CHECKED(CombineFilter), METH_VARARGS, "Combine an index and a bool filter" },
+    { "CombineAccum2Filter", CHECKED(CombineAccum2Filter), METH_VARARGS, "Combine an index and a bool filter" },
+    { "CombineAccum1Filter", CHECKED(CombineAccum1Filter), METH_VARARGS, "Combine an index and a bool filter" },
+    { "MakeiFirst", CHECKED(MakeiFirst), METH_VARARGS, "Combine an index and a bool filter, returns iFirst" },
+
+    { "HStack", CHECKED(HStack), METH_VARARGS, "HStack - concats arrays" },
+    { "SetItem", CHECKED(SetItem), METH_VARARGS, "takes over numpy array __setitem__" },
+    { "PutMask", CHECKED(PutMask), METH_VARARGS, "takes over numpy putmask" },
+    { "GetUpcastNum", CHECKED(GetUpcastNum), METH_VARARGS, "GetUpcastNum - pass in list of numpy arrays, get dtype num" },
+    { "HomogenizeArrays", CHECKED(HomogenizeArrays), METH_VARARGS, "HomogenizeArrays - pass in list of numpy arrays, get dtype num" },
+    { "ShiftArrays", CHECKED(ShiftArrays), METH_VARARGS, "ShiftArrays - pass in list of numpy arrays, shift amoount" },
+    { "ApplyRows", CHECKED(LedgerFunction), METH_VARARGS | METH_KEYWORDS,
       "ApplyRows calculation, pass in list of arrays, dtype, func" },
 
-    { "MBGet", MBGet, METH_VARARGS, "MBGet fancy index getitem functionality" },
-    { "BooleanIndex", BooleanIndex, METH_VARARGS, "BooleanIndex functionality" },
-    { "BooleanSum", BooleanSum, METH_VARARGS, "BooleanSum functionality" },
-    { "BooleanToFancy", (PyCFunction)BooleanToFancy, METH_VARARGS | METH_KEYWORDS, "BooleanToFancy functionality" },
-    { "ReIndexGroups", ReIndexGroups, METH_VARARGS, "reindex categoricals from multistack" },
-    { "ReverseShuffle", ReverseShuffle, METH_VARARGS, "ReverseShuffle for indexes algo: out[in[i]] = i" },
+    { "MBGet", CHECKED(MBGet), METH_VARARGS, "MBGet fancy index getitem functionality" },
+    { "BooleanIndex", CHECKED(BooleanIndex), METH_VARARGS, "BooleanIndex functionality" },
+    { "BooleanSum", CHECKED(BooleanSum), METH_VARARGS, "BooleanSum functionality" },
+    { "BooleanToFancy", CHECKED(BooleanToFancy), METH_VARARGS | METH_KEYWORDS, "BooleanToFancy functionality" },
+    { "ReIndexGroups", CHECKED(ReIndexGroups), METH_VARARGS, "reindex categoricals from multistack" },
+    { "ReverseShuffle", CHECKED(ReverseShuffle), METH_VARARGS, "ReverseShuffle for indexes algo: out[in[i]] = i" },
 
-    { "Reduce", Reduce, METH_VARARGS, "Reduce add,min,max etc" },
+    { "Reduce", CHECKED(Reduce), METH_VARARGS, "Reduce add,min,max etc" },
 
-    { "AsAnyArray", (PyCFunction)AsAnyArray, METH_VARARGS | METH_KEYWORDS, docstring_asarray },
-    { "AsFastArray", (PyCFunction)AsFastArray, METH_VARARGS | METH_KEYWORDS, docstring_asfastarray },
+    { "AsAnyArray", CHECKED(AsAnyArray), METH_VARARGS | METH_KEYWORDS, docstring_asarray },
+    { "AsFastArray", CHECKED(AsFastArray), METH_VARARGS | METH_KEYWORDS, docstring_asfastarray },
 
-    { "BasicMathUnaryOp", (PyCFunction)BasicMathUnaryOp, METH_VARARGS | METH_KEYWORDS, "BasicMathUnaryOp functionality" },
-    { "BasicMathOneInput", BasicMathOneInput, METH_VARARGS, "BasicMathOneInput functionality" },
-    { "BasicMathTwoInputs", BasicMathTwoInputs, METH_VARARGS, "BasicMathTwoInputs functionality" },
+    { "BasicMathUnaryOp", CHECKED(BasicMathUnaryOp), METH_VARARGS | METH_KEYWORDS, "BasicMathUnaryOp functionality" },
+    { "BasicMathOneInput", CHECKED(BasicMathOneInput), METH_VARARGS, "BasicMathOneInput functionality" },
+    { "BasicMathTwoInputs", CHECKED(BasicMathTwoInputs), METH_VARARGS, "BasicMathTwoInputs functionality" },
 
     // for low level python hooks
-    { "BasicMathHook", BasicMathHook, METH_VARARGS, "BasicMathHook functionality (pass in fastarray class, FA, np.ndarray)" },
+    { "BasicMathHook", CHECKED(BasicMathHook), METH_VARARGS, "BasicMathHook functionality (pass in fastarray class, FA, np.ndarray)" },
 
-    { "LedgerFunction", (PyCFunction)LedgerFunction, METH_VARARGS | METH_KEYWORDS, "LedgerFunction calculation" },
-    { "SetFastArrayType", SetFastArrayType, METH_VARARGS, "SetFastArrayType" },
+    { "LedgerFunction", CHECKED(LedgerFunction), METH_VARARGS | METH_KEYWORDS, "LedgerFunction calculation" },
+    { "SetFastArrayType", CHECKED(SetFastArrayType), METH_VARARGS, "SetFastArrayType" },
 
-    { "Sort", Sort, METH_VARARGS, "return sorted array, second argument 1=QuickSort, 2=Merge, 3=Heap" },
-    { "SortInPlace", SortInPlace, METH_VARARGS, "SortInPlace second argument 1=QuickSort, 2=Merge, 3=Heap" },
-    { "SortInPlaceIndirect", SortInPlaceIndirect, METH_VARARGS, "SortInPlaceIndirect" },
-    { "ReIndex", ReIndex, METH_VARARGS, "returns data rearranged by index" },
+    { "Sort", CHECKED(Sort), METH_VARARGS, "return sorted array, second argument 1=QuickSort, 2=Merge, 3=Heap" },
+    { "SortInPlace", CHECKED(SortInPlace), METH_VARARGS, "SortInPlace second argument 1=QuickSort, 2=Merge, 3=Heap" },
+    { "SortInPlaceIndirect", CHECKED(SortInPlaceIndirect), METH_VARARGS, "SortInPlaceIndirect" },
+    { "ReIndex", CHECKED(ReIndex), METH_VARARGS, "returns data rearranged by index" },
 
-    { "RemoveTrailingSpaces", RemoveTrailingSpaces, METH_VARARGS, "in place removal of trailing spaces (matlab)" },
+    { "RemoveTrailingSpaces", CHECKED(RemoveTrailingSpaces), METH_VARARGS, "in place removal of trailing spaces (matlab)" },
 
-    { "LexSort64", (PyCFunction)LexSort64, METH_VARARGS | METH_KEYWORDS, "LexSort64 returns int64 indexing" },
-    { "LexSort32", (PyCFunction)LexSort32, METH_VARARGS | METH_KEYWORDS, "LexSort32 returns int32 indexing" },
-    { "GroupFromLexSort", (PyCFunction)GroupFromLexSort, METH_VARARGS | METH_KEYWORDS,
+    { "LexSort64", CHECKED(LexSort64), METH_VARARGS | METH_KEYWORDS, "LexSort64 returns int64 indexing" },
+    { "LexSort32", CHECKED(LexSort32), METH_VARARGS | METH_KEYWORDS, "LexSort32 returns int32 indexing" },
+    { "GroupFromLexSort", CHECKED(GroupFromLexSort), METH_VARARGS | METH_KEYWORDS,
       "GroupFromLexSort can input int32 or int64 indexing" },
 
-    { "IsSorted", IsSorted, METH_VARARGS, "IsSorted" },
+    { "IsSorted", CHECKED(IsSorted), METH_VARARGS, "IsSorted" },
 
-    { "Where", Where, METH_VARARGS, "Where version of np.where" },
+    { "Where", CHECKED(Where), METH_VARARGS, "Where version of np.where" },
 
-    { "RecordArrayToColMajor", RecordArrayToColMajor, METH_VARARGS, "Convert record arrays to col major" },
+    { "RecordArrayToColMajor", CHECKED(RecordArrayToColMajor), METH_VARARGS, "Convert record arrays to col major" },
 
-    { "NanInfCountFromSort", NanInfCountFromSort, METH_VARARGS, "NanInfCountFromSort" },
-    { "BinsToCutsBSearch", BinsToCutsBSearch, METH_VARARGS, "BinsToCutsBSearch" },
-    { "BinsToCutsSorted", BinsToCutsSorted, METH_VARARGS, "BinsToCutsSorted" },
+    { "NanInfCountFromSort", CHECKED(NanInfCountFromSort), METH_VARARGS, "NanInfCountFromSort" },
+    { "BinsToCutsBSearch", CHECKED(BinsToCutsBSearch), METH_VARARGS, "BinsToCutsBSearch" },
+    { "BinsToCutsSorted", CHECKED(BinsToCutsSorted), METH_VARARGS, "BinsToCutsSorted" },
 
-    { "CalculateCRC", CalculateCRC, METH_VARARGS, "CalculateCRC" },
-    { "GetNanoTime", GetNanoTime, METH_NOARGS, "Get int64 nano time since unix epoch" },
-    { "GetTSC", GetTSC, METH_NOARGS, "Get int64 time stamp counter from CPU" },
-    { "GetThreadWakeUp", GetThreadWakeUp, METH_NOARGS, "Get how many threads wake up to do work." },
-    { "SetThreadWakeUp", SetThreadWakeUp, METH_VARARGS, "Set how many threads to wake up.  Return the previous value" },
+    { "CalculateCRC", CHECKED(CalculateCRC), METH_VARARGS, "CalculateCRC" },
+    { "GetNanoTime", CHECKED(GetNanoTime), METH_NOARGS, "Get int64 nano time since unix epoch" },
+    { "GetTSC", CHECKED(GetTSC), METH_NOARGS, "Get int64 time stamp counter from CPU" },
+    { "GetThreadWakeUp", CHECKED(GetThreadWakeUp), METH_NOARGS, "Get how many threads wake up to do work." },
+    { "SetThreadWakeUp", CHECKED(SetThreadWakeUp), METH_VARARGS, "Set how many threads to wake up.  Return the previous value" },
 
-    { "TimeStringToNanos", TimeStringToNanos, METH_VARARGS,
+    { "TimeStringToNanos", CHECKED(TimeStringToNanos), METH_VARARGS,
       "Parse string in HH:MM:SS or HH:MM:SS.mmm format to nanos from midnight" },
-    { "DateStringToNanos", DateStringToNanos, METH_VARARGS, "Parse string in YYYYMMDD or YYYY-MM-DD format to UTC epoch nanos" },
-    { "DateTimeStringToNanos", DateTimeStringToNanos, METH_VARARGS,
+    { "DateStringToNanos", CHECKED(DateStringToNanos), METH_VARARGS, "Parse string in YYYYMMDD or YYYY-MM-DD format to UTC epoch nanos" },
+    { "DateTimeStringToNanos", CHECKED(DateTimeStringToNanos), METH_VARARGS,
       "Parse string in YYYYMMDD or YYYY-MM-DD format  then HH:MM:SS.mmm to UTC "
       "epoch nanos" },
-    { "StrptimeToNanos", StrptimeToNanos, METH_VARARGS, "Parse string in strptime  then .mmm to UTC epoch nanos" },
-    { "EnableLogging", EnableLogging, METH_VARARGS, "Enable logging with the specified parameters." },
-    { "DisableLogging", DisableLogging, METH_VARARGS, "Disable the logger and shutdown all associated threads" },
-    { "GetRiptideLoggers", GetRiptideLoggers, METH_NOARGS, "Get the names of available riptide loggers" },
-    //{ "addf32x", addf32x, METH_VARARGS, "addf32 with output calculation" },
+    { "StrptimeToNanos", CHECKED(StrptimeToNanos), METH_VARARGS, "Parse string in strptime  then .mmm to UTC epoch nanos" },
+    { "EnableLogging", CHECKED(EnableLogging), METH_VARARGS, "Enable logging with the specified parameters." },
+    { "DisableLogging", CHECKED(DisableLogging), METH_VARARGS, "Disable the logger and shutdown all associated threads" },
+    { "GetRiptideLoggers", CHECKED(GetRiptideLoggers), METH_NOARGS, "Get the names of available riptide loggers" },
+    //{ "addf32x", CHECKED(addf32x), METH_VARARGS, "addf32 with output calculation" },
     { NULL, NULL, 0, NULL } /* Sentinel - marks the end of this structure */
 };
 
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index b6f15a6..cc1fce1 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -8818,6 +8818,11 @@ extern "C"
         {
             // Allocate an array of all the files we need to open
             SDSDecompressFile ** pSDSDecompressFile = (SDSDecompressFile **)WORKSPACE_ALLOC(sizeof(void *) * fileCount);
+            if (! pSDSDecompressFile)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not allocate memory for %lld files", fileCount);
+                return NULL;
+            }
 
             for (int64_t i = 0; i < fileCount; i++)
             {
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 457b08b..8887bd1 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -439,7 +439,7 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
                 fileName = PyBytes_AsString(pBytes);
 
                 int64_t strSize = strlen(fileName);
-                char * pNewString = (char *)WORKSPACE_ALLOC(strSize + 1);
+                char * pNewString = (char *)WORKSPACE_ALLOC_OR_THROW(strSize + 1);
                 memcpy(pNewString, fileName, strSize);
                 pNewString[strSize] = 0;
 
@@ -453,7 +453,7 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
                 {
                     fileName = PyBytes_AsString(temp2);
                     int64_t strSize = strlen(fileName);
-                    char * pNewString = (char *)WORKSPACE_ALLOC(strSize + 1);
+                    char * pNewString = (char *)WORKSPACE_ALLOC_OR_THROW(strSize + 1);
                     memcpy(pNewString, fileName, strSize);
                     pNewString[strSize] = 0;
 
@@ -1114,8 +1114,7 @@ PyObject * ReadFinalWrap(SDS_FINAL_CALLBACK * pSDSFinalCallback)
 {
     if (pSDSFinalCallback == NULL)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        RETURN_NONE;
     }
 
     int32_t mode = pSDSFinalCallback->mode;
@@ -1216,7 +1215,7 @@ void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * retu
     {
         *returnString = PyBytes_AsString(temp2);
         *returnSize = strlen(*returnString);
-        char * pNewString = (char *)WORKSPACE_ALLOC(*returnSize + 1);
+        char * pNewString = (char *)WORKSPACE_ALLOC_OR_THROW(*returnSize + 1);
         memcpy(pNewString, *returnString, *returnSize);
         pNewString[*returnSize] = 0;
 
@@ -1419,7 +1418,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     LOGGING("Name count is %d\n", (int)listNameCount);
 
     // alloc worst case scenario
-    char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
+    char * pListNames = (char *)WORKSPACE_ALLOC_OR_THROW((SDS_MAX_FILENAME * listNameCount) + 8);
 
     // Process list of names tuples
     int64_t listNameSize = pListNames ? BuildListInfo(inListNames, pListNames) : -1;
@@ -1445,7 +1444,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     if (aInfo)
     {
-        pSDSArrayInfo = (SDSArrayInfo *)WORKSPACE_ALLOC((sizeof(SDSArrayInfo) * arrayCount) + 8);
+        pSDSArrayInfo = (SDSArrayInfo *)WORKSPACE_ALLOC_OR_THROW((sizeof(SDSArrayInfo) * arrayCount) + 8);
         if (! pSDSArrayInfo)
         {
             PyErr_NoMemory();
@@ -1599,8 +1598,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //==================================
@@ -1956,7 +1954,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     LOGGING("InternalDecompress filecount: %lld  mode: %d", fileCount, multiMode);
     if (fileCount)
     {
-        SDS_MULTI_READ * pMultiRead = (SDS_MULTI_READ *)WORKSPACE_ALLOC(sizeof(SDS_MULTI_READ) * fileCount);
+        SDS_MULTI_READ * pMultiRead = (SDS_MULTI_READ *)WORKSPACE_ALLOC_OR_THROW(sizeof(SDS_MULTI_READ) * fileCount);
 
         if (pMultiRead)
         {
@@ -2045,8 +2043,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
 
     if (! result)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        RETURN_NONE;
     }
 
     LOGGING("Multistack returning a good result %p\n", result);
@@ -2112,6 +2109,5 @@ PyObject * SetLustreGateway(PyObject * self, PyObject * args)
         g_gatewaylist.push_back(std::string(gateway));
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 37cb164..d3ec8cd 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2969,7 +2969,7 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
         int32_t * pDataIn = (int32_t *)PyArray_BYTES(inArr1);
         int32_t * pSort = (int32_t *)PyArray_BYTES(inSort);
 
-        int32_t * inverseSort = (int32_t *)WORKSPACE_ALLOC(sortSize * sizeof(int32_t));
+        int32_t * inverseSort = (int32_t *)WORKSPACE_ALLOC_OR_THROW(sortSize * sizeof(int32_t));
         for (int i = 0; i < sortSize; i++)
         {
             inverseSort[pSort[i]] = i;
@@ -2987,7 +2987,7 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
         int32_t * pDataIn = (int32_t *)PyArray_BYTES(inArr1);
         int64_t * pSort = (int64_t *)PyArray_BYTES(inSort);
 
-        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC(sortSize * sizeof(int64_t));
+        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC_OR_THROW(sortSize * sizeof(int64_t));
         for (int64_t i = 0; i < sortSize; i++)
         {
             inverseSort[pSort[i]] = i;
@@ -3004,7 +3004,7 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
         int64_t * pDataIn = (int64_t *)PyArray_BYTES(inArr1);
         int64_t * pSort = (int64_t *)PyArray_BYTES(inSort);
 
-        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC(sortSize * sizeof(int64_t));
+        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC_OR_THROW(sortSize * sizeof(int64_t));
         for (int64_t i = 0; i < sortSize; i++)
         {
             inverseSort[pSort[i]] = i;
@@ -3614,8 +3614,7 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 //===============================================================================
@@ -3981,6 +3980,13 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     if (pCutOffs)
     {
         PyArrayObject * uniqueCounts = AllocateNumpyArray(1, (npy_intp *)&cutOffLength, NPY_INT64);
+        if (! uniqueCounts)
+        {
+            Py_DECREF(keys);
+            Py_DECREF(first);
+            Py_DECREF(count);
+            return NULL;
+        }
         int64_t * pUniqueCounts = (int64_t *)PyArray_BYTES(uniqueCounts);
 
         // Turn off caching of large memory allocs
@@ -4082,6 +4088,14 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
 
         totalUniques++;
         PyArrayObject * countReduced = AllocateNumpyArray(1, (npy_intp *)&totalUniques, INDEX_SIZE == 4 ? NPY_INT32 : NPY_INT64);
+        if (! firstReduced || ! countReduced)
+        {
+            for (PyArrayObject * const array : { keys, first, count, uniqueCounts, firstReduced, countReduced })
+            {
+                Py_XDECREF(array);
+            }
+            return NULL;
+        }
 
         // ANOTHER PARALEL ROUTINE to copy
         struct stPGROUPADD
@@ -4295,12 +4309,21 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         // also count invalid bin
         PyArrayObject * firstReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
-        int64_t copySize = sizeof(UINDEX) * uniqueCount;
-        memcpy(PyArray_BYTES(firstReduced), pFirstOut, copySize);
-
         uniqueCount++;
         PyArrayObject * countReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
+        if (! firstReduced || ! countReduced)
+        {
+            for (PyArrayObject * const array : { keys, first, count, firstReduced, countReduced })
+            {
+                Py_XDECREF(array);
+            }
+            return NULL;
+        }
+
+        int64_t copySize = sizeof(UINDEX) * (uniqueCount - 1);
+        memcpy(PyArray_BYTES(firstReduced), pFirstOut, copySize);
+
         copySize = sizeof(UINDEX) * uniqueCount;
         // reduced
         memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..b092cb0 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -195,7 +195,7 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
 
     stOffsets * pstOffset;
 
-    pstOffset = (stOffsets *)WORKSPACE_ALLOC(sizeof(stOffsets) * numArrays);
+    pstOffset = (stOffsets *)WORKSPACE_ALLOC_OR_THROW(sizeof(stOffsets) * numArrays);
 
     for (int64_t i = 0; i < numArrays; i++)
     {
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 1310d10..6fa0d1a 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -250,6 +250,5 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
diff --git a/src/one_input.cpp b/src/one_input.cpp
index 5316749..8339296 100644
--- a/src/one_input.cpp
+++ b/src/one_input.cpp
@@ -47,8 +47,7 @@ PyObject * process_one_input(PyArrayObject const * in_array, PyArrayObject * out
             }
             else
             {
-                Py_INCREF(Py_None);
-                return Py_None;
+                RETURN_NONE;
             }
 
             return reinterpret_cast<PyObject *>(result_array);
@@ -63,16 +62,14 @@ PyObject * process_one_input(PyArrayObject const * in_array, PyArrayObject * out
             if (numpy_outtype != -1 && numpy_outtype != wanted_outtype)
             {
                 LOGGING("Wanted output type %d does not match output type %d\n", wanted_outtype, numpy_outtype);
-                Py_INCREF(Py_None);
-                return Py_None;
+                RETURN_NONE;
             }
 
             PyArrayObject * result_array{ numpy_outtype == -1 ? AllocateLikeNumpyArray(in_array, wanted_outtype) : out_object_1 };
 
             if ((result_array == nullptr) || ((result_array == out_object_1) && (len != ArrayLength(result_array))))
             {
-                Py_INCREF(Py_None);
-                return Py_None;
+                RETURN_NONE;
             }
 
             if (result_array == out_object_1)
@@ -105,8 +102,7 @@ PyObject * process_one_input(PyArrayObject const * in_array, PyArrayObject * out
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    RETURN_NONE;
 }
 
 namespace riptable_cpp
-- 
2.43.0


From 0523ff6bf7053b32be44b7bbb77f488bbc7ec7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 54/55] fix: multi-key calls give back their references and do
 not crash when memory runs out

---
 src/MultiKey.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 9362838..815da0b 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -455,7 +455,20 @@ public:
                 {
                     bAllocated = true;
                     // Make rows
-                    pSuperArray = RotateArrays(listSize, aInfo);
+                    try
+                    {
+                        pSuperArray = RotateArrays(listSize, aInfo);
+                    }
+                    catch (...)
+                    {
+                        // the destructor does not run
+                        FreeArrayInfo(aInfo);
+                        if (filterObjAllocated)
+                        {
+                            Py_DECREF(pBoolFilterObject);
+                        }
+                        throw;
+                    }
                 }
                 else
                 {
@@ -1337,8 +1350,8 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                     WORKSPACE_FREE(pIndexArray);
                     WORKSPACE_FREE(pCountArray);
                     PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
-                    Py_DECREF((PyObject *)indexArray2);
-                    Py_DECREF((PyObject *)countArray2);
+                    Py_XDECREF((PyObject *)indexArray2);
+                    Py_XDECREF((PyObject *)countArray2);
 
                     return (PyObject *)retObject;
                 }
@@ -1390,8 +1403,8 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                     WORKSPACE_FREE(pIndexArray);
                     WORKSPACE_FREE(pCountArray);
                     PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
-                    Py_DECREF((PyObject *)indexArray2);
-                    Py_DECREF((PyObject *)countArray2);
+                    Py_XDECREF((PyObject *)indexArray2);
+                    Py_XDECREF((PyObject *)countArray2);
 
                     return (PyObject *)retObject;
                 }
@@ -1467,15 +1480,17 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
     {
         return NULL;
     }
-    PyObject * keyArgs = PyTuple_Pack(1, keyList);
+    std::unique_ptr<PyObject, void (*)(PyObject *)> const keyArgs{ PyTuple_Pack(1, keyList), [](PyObject * object)
+                                                                   {
+                                                                       Py_DECREF(object);
+                                                                   } };
     Py_DECREF(keyList);
     if (! keyArgs)
     {
         return NULL;
     }
 
-    CMultiKeyPrepare mkp(keyArgs);
-    Py_DECREF(keyArgs);
+    CMultiKeyPrepare mkp(keyArgs.get());
 
     if (mkp.pSuperArray)
     {
-- 
2.43.0


From 2c09d8ca65b7ad4454247d74711fe15f8add14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 55/55] fix: calls release all the memory they take, and a too
 small hash table raises in a partition too

---
 src/BasicMath.cpp     |  15 +++-
 src/HashLinear.cpp    | 156 +++++++++++++++++++++---------------------
 src/MultiKey.cpp      |  44 +++++++-----
 src/RipTide.cpp       |   4 +-
 src/SDSFilePython.cpp |  10 ++-
 5 files changed, 128 insertions(+), 101 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 15af816..03c33b8 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2123,6 +2123,8 @@ public:
         {
             Py_DecRef(toDelete4);
         }
+        PyMem_Free(ucs4Copy1);
+        PyMem_Free(ucs4Copy2);
     }
 
     //-------------------------------------------------------------------
@@ -2579,6 +2581,10 @@ public:
 
             // pDataIn1 will be set pointing to 256 bit value
             bool bResult = ConvertScalarObject(inObject1, &m256Scalar1, numpyInType2, &pDataIn1, &itemSize1);
+            if (bResult && PyUnicode_Check(inObject1))
+            {
+                ucs4Copy1 = pDataIn1;
+            }
 
             LOGGING(
                 "Converting first scalar type to %d, bresult: %d,  value: %lld  "
@@ -2642,6 +2648,10 @@ public:
 
             // pDataIn2 will be set pointing to 256 bit value
             bool bResult = ConvertScalarObject(inObject2, &m256Scalar2, numpyInType1, &pDataIn2, &itemSize2);
+            if (bResult && PyUnicode_Check(inObject2))
+            {
+                ucs4Copy2 = pDataIn2;
+            }
 
             LOGGING(
                 "Converting second scalar type to %d, bresult: %d,  value: %lld  "
@@ -3005,6 +3015,9 @@ public:
     PyObject * toDelete2 = nullptr;
     PyObject * toDelete3 = nullptr;
     PyObject * toDelete4 = nullptr;
+    // copies of Unicode scalars
+    void * ucs4Copy1 = nullptr;
+    void * ucs4Copy2 = nullptr;
 
     // often the same as inObject1/2
     PyArrayObject * inArr = nullptr;
@@ -3972,7 +3985,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2)
             {
                 free(extraAlloc2);
             }
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index b353650..bb6009c 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -4447,62 +4447,56 @@ void * IsMemberHash32_impl(int64_t size1, void * pInput1, int64_t size2, void *
     {
     case 1:
         {
-            CHashLinear<uint8_t, index_t> * pHashLinear = new CHashLinear<uint8_t, index_t>(HASH_MODE_MASK);
+            std::unique_ptr<CHashLinear<uint8_t, index_t>> pHashLinear{ new CHashLinear<uint8_t, index_t>(HASH_MODE_MASK) };
             pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
-            IsMemberMultiThread(IsMember<uint8_t, index_t>, pHashLinear, size1, (uint8_t *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMember<uint8_t, index_t>, pHashLinear.get(), size1, (uint8_t *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(uint8_t), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
         break;
     case 2:
         {
-            CHashLinear<uint16_t, index_t> * pHashLinear = new CHashLinear<uint16_t, index_t>(HASH_MODE_MASK);
+            std::unique_ptr<CHashLinear<uint16_t, index_t>> pHashLinear{ new CHashLinear<uint16_t, index_t>(HASH_MODE_MASK) };
             pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
-            IsMemberMultiThread(IsMember<uint16_t, index_t>, pHashLinear, size1, (uint16_t *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMember<uint16_t, index_t>, pHashLinear.get(), size1, (uint16_t *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(uint16_t), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
         break;
 
     case 4:
         {
-            CHashLinear<uint32_t, index_t> * pHashLinear = new CHashLinear<uint32_t, index_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint32_t, index_t>> pHashLinear{ new CHashLinear<uint32_t, index_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint32_t *)pInput2, hintSize);
-            IsMemberMultiThread(IsMember<uint32_t, index_t>, pHashLinear, size1, (uint32_t *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMember<uint32_t, index_t>, pHashLinear.get(), size1, (uint32_t *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(uint32_t), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
         break;
     case 8:
         {
-            CHashLinear<uint64_t, index_t> * pHashLinear = new CHashLinear<uint64_t, index_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint64_t, index_t>> pHashLinear{ new CHashLinear<uint64_t, index_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint64_t *)pInput2, hintSize);
-            IsMemberMultiThread(IsMember<uint64_t, index_t>, pHashLinear, size1, (uint64_t *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMember<uint64_t, index_t>, pHashLinear.get(), size1, (uint64_t *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(uint64_t), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
         break;
     case 104:
         {
-            CHashLinear<float, index_t> * pHashLinear = new CHashLinear<float, index_t>(hashMode);
+            std::unique_ptr<CHashLinear<float, index_t>> pHashLinear{ new CHashLinear<float, index_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (float *)pInput2, hintSize);
-            IsMemberMultiThread(IsMemberFloat<float, index_t>, pHashLinear, size1, (float *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMemberFloat<float, index_t>, pHashLinear.get(), size1, (float *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(float), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
         break;
     case 108:
         {
-            CHashLinear<double, index_t> * pHashLinear = new CHashLinear<double, index_t>(hashMode);
+            std::unique_ptr<CHashLinear<double, index_t>> pHashLinear{ new CHashLinear<double, index_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (double *)pInput2, hintSize);
-            IsMemberMultiThread(IsMemberFloat<double, index_t>, pHashLinear, size1, (double *)pInput1, pBoolOutput,
+            IsMemberMultiThread(IsMemberFloat<double, index_t>, pHashLinear.get(), size1, (double *)pInput1, pBoolOutput,
                                 (index_t *)pOutput, sizeof(double), sizeof(index_t));
-            delete pHashLinear;
             return NULL;
         }
     case 116:
@@ -4555,66 +4549,59 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
     {
     case 1:
         {
-            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint8_t, int32_t>> pHashLinear{ new CHashLinear<uint8_t, int32_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
 
     case 2:
         {
-            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint16_t, int32_t>> pHashLinear{ new CHashLinear<uint16_t, int32_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
 
     case 4:
         {
-            CHashLinear<uint32_t, int32_t> * pHashLinear = new CHashLinear<uint32_t, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint32_t, int32_t>> pHashLinear{ new CHashLinear<uint32_t, int32_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint32_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint32_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 8:
         {
-            CHashLinear<uint64_t, int32_t> * pHashLinear = new CHashLinear<uint64_t, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint64_t, int32_t>> pHashLinear{ new CHashLinear<uint64_t, int32_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint64_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint64_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 104:
         {
-            CHashLinear<float, int32_t> * pHashLinear = new CHashLinear<float, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<float, int32_t>> pHashLinear{ new CHashLinear<float, int32_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (float *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (float *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 108:
         {
-            CHashLinear<double, int32_t> * pHashLinear = new CHashLinear<double, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<double, int32_t>> pHashLinear{ new CHashLinear<double, int32_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (double *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (double *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 116:
         {
-            CHashLinear<long double, int32_t> * pHashLinear = new CHashLinear<long double, int32_t>(hashMode);
+            std::unique_ptr<CHashLinear<long double, int32_t>> pHashLinear{ new CHashLinear<long double, int32_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (long double *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (long double *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
@@ -4643,66 +4630,59 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
     {
     case 1:
         {
-            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint8_t, int64_t>> pHashLinear{ new CHashLinear<uint8_t, int64_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
 
     case 2:
         {
-            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint16_t, int64_t>> pHashLinear{ new CHashLinear<uint16_t, int64_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
 
     case 4:
         {
-            CHashLinear<uint32_t, int64_t> * pHashLinear = new CHashLinear<uint32_t, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint32_t, int64_t>> pHashLinear{ new CHashLinear<uint32_t, int64_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint32_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint32_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 8:
         {
-            CHashLinear<uint64_t, int64_t> * pHashLinear = new CHashLinear<uint64_t, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<uint64_t, int64_t>> pHashLinear{ new CHashLinear<uint64_t, int64_t>(hashMode) };
             pHashLinear->MakeHashLocation(size2, (uint64_t *)pInput2, hintSize);
             missed = pHashLinear->IsMemberCategorical(size1, (uint64_t *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 104:
         {
-            CHashLinear<float, int64_t> * pHashLinear = new CHashLinear<float, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<float, int64_t>> pHashLinear{ new CHashLinear<float, int64_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (float *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (float *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 108:
         {
-            CHashLinear<double, int64_t> * pHashLinear = new CHashLinear<double, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<double, int64_t>> pHashLinear{ new CHashLinear<double, int64_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (double *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (double *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
     case 116:
         {
-            CHashLinear<long double, int64_t> * pHashLinear = new CHashLinear<long double, int64_t>(hashMode);
+            std::unique_ptr<CHashLinear<long double, int64_t>> pHashLinear{ new CHashLinear<long double, int64_t>(hashMode) };
             pHashLinear->MakeHashLocationFloat(size2, (long double *)pInput2, hintSize);
             missed = pHashLinear->IsMemberFloatCategorical(size1, (long double *)pInput1, pOutput);
-            delete pHashLinear;
             return missed;
         }
         break;
@@ -4781,7 +4761,7 @@ template <typename U>
 int64_t IsMemberHashStringCategorical(int64_t size1, int64_t strWidth1, const char * pInput1, int64_t size2, int64_t strWidth2,
                                       const char * pInput2, U * pOutput, HASH_MODE hashMode, int64_t hintSize, bool isUnicode)
 {
-    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(hashMode);
+    std::unique_ptr<CHashLinear<uint64_t, U>> pHashLinear{ new CHashLinear<uint64_t, U>(hashMode) };
 
     LOGGING("MakeHashLocationString  %lld  %p  strdwidth2: %lld  hashMode %d\n", size2, pInput2, strWidth2, (int)hashMode);
 
@@ -4801,7 +4781,7 @@ int64_t IsMemberHashStringCategorical(int64_t size1, int64_t strWidth1, const ch
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        missed = pFunction(pHashLinear, size1, strWidth1, strWidth2, pInput1, pOutput, isUnicode);
+        missed = pFunction(pHashLinear.get(), size1, strWidth1, strWidth2, pInput1, pOutput, isUnicode);
     }
     else
     {
@@ -4810,7 +4790,7 @@ int64_t IsMemberHashStringCategorical(int64_t size1, int64_t strWidth1, const ch
 
         pWorkItem->WorkCallbackArg = &stIMSCallback;
 
-        stIMSCallback.pHashLinearVoid = pHashLinear;
+        stIMSCallback.pHashLinearVoid = pHashLinear.get();
         stIMSCallback.anyIMSCallback = pFunction;
         stIMSCallback.strWidth1 = strWidth1;
         stIMSCallback.pInput1 = pInput1;
@@ -4828,7 +4808,6 @@ int64_t IsMemberHashStringCategorical(int64_t size1, int64_t strWidth1, const ch
 
     LOGGING("IsMemberHashStringCategorical  done\n");
 
-    delete pHashLinear;
     return missed;
 }
 
@@ -4839,7 +4818,7 @@ void IsMemberHashString32(int64_t size1, int64_t strWidth1, const char * pInput1
                           const char * pInput2, U * pOutput, int8_t * pBoolOutput, HASH_MODE hashMode, int64_t hintSize,
                           bool isUnicode)
 {
-    CHashLinear<uint64_t, U> * pHashLinear = new CHashLinear<uint64_t, U>(hashMode);
+    std::unique_ptr<CHashLinear<uint64_t, U>> pHashLinear{ new CHashLinear<uint64_t, U>(hashMode) };
 
     LOGGING("MakeHashLocationString  %lld  %p  strdwidth2: %lld  hashMode %d\n", size2, pInput2, strWidth2, (int)hashMode);
 
@@ -4854,7 +4833,6 @@ void IsMemberHashString32(int64_t size1, int64_t strWidth1, const char * pInput1
 
     LOGGING("IsMemberHashString32  done\n");
 
-    delete pHashLinear;
 }
 
 //-----------------------------------------------------------------------------------------
@@ -4901,7 +4879,7 @@ bool AlignHashMK32(int64_t size1, void * pInput1, void * pInVal1, int64_t size2,
                    int64_t totalItemSize, HASH_MODE hashMode, int32_t dtype, bool isForward, bool allowExact)
 {
     bool success = true;
-    CHashLinear<char, int32_t> * pHashLinear = new CHashLinear<char, int32_t>(hashMode);
+    std::unique_ptr<CHashLinear<char, int32_t>> pHashLinear{ new CHashLinear<char, int32_t>(hashMode) };
 
     switch (dtype)
     {
@@ -4983,7 +4961,6 @@ bool AlignHashMK32(int64_t size1, void * pInput1, void * pInVal1, int64_t size2,
         success = false;
         break;
     }
-    delete pHashLinear;
     return success;
 }
 
@@ -4993,7 +4970,7 @@ bool AlignHashMK64(int64_t size1, void * pInput1, void * pInVal1, int64_t size2,
                    int64_t totalItemSize, HASH_MODE hashMode, int32_t dtype, bool isForward, bool allowExact)
 {
     bool success = true;
-    CHashLinear<char, int64_t> * pHashLinear = new CHashLinear<char, int64_t>(hashMode);
+    std::unique_ptr<CHashLinear<char, int64_t>> pHashLinear{ new CHashLinear<char, int64_t>(hashMode) };
 
     switch (dtype)
     {
@@ -5076,7 +5053,6 @@ bool AlignHashMK64(int64_t size1, void * pInput1, void * pInVal1, int64_t size2,
         success = false;
         break;
     }
-    delete pHashLinear;
     return success;
 }
 
@@ -5088,7 +5064,7 @@ uint64_t DoLinearHash(int64_t totalRows, int64_t totalItemSize, const char * pIn
                       int64_t hintSize, bool * pBoolFilter)
 {
     uint64_t numUnique = 0;
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -2, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
     // Handles any size
@@ -5098,7 +5074,8 @@ uint64_t DoLinearHash(int64_t totalRows, int64_t totalItemSize, const char * pIn
     *pHashTableAny = pHashLinear->pHashTableAny;
     *hashTableSize = pHashLinear->HashTableAllocSize;
     *pFirstArrayVoid = pFirstArray;
-    delete pHashLinear;
+    // the caller returns the memory
+    pHashLinear->Deallocate = false;
     return numUnique;
 }
 
@@ -5110,7 +5087,7 @@ uint64_t DoLinearHashFloat(int64_t totalRows, int64_t totalItemSize, const char
                            int64_t hintSize, bool * pBoolFilter)
 {
     uint64_t numUnique = 0;
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
     numUnique = pHashLinear->GroupByFloat(totalRows, totalItemSize, (HASH_TYPE *)pInput1, coreType, pIndexArray, pFirstArray,
@@ -5120,7 +5097,8 @@ uint64_t DoLinearHashFloat(int64_t totalRows, int64_t totalItemSize, const char
     *pHashTableAny = pHashLinear->pHashTableAny;
     *hashTableSize = pHashLinear->HashTableAllocSize;
     *pFirstArrayVoid = pFirstArray;
-    delete pHashLinear;
+    // the caller returns the memory
+    pHashLinear->Deallocate = false;
     return numUnique;
 }
 
@@ -5134,7 +5112,7 @@ uint64_t DoLinearHashItemSize(int64_t totalRows, int64_t totalItemSize, const ch
 {
     uint64_t numUnique = 0;
 
-    CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
+    std::unique_ptr<CHashLinear<HASH_TYPE, INDEX_TYPE>> pHashLinear{ new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode) };
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
     if (pFirstArray)
@@ -5147,8 +5125,9 @@ uint64_t DoLinearHashItemSize(int64_t totalRows, int64_t totalItemSize, const ch
     *pHashTableAny = pHashLinear->pHashTableAny;
     *hashTableSize = pHashLinear->HashTableAllocSize;
     *pFirstArrayVoid = pFirstArray;
+    // the caller returns the memory
+    pHashLinear->Deallocate = false;
 
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5254,10 +5233,9 @@ uint64_t GroupBy32Super(int64_t totalRows, int64_t totalItemSize, const char * p
 {
     uint64_t numUnique = 0;
 
-    CHashLinear<uint32_t, int32_t> * pHashLinear = new CHashLinear<uint32_t, int32_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint32_t, int32_t>> pHashLinear{ new CHashLinear<uint32_t, int32_t>(hashMode) };
     numUnique = pHashLinear->GroupBySuper(totalRows, totalItemSize, pInput1, coreType, pIndexArray, pNextArray, pUniqueArray,
                                           pUniqueCountArray, hashMode, hintSize, pBoolFilter);
-    delete pHashLinear;
 
     return numUnique;
 }
@@ -5268,11 +5246,10 @@ uint64_t GroupBy64Super(int64_t totalRows, int64_t totalItemSize, const char * p
                         int64_t * pNextArray, int64_t * pUniqueArray, int64_t * pUniqueCountArray, HASH_MODE hashMode,
                         int64_t hintSize, bool * pBoolFilter)
 {
-    CHashLinear<uint64_t, int64_t> * pHashLinear = new CHashLinear<uint64_t, int64_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint64_t, int64_t>> pHashLinear{ new CHashLinear<uint64_t, int64_t>(hashMode) };
     uint64_t numUnique = pHashLinear->GroupBySuper(totalRows, totalItemSize, pInput1, coreType, pIndexArray, pNextArray,
                                                    pUniqueArray, pUniqueCountArray, hashMode, hintSize, pBoolFilter);
 
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5282,11 +5259,10 @@ uint64_t Unique32(int64_t totalRows, int64_t totalItemSize, const char * pInput1
 
                   int32_t * pIndexArray, int32_t * pCountArray, HASH_MODE hashMode, int64_t hintSize, bool * pBoolFilter)
 {
-    CHashLinear<uint32_t, int32_t> * pHashLinear = new CHashLinear<uint32_t, int32_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint32_t, int32_t>> pHashLinear{ new CHashLinear<uint32_t, int32_t>(hashMode) };
     uint64_t numUnique =
         pHashLinear->Unique(totalRows, totalItemSize, pInput1, pIndexArray, pCountArray, hashMode, hintSize, pBoolFilter);
 
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5296,11 +5272,10 @@ uint64_t Unique64(int64_t totalRows, int64_t totalItemSize, const char * pInput1
 
                   int64_t * pIndexArray, int64_t * pCountArray, HASH_MODE hashMode, int64_t hintSize, bool * pBoolFilter)
 {
-    CHashLinear<uint32_t, int64_t> * pHashLinear = new CHashLinear<uint32_t, int64_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint32_t, int64_t>> pHashLinear{ new CHashLinear<uint32_t, int64_t>(hashMode) };
     uint64_t numUnique =
         pHashLinear->Unique(totalRows, totalItemSize, pInput1, pIndexArray, pCountArray, hashMode, hintSize, pBoolFilter);
 
-    delete pHashLinear;
     return numUnique;
 }
 
@@ -5339,7 +5314,18 @@ void * MultiKeyRollingStep2(int64_t totalRows, int64_t totalItemSize, const char
         pHashLinear = new CHashLinear<uint64_t, int64_t>(hashMode);
     }
 
-    pHashLinear->MultiKeyRolling(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, hashMode, hintSize);
+    try
+    {
+        pHashLinear->MultiKeyRolling(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, hashMode, hintSize);
+    }
+    catch (...)
+    {
+        if (! pHashLinearLast)
+        {
+            delete pHashLinear;
+        }
+        throw;
+    }
     *numUnique = pHashLinear->NumUnique;
 
     // Allow to keep rolling
@@ -5353,10 +5339,9 @@ void * MultiKeyHash32(int64_t totalRows, int64_t totalItemSize, const char * pIn
                       int32_t * pIndexArray, int32_t * pRunningCountArray, int32_t * pPrevArray, int32_t * pNextArray,
                       int32_t * pFirstArray, HASH_MODE hashMode, int64_t hintSize, bool * pBoolFilter)
 {
-    CHashLinear<uint32_t, int32_t> * pHashLinear = new CHashLinear<uint32_t, int32_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint32_t, int32_t>> pHashLinear{ new CHashLinear<uint32_t, int32_t>(hashMode) };
     pHashLinear->MakeHashLocationMultiKey(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, pPrevArray,
                                           pNextArray, pFirstArray, hashMode, hintSize, pBoolFilter);
-    delete pHashLinear;
     return NULL;
 }
 
@@ -5367,10 +5352,9 @@ void * MultiKeyHash64(int64_t totalRows, int64_t totalItemSize, const char * pIn
                       int64_t * pIndexArray, int64_t * pRunningCountArray, int64_t * pPrevArray, int64_t * pNextArray,
                       int64_t * pFirstArray, HASH_MODE hashMode, int64_t hintSize, bool * pBoolFilter)
 {
-    CHashLinear<uint32_t, int64_t> * pHashLinear = new CHashLinear<uint32_t, int64_t>(hashMode);
+    std::unique_ptr<CHashLinear<uint32_t, int64_t>> pHashLinear{ new CHashLinear<uint32_t, int64_t>(hashMode) };
     pHashLinear->MakeHashLocationMultiKey(totalRows, totalItemSize, pInput1, pIndexArray, pRunningCountArray, pPrevArray,
                                           pNextArray, pFirstArray, hashMode, hintSize, pBoolFilter);
-    delete pHashLinear;
     return NULL;
 }
 
@@ -5558,7 +5542,7 @@ void IsMemberHashMK(int64_t size1, void * pInput1,
 {
     LOGGING("ismember hash  sz1:%lld  sz2:%lld   totalitemsize:%lld  %p  %p\n", size1, size2, totalItemSize, pInput1, pInput2);
 
-    CHashLinear<char, U> * pHashLinear = new CHashLinear<char, U>(hashMode);
+    std::unique_ptr<CHashLinear<char, U>> pHashLinear{ new CHashLinear<char, U>(hashMode) };
     pHashLinear->MakeHashLocationMK(size2, (char *)pInput2, totalItemSize, hintSize);
 
     stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(size1);
@@ -5568,7 +5552,7 @@ void IsMemberHashMK(int64_t size1, void * pInput1,
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pHashLinear, size1, (char *)pInput1, (char *)pInput2, pBoolOutput, pOutput, totalItemSize);
+        pFunction(pHashLinear.get(), size1, (char *)pInput1, (char *)pInput2, pBoolOutput, pOutput, totalItemSize);
     }
     else
     {
@@ -5577,7 +5561,7 @@ void IsMemberHashMK(int64_t size1, void * pInput1,
 
         pWorkItem->WorkCallbackArg = &stIMMKCallback;
 
-        stIMMKCallback.pHashLinearVoid = pHashLinear;
+        stIMMKCallback.pHashLinearVoid = pHashLinear.get();
         stIMMKCallback.anyIMMKCallback = pFunction;
         stIMMKCallback.size1 = size1;
         stIMMKCallback.pInput1 = pInput1;
@@ -5592,7 +5576,6 @@ void IsMemberHashMK(int64_t size1, void * pInput1,
         g_cMathWorker->WorkMain(pWorkItem, size1, 0);
     }
 
-    delete pHashLinear;
 }
 
 //-----------------------------------------------------------------------------------------
@@ -5908,6 +5891,8 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
                     // Performance gain: if STRING and itemsize matches and itemsize is 1 or 2
                     // --> Send to IsMemberHash32
                     // sizeType2 is taken to the be fixed length of each string
+                    // It allocates the index array itself.
+                    Py_CLEAR(indexArray);
                     IsMemberHashString32Pre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1, arraySize2,
                                             sizeType2, (const char *)pDataIn2, pDataOut1, HASH_MODE(hashMode), hintSize,
                                             arrayType1 == NPY_UNICODE);
@@ -6044,6 +6029,7 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             int64_t HintSize;
             bool * pBoolFilter;
             std::atomic<bool> OutOfMemory{ false };
+            std::atomic<bool> Failed{ false };
         };
 
         // This is the routine that will be called back from multiple threads
@@ -6099,6 +6085,13 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
                 pPartition->NumUnique = 0;
                 cb->OutOfMemory = true;
             }
+            catch (const std::exception &)
+            {
+                // for instance a table that is too small for the keys
+                pPartition->pHashTableAny = nullptr;
+                pPartition->NumUnique = 0;
+                cb->Failed = true;
+            }
 
             return true;
         };
@@ -6145,6 +6138,11 @@ static uint64_t GroupByImpl(const int64_t partitionLength, // may be 0
             cleanUp();
             throw std::bad_alloc();
         }
+        if (stMKGBCallback.Failed)
+        {
+            cleanUp();
+            throw std::runtime_error("hashing a partition failed");
+        }
 
         // firstArray = *stMKGBCallback.pFirstArray;
         // NOW COLLECT ALL THE RESULTS
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 815da0b..f7f66cf 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1018,6 +1018,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         }
     }
 
+    PyArrayObject * indexArray = NULL;
     try
     {
         // Rotate the arrays
@@ -1055,7 +1056,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
 
         if (mkp.pSuperArray && mkp.listSize > 0)
         {
-            PyArrayObject * indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
+            indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
 
             if (indexArray == NULL)
             {
@@ -1104,7 +1105,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
 
                 PyObject * retObject = Py_BuildValue("(OOL)", indexArray, firstArray, numUnique);
                 Py_DECREF((PyObject *)indexArray);
-                Py_DECREF((PyObject *)firstArray);
+                Py_XDECREF((PyObject *)firstArray);
 
                 // PyObject* retObject = Py_BuildValue("(OOL)", indexArray, Py_None,
                 // numUnique); Py_DECREF((PyObject*)indexArray);
@@ -1120,6 +1121,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
     }
     catch (...)
     {
+        Py_XDECREF((PyObject *)indexArray);
     }
 
     PyErr_Format(PyExc_ValueError, "MultiKeyGroupBy32 failed in multikey prepare:  %llu", tupleSize);
@@ -1170,6 +1172,8 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
         }
     }
 
+    PyArrayObject * indexArray = NULL;
+    PyArrayObject * nextArray = NULL;
     try
     {
         int32_t numpyIndexType = NPY_INT32;
@@ -1185,8 +1189,8 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
 
         if (mkp.pSuperArray && mkp.listSize > 0)
         {
-            PyArrayObject * indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
-            PyArrayObject * nextArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
+            indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
+            nextArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
 
             if (indexArray == NULL || nextArray == NULL)
             {
@@ -1200,8 +1204,12 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                 int32_t * pNextArray = (int32_t *)PyArray_BYTES(nextArray);
 
                 // now one based, so zero reserved
-                int32_t * pUniqueArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
-                int32_t * pUniqueCountArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) * sizeof(int32_t));
+                workspace_mem_ptr const uniqueOwner{ WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) *
+                                                                        sizeof(int32_t)) };
+                int32_t * pUniqueArray = (int32_t *)uniqueOwner.get();
+                workspace_mem_ptr const uniqueCountOwner{ WORKSPACE_ALLOC_OR_THROW((mkp.aInfo[0].ArrayLength + 1) *
+                                                                        sizeof(int32_t)) };
+                int32_t * pUniqueCountArray = (int32_t *)uniqueCountOwner.get();
 
                 int64_t numUnique = 0;
 
@@ -1240,8 +1248,6 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                     int32_t * pUniqueCountArrayDest = (int32_t *)PyArray_BYTES(uniqueCountArray);
                     memcpy(pUniqueCountArrayDest, pUniqueCountArray, numUnique * sizeof(int32_t));
                 }
-                WORKSPACE_FREE(pUniqueArray);
-                WORKSPACE_FREE(pUniqueCountArray);
 
                 // printf("--MakeSlices...");
                 //// OPTIONAL CALL
@@ -1266,6 +1272,8 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
     }
     catch (...)
     {
+        Py_XDECREF((PyObject *)indexArray);
+        Py_XDECREF((PyObject *)nextArray);
     }
 
     PyErr_Format(PyExc_ValueError, "MultiKeySuper failed in multikey prepare:  %llu", tupleSize);
@@ -1306,10 +1314,12 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
             if (mkp.totalRows < 2100000000)
             {
                 // worst case alloc
-                int32_t * pIndexArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t));
+                workspace_mem_ptr const indexOwner{ WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t)) };
+                int32_t * pIndexArray = (int32_t *)indexOwner.get();
 
                 // worst case alloc
-                int32_t * pCountArray = (int32_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t));
+                workspace_mem_ptr const countOwner{ WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int32_t)) };
+                int32_t * pCountArray = (int32_t *)countOwner.get();
 
                 if (pIndexArray == NULL || pCountArray == NULL)
                 {
@@ -1346,9 +1356,6 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                         memcpy(pCountArray2, pCountArray, numUnique * sizeof(int32_t));
                     }
 
-                    // free the side array
-                    WORKSPACE_FREE(pIndexArray);
-                    WORKSPACE_FREE(pCountArray);
                     PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
                     Py_XDECREF((PyObject *)indexArray2);
                     Py_XDECREF((PyObject *)countArray2);
@@ -1359,10 +1366,12 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
             else
             {
                 // worst case alloc
-                int64_t * pIndexArray = (int64_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t));
+                workspace_mem_ptr const indexOwner{ WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t)) };
+                int64_t * pIndexArray = (int64_t *)indexOwner.get();
 
                 // worst case alloc
-                int64_t * pCountArray = (int64_t *)WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t));
+                workspace_mem_ptr const countOwner{ WORKSPACE_ALLOC_OR_THROW(mkp.totalRows * sizeof(int64_t)) };
+                int64_t * pCountArray = (int64_t *)countOwner.get();
 
                 if (pIndexArray == NULL || pCountArray == NULL)
                 {
@@ -1399,9 +1408,6 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                         memcpy(pCountArray2, pCountArray, numUnique * sizeof(int64_t));
                     }
 
-                    // free the side array
-                    WORKSPACE_FREE(pIndexArray);
-                    WORKSPACE_FREE(pCountArray);
                     PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
                     Py_XDECREF((PyObject *)indexArray2);
                     Py_XDECREF((PyObject *)countArray2);
@@ -1413,6 +1419,8 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
     }
     catch (...)
     {
+        PyErr_Format(PyExc_ValueError, "MultiKeyUnique32 failed in multikey prepare:  %llu", tupleSize);
+        return NULL;
     }
 
     RETURN_NONE;
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 508e8bd..d2a6094 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1300,9 +1300,9 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 return false;
             }
             *pItemSize = PyUnicode_GET_LENGTH(inObject1) * 4;
-            // memory leak needs to be deleted
+            // the caller must free the copy with PyMem_Free
             *ppDataIn = PyUnicode_AsUCS4Copy(inObject1);
-            return true;
+            return *ppDataIn != NULL;
         }
         else if (PyArray_IsScalar(inObject1, Generic))
         {
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 8887bd1..9597552 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -658,7 +658,15 @@ PyObject * GetMetaData(const char * const metaData, const int64_t metaSize)
 
 int SetStringLong(PyObject * pDict, const char * strkey, long long value)
 {
-    return PyDict_SetItemString(pDict, strkey, (PyObject *)PyLong_FromLongLong(value));
+    PyObject * pValue = PyLong_FromLongLong(value);
+    if (! pValue)
+    {
+        return -1;
+    }
+    // the dictionary keeps a reference of its own
+    int const result = PyDict_SetItemString(pDict, strkey, pValue);
+    Py_DECREF(pValue);
+    return result;
 }
 
 //----------------------------------------------------
-- 
2.43.0

